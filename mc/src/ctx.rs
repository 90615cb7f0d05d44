//! One process explores one unit, case by case and deterministically. The number of the case being
//! executed is kept in a memory-mapped file, so that the supervisor can attribute a crash or a hang
//! to it, and re-run the unit to have that case described and its failure confirmed.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

pub struct Violation(pub String);
/// Payload of panics injected by the harness.
pub struct Injected;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// small bounds (for instrumented builds)
    Small,
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, small: T, quick: T, thorough: T) -> T {
        match self {
            Tier::Small => small,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx)>,
}

pub fn unit<F: Fn(&mut Ctx) + 'static>(name: impl Into<String>, run: F) -> Unit {
    Unit { name: name.into(), run: Box::new(run) }
}

pub struct Ctx {
    pub tier: Tier,
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub nontrivial: u64,
    progress: *mut u64,
    trace_at: u64,
    next_sample: u64,
    samples: Vec<String>,
    outcomes: HashSet<u64>,
    digest: u64,
}

impl Ctx {
    /// Announce the next case. Must be called before the code under test runs.
    #[inline(always)]
    pub fn case<S: Into<String>>(&mut self, desc: impl FnOnce() -> S) {
        self.cases += 1;
        unsafe { std::ptr::write_volatile(self.progress, self.cases) };
        if self.cases == self.trace_at || self.cases == self.next_sample {
            self.describe(desc().into());
        }
    }
    #[cold]
    fn describe(&mut self, d: String) {
        if self.cases == self.trace_at {
            println!("DESC\t{:016x}\t{}", self.digest, clean(&d));
        }
        if self.cases == self.next_sample {
            self.next_sample = self.next_sample * 7 + 3;
            if self.samples.len() < 8 {
                self.samples.push(d);
            }
        }
    }
    /// Record an observed outcome: feeds the digest and the number of distinct outcomes.
    #[inline]
    pub fn obs<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        let x = h.finish();
        self.digest = (self.digest.rotate_left(5) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(x);
        }
    }
    #[inline(always)]
    pub fn ck<S: Into<String>>(&mut self, ok: bool, msg: impl FnOnce() -> S) {
        if !ok {
            fail(msg());
        }
    }
}

#[cold]
pub fn fail<S: Into<String>>(msg: S) -> ! {
    panic_any(Violation(msg.into()))
}

pub fn clean(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

/// Run `f`; `Ok` if it returned, `Err(true)` if it ended in an injected panic, `Err(false)` if it
/// ended in any other panic. Violations pass through.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, bool> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            if e.is::<Violation>() {
                std::panic::resume_unwind(e)
            }
            Err(e.is::<Injected>())
        }
    }
}

pub fn inject() -> ! {
    panic_any(Injected)
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn map_progress(path: &str) -> *mut u64 {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("progress file");
    f.set_len(4096).expect("progress file");
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p as *mut u64
}

/// Start again without address space randomisation, so that a run that depends on addresses can be repeated.
/// Where that is not permitted, go on with it.
fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    extern "C" {
        fn personality(p: u64) -> i32;
    }
    const NO_RANDOMIZE: u64 = 0x0040000;
    if std::env::var_os("MC_FIXED").is_some() { return; }
    let now = unsafe { personality(0xffff_ffff) };
    if now < 0 || now as u64 & NO_RANDOMIZE != 0 || unsafe { personality(now as u64 | NO_RANDOMIZE) } < 0 { return; }
    let exe = match std::env::current_exe() { Ok(e) => e, Err(_) => return };
    let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("MC_FIXED", "1").exec();
}

/// Not to outlive the driver.
fn end_with_parent() {
    extern "C" {
        fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
    const PR_SET_PDEATHSIG: i32 = 1;
    unsafe { prctl(PR_SET_PDEATHSIG, 9, 0, 0, 0) };
}

pub fn harness_main(units: fn(Tier) -> Vec<Unit>) {
    fixed_addresses();
    end_with_parent();
    let tier = match std::env::var("MC_TIER").ok().as_deref() {
        Some("small") => Tier::Small,
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{} at {}", m, at));
    }));
    let args: Vec<String> = std::env::args().collect();
    let us = units(tier);
    match args.get(1).map(|s| &**s) {
        Some("list") => {
            for u in us {
                println!("{}", u.name);
            }
        }
        Some("unit") => {
            let u = us.into_iter().find(|u| u.name == args[2]).expect("no such unit");
            let trace_at = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(0);
            let p = map_progress(&args[3]);
            run_unit(&u, tier, p, trace_at);
        }
        _ => {
            eprintln!("usage: list | unit NAME PROGRESSFILE [CASE]");
            std::process::exit(2);
        }
    }
}

fn run_unit(u: &Unit, tier: Tier, progress: *mut u64, trace_at: u64) {
    let mut ctx = Ctx {
        tier,
        cases: 0,
        states: 0,
        transitions: 0,
        nontrivial: 0,
        progress,
        trace_at,
        next_sample: 1,
        samples: vec![],
        outcomes: HashSet::new(),
        digest: 0,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (u.run)(&mut ctx)));
    if let Err(e) = r {
        let m = match e.downcast_ref::<Violation>() {
            Some(v) => v.0.clone(),
            None => format!("panicked: {}", last_panic()),
        };
        println!("FAIL\t{}\t{}", ctx.cases, clean(&m));
        std::process::exit(3);
    }
    let samples: Vec<String> = ctx.samples.iter().map(|s| esc(s)).collect();
    println!(
        "STAT\t{{\"unit\":{},\"cases\":{},\"states\":{},\"transitions\":{},\"nontrivial\":{},\"outcomes\":{},\"digest\":\"{:016x}\",\"samples\":[{}]}}",
        esc(&u.name), ctx.cases, ctx.states, ctx.transitions, ctx.nontrivial, ctx.outcomes.len(), ctx.digest,
        samples.join(",")
    );
}
