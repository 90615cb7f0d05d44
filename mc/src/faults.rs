//! Callbacks whose every answer, including a panic, is chosen by the explorer.
use crate::elem::{live_bad, live_reset, Elem, Tok, PAD};
use crate::*;
use std::cell::RefCell;
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dev { Flip, Panic }
/// Answers beyond the chosen ones.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cont { Real, First, Last, Alternate }

#[derive(Clone, Debug)]
pub struct Script {
    /// answers 0..options, or `options` for a panic
    pub ch: Vec<u8>,
    pub depth: usize,
    pub cont: Cont,
    pub devs: Vec<(usize, Dev)>,
    pub horizon: usize,
    opts: Vec<u8>,
    k: usize,
}
impl Script {
    pub fn new(ch: Vec<u8>, depth: usize, cont: Cont, devs: Vec<(usize, Dev)>, horizon: usize) -> Self {
        Script { ch, depth, cont, devs, horizon, opts: vec![], k: 0 }
    }
    fn next(&mut self, n: usize, real: usize) -> Option<usize> {
        let k = self.k;
        self.k += 1;
        if k >= self.horizon { return None; }
        let mut a = if k < self.depth {
            self.opts.push(n as u8);
            let c = self.ch.get(k).copied().unwrap_or(0) as usize;
            if c >= n { return None; }
            c
        } else {
            match self.cont { Cont::Real => real, Cont::First => 0, Cont::Last => n - 1, Cont::Alternate => k % n }
        };
        for &(at, d) in &self.devs {
            if at == k {
                match d { Dev::Panic => return None, Dev::Flip => a = (a + 1) % n }
            }
        }
        Some(a)
    }
}

thread_local! {
    static S: RefCell<Option<Script>> = RefCell::new(None);
    /// tags below this are elements (data, then auxiliary); others are guards
    static ELEMS: RefCell<usize> = RefCell::new(0);
}
pub fn choose(n: usize, real: usize) -> usize {
    let r = S.with(|s| s.borrow_mut().as_mut().map(|s| s.next(n, real)));
    match r { Some(Some(a)) => a, Some(None) => inject(), None => real }
}

pub trait FElem: Sized + 'static {
    const NAME: &'static str;
    const ZST: bool = false;
    fn mk(key: usize, tag: usize) -> Self;
    fn key(&self) -> usize;
    fn tag(&self) -> usize;
    fn seen(&self) {
        if Self::ZST { return; }
        let t = self.tag();
        let n = ELEMS.with(|e| *e.borrow());
        if t >= n { fail(format!("a callback was given something that is not an element (tag {} of {})", t, n)); }
    }
    fn ask2(&self, o: &Self, real: bool) -> bool { self.seen(); o.seen(); choose(2, real as usize) == 1 }
    fn ask3(&self, o: &Self) -> Ordering {
        self.seen();
        o.seen();
        let real = match self.key().cmp(&o.key()) { Ordering::Less => 0, Ordering::Greater => 1, Ordering::Equal => 2 };
        [Ordering::Less, Ordering::Greater, Ordering::Equal][choose(3, real)]
    }
}
pub struct FB { key: u16, tag: Box<u16>, tok: Tok }
impl FElem for FB {
    const NAME: &'static str = "boxed";
    fn mk(k: usize, t: usize) -> FB { FB { key: k as u16, tag: Box::new(t as u16), tok: Elem::mk(t) } }
    fn key(&self) -> usize { self.key as usize }
    fn tag(&self) -> usize { if *self.tag as u32 == self.tok.0 { *self.tag as usize } else { 1 << 30 } }
}
pub struct FT(Tok, u16);
impl FElem for FT {
    const NAME: &'static str = "small";
    fn mk(k: usize, t: usize) -> FT { FT(Elem::mk(t), k as u16) }
    fn key(&self) -> usize { self.1 as usize }
    fn tag(&self) -> usize { (self.0).0 as usize }
}
pub struct FW { pad: [u64; 5], tok: Tok, key: u16 }
impl FElem for FW {
    const NAME: &'static str = "large";
    fn mk(k: usize, t: usize) -> FW { FW { pad: [t as u64 * 3; 5], tok: Elem::mk(t), key: k as u16 } }
    fn key(&self) -> usize { self.key as usize }
    fn tag(&self) -> usize { if self.pad == [self.tok.0 as u64 * 3; 5] { self.tok.0 as usize } else { 1 << 30 } }
}
pub struct FZ(elem::Ztok);
impl FElem for FZ {
    const NAME: &'static str = "zero-sized";
    const ZST: bool = true;
    fn mk(_: usize, _: usize) -> FZ { FZ(Elem::mk(0)) }
    fn key(&self) -> usize { 0 }
    fn tag(&self) -> usize { 0 }
}
macro_rules! ords { ($($t:ty),*) => { $(
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.ask2(o, self.key() == o.key()) } }
    impl Eq for $t {}
    impl PartialOrd for $t {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.ask3(o)) }
        fn lt(&self, o: &Self) -> bool { self.ask2(o, self.key() < o.key()) }
        fn le(&self, o: &Self) -> bool { self.ask2(o, self.key() <= o.key()) }
        fn gt(&self, o: &Self) -> bool { self.ask2(o, self.key() > o.key()) }
        fn ge(&self, o: &Self) -> bool { self.ask2(o, self.key() >= o.key()) }
    }
    impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.ask3(o) } }
)* } }
ords!(FB, FT, FW, FZ);

/// Something that runs user callbacks over a data slice and an auxiliary one.
pub struct Target<T> {
    pub name: String,
    /// elements may move between data and auxiliary
    pub mixed: bool,
    pub f: Box<dyn Fn(&mut [T], &mut [T])>,
}

/// Run once; returns the options met at each chosen call, and the number of calls.
pub fn exec<T: FElem>(ctx: &mut Ctx, t: &Target<T>, keys: &[usize], aux: usize, s: Script) -> (Vec<u8>, usize) {
    let (n, total) = (keys.len(), keys.len() + aux);
    let d = { let s = s.clone(); move |m: &str| format!("{} of {} {} elements with keys {:?} (auxiliary: {}), {}: {}", t.name, n, T::NAME, keys, aux, show(&s), m) };
    ctx.case(|| d(""));
    ctx.transitions += 1;
    live_reset();
    let g = keys.get(n / 2).copied().unwrap_or(0);
    let mut v: Vec<T> = Vec::with_capacity(n + 2 * PAD);
    let mut u: Vec<T> = Vec::with_capacity(aux + 2 * PAD);
    v.extend((0..PAD).map(|i| T::mk(g, total + i)));
    v.extend((0..n).map(|i| T::mk(keys[i], i)));
    v.extend((0..PAD).map(|i| T::mk(g, total + PAD + i)));
    u.extend((0..PAD).map(|i| T::mk(g, total + 2 * PAD + i)));
    u.extend((0..aux).map(|i| T::mk(g, n + i)));
    u.extend((0..PAD).map(|i| T::mk(g, total + 3 * PAD + i)));
    ELEMS.with(|e| *e.borrow_mut() = total);
    S.with(|x| *x.borrow_mut() = Some(s));
    let r = guarded(|| (t.f)(&mut v[PAD..PAD + n], &mut u[PAD..PAD + aux]));
    let s = S.with(|x| x.borrow_mut().take().unwrap());
    // every element exactly once
    let mut why = None;
    if !T::ZST {
        let mut at = vec![0u8; total];
        for (q, w, len) in [(0, &v, n), (1, &u, aux)] {
            for (i, x) in w.iter().enumerate() {
                let tag = x.tag();
                if i < PAD || i >= PAD + len {
                    let want = total + 2 * PAD * q + if i < PAD { i } else { PAD + i - PAD - len };
                    if tag != want { why = Some("something outside the slices was changed".to_string()); }
                } else if tag >= total || at[tag] != 0 || (!t.mixed && (tag >= n) != (q == 1)) {
                    why = Some(format!("data holds original elements {:?}, auxiliary {:?}", tags(&v, n), tags(&u, aux)));
                } else {
                    at[tag] = 1;
                    if tag < n && x.key() != keys[tag] { why = Some(format!("element {} was altered", tag)); }
                }
            }
        }
        ctx.obs(&(tags(&v, n), tags(&u, aux), r.is_ok()));
    } else {
        ctx.obs(&(n, r.is_ok()));
    }
    if why.is_none() && live::<T>(total + 4 * PAD) { why = Some(format!("{:?} (element, live values)", live_bad(0, 0))); }
    if let Some(w) = why {
        std::mem::forget((v, u));
        fail(d(&format!("{}{}", w, match r { Ok(_) => "", Err(true) => " (after the callback panicked)", Err(false) => " (after another panic)" })));
    }
    drop(v);
    drop(u);
    if let Some((i, c)) = live_bad(0, 0) { fail(d(&format!("element {} is live {} times after everything was dropped", i, c))); }
    ctx.states += 1;
    ctx.nontrivial += r.is_err() as u64;
    (s.opts, s.k)
}
/// Does the number of live values differ from one for each element of the slices?
fn live<T: FElem>(count: usize) -> bool {
    if T::ZST { live_bad(1, count as i64).is_some() } else { live_bad(count, 1).is_some() }
}
fn tags<T: FElem>(v: &[T], n: usize) -> Vec<usize> { v[PAD..PAD + n].iter().map(|x| x.tag()).collect() }
fn show(s: &Script) -> String {
    let mut o = String::new();
    if s.depth > 0 { o += &format!("answers {:?} then {:?}", s.ch, s.cont); } else { o += &format!("answers {:?}", s.cont).to_lowercase(); }
    if !s.devs.is_empty() { o += &format!(", except {:?} (call, what)", s.devs); }
    if s.horizon != usize::MAX { o += &format!(", panic at call {}", s.horizon); }
    o
}

/// Every sequence of answers of length up to `depth`, panics included, each continued in the ways given.
pub fn dfs<T: FElem>(ctx: &mut Ctx, t: &Target<T>, keys: &[usize], aux: usize, depth: usize, conts: &[Cont], horizon: usize) {
    for &cont in conts {
        let mut ch: Vec<u8> = vec![];
        loop {
            let (opts, k) = exec(ctx, t, keys, aux, Script::new(ch.clone(), depth, cont, vec![], horizon));
            ch.resize(opts.len(), 0);
            // beyond the first continuation, only sequences that reach it differ
            let _ = k;
            while let Some(c) = ch.last_mut() {
                if *c < opts[ch.len() - 1] { *ch.last_mut().unwrap() += 1; break; }
                ch.pop();
            }
            if ch.is_empty() { break; }
        }
    }
}
/// Consistent answers except for up to `flips` wrong ones, and a panic at any call.
pub fn deviate<T: FElem>(ctx: &mut Ctx, t: &Target<T>, keys: &[usize], aux: usize, flips: usize, panic_too: bool, horizon: usize) {
    fn rec<T: FElem>(ctx: &mut Ctx, t: &Target<T>, keys: &[usize], aux: usize, flips: usize, panic_too: bool, horizon: usize, devs: &mut Vec<(usize, Dev)>) {
        let (_, calls) = exec(ctx, t, keys, aux, Script::new(vec![], 0, Cont::Real, devs.clone(), horizon));
        let from = devs.last().map_or(0, |d| d.0 + 1);
        for k in from..calls.min(horizon) {
            if panic_too || devs.is_empty() {
                devs.push((k, Dev::Panic));
                exec(ctx, t, keys, aux, Script::new(vec![], 0, Cont::Real, devs.clone(), horizon));
                devs.pop();
            }
            if flips > 0 {
                devs.push((k, Dev::Flip));
                rec(ctx, t, keys, aux, flips - 1, panic_too, horizon, devs);
                devs.pop();
            }
        }
    }
    rec(ctx, t, keys, aux, flips, panic_too, horizon, &mut vec![])
}
