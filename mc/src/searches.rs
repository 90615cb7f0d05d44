//! Searching: an oracle answers how each position compares with the key.
use crate::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

thread_local! {
    static BASE: Cell<(usize, usize)> = Cell::new((0, 0));
    /// The elements do not carry their position (there are too many of them).
    static BLANK: Cell<bool> = Cell::new(false);
    static ORACLE: RefCell<Option<Box<dyn FnMut(usize) -> Ordering>>> = RefCell::new(None);
}
/// The key, for searches that take one.
pub const KEY: u32 = u32::MAX;

/// An element that knows its position; comparing it with the key asks the oracle.
#[derive(Clone, Copy)]
pub struct Probe<const W: usize>(pub u32, pub [u32; W]);

pub fn ask<const W: usize>(p: &Probe<W>) -> Ordering {
    let (b, n) = BASE.with(|x| x.get());
    let o = (p as *const _ as usize).wrapping_sub(b) / std::mem::size_of::<Probe<W>>();
    if o >= n || (p.0 as usize != o && !BLANK.with(|b| b.get())) { fail(format!("an element outside the slice was examined (offset {} of {})", o as isize, n)); }
    ORACLE.with(|x| (x.borrow_mut().as_mut().unwrap())(o))
}
impl<const W: usize> PartialEq for Probe<W> { fn eq(&self, o: &Self) -> bool { self.partial_cmp(o) == Some(Ordering::Equal) } }
impl<const W: usize> Eq for Probe<W> {}
impl<const W: usize> PartialOrd for Probe<W> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<const W: usize> Ord for Probe<W> {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.0 == KEY, o.0 == KEY) {
            (true, true) => Ordering::Equal,
            (false, true) => ask(self),
            (true, false) => ask(o).reverse(),
            (false, false) => self.0.cmp(&o.0),
        }
    }
}
pub fn key<const W: usize>() -> Probe<W> { Probe(KEY, [0; W]) }

/// `f(v, a, b)`: search `v[a..b]`, with an absolute result. `whole`: only searches whole slices.
pub struct Lower<const W: usize> { pub name: &'static str, pub whole: bool, pub f: fn(&[Probe<W>], usize, usize) -> usize }
pub struct Binary<const W: usize> { pub name: &'static str, pub whole: bool, pub f: fn(&[Probe<W>], usize, usize) -> Result<usize, usize> }

pub trait SFamily: 'static {
    fn lower<const W: usize>() -> Vec<Lower<W>>;
    fn binary<const W: usize>() -> Vec<Binary<W>>;
}

struct Buf<const W: usize>(Vec<Probe<W>>, usize);
impl<const W: usize> Buf<W> {
    fn new(n: usize) -> Self {
        use elem::PAD;
        // guards carry impossible positions
        let mut v: Vec<Probe<W>> = (0..PAD).map(|_| Probe(KEY - 1, [7; W])).collect();
        v.extend((0..n).map(|i| Probe(i as u32, [i as u32; W])));
        v.extend((0..PAD).map(|_| Probe(KEY - 1, [7; W])));
        BASE.with(|b| b.set((v[PAD..].as_ptr() as usize, n)));
        Buf(v, n)
    }
    fn s(&self) -> &[Probe<W>] { &self.0[elem::PAD..elem::PAD + self.1] }
}
fn with<R>(o: impl FnMut(usize) -> Ordering + 'static, f: impl FnOnce() -> R) -> R {
    ORACLE.with(|x| *x.borrow_mut() = Some(Box::new(o)));
    f()
}
fn run_guarded<R>(d: &dyn Fn() -> String, f: impl FnOnce() -> R) -> R {
    match guarded(f) { Ok(r) => r, Err(_) => fail(format!("{}: panicked: {}", d(), last_panic())) }
}

/// `l` elements less than the key, `e` equal, `g` greater, in `[a..]` of `n`.
fn sorted<const W: usize, F: SFamily>(ctx: &mut Ctx, b: &[Probe<W>], a: usize, l: usize, e: usize, g: usize, lows: &[Lower<W>], bins: &[Binary<W>]) {
    let (n, end) = (b.len(), a + l + e + g);
    let o = move |i: usize| {
        if i < a || i >= end { fail(format!("element {} was examined in a search of {}..{}", i, a, end)); }
        if i < a + l { Ordering::Less } else if i < a + l + e { Ordering::Equal } else { Ordering::Greater }
    };
    for s in lows {
        if s.whole && (a != 0 || end != n) { continue; }
        let d = || format!("{} on {}..{} of {}: {} less, {} equal, {} greater", s.name, a, end, n, l, e, g);
        ctx.case(&d);
        ctx.transitions += 1;
        let r = with(o, || run_guarded(&d, || (s.f)(b, a, end)));
        if r != a + l { fail(format!("{}: result is {}", d(), r)); }
    }
    for s in bins {
        if s.whole && (a != 0 || end != n) { continue; }
        let d = || format!("{} on {}..{} of {}: {} less, {} equal, {} greater", s.name, a, end, n, l, e, g);
        ctx.case(&d);
        ctx.transitions += 1;
        let r = with(o, || run_guarded(&d, || (s.f)(b, a, end)));
        let ok = match r {
            Ok(i) => i >= a + l && i < a + l + e,
            Err(i) => e == 0 && i == a + l,
        };
        if !ok { fail(format!("{}: result is {:?}", d(), r)); }
    }
    ctx.obs(&(a, l, e, g));
    ctx.states += 1;
    ctx.nontrivial += (end > a + 1) as u64;
}

/// Every function from examined positions to answers, chosen as the search examines them.
fn arbitrary<const W: usize, F: SFamily>(ctx: &mut Ctx, n: usize, subs: bool) {
    use std::rc::Rc;
    let b = Buf::<W>::new(n);
    let mut ranges = vec![(0, n)];
    if subs { for a in 0..=n { for z in a..=n { if (a, z) != (0, n) { ranges.push((a, z)); } } } }
    // both kinds as one: None = lower
    enum S<const W: usize> { L(Lower<W>), B(Binary<W>) }
    let all: Vec<S<W>> = F::lower::<W>().into_iter().map(S::L).chain(F::binary::<W>().into_iter().map(S::B)).collect();
    for s in &all {
        let (name, whole, opts) = match s { S::L(x) => (x.name, x.whole, 2), S::B(x) => (x.name, x.whole, 3) };
        for &(a, z) in &ranges {
            if whole && (a, z) != (0, n) { continue; }
            // odometer over answers, in the order in which positions are first examined
            let mut ch: Vec<usize> = vec![];
            loop {
                let asked: Rc<RefCell<Vec<(usize, Ordering)>>> = Rc::default();
                let (aa, cc) = (asked.clone(), ch.clone());
                let d = || format!("{} on {}..{} of {} with answers {:?}", name, a, z, n, asked.borrow());
                ctx.case(|| format!("{} on {}..{} of {} with choices {:?} (0 less, 1 greater, 2 equal)", name, a, z, n, ch));
                ctx.transitions += 1;
                let o = move |i: usize| {
                    if i < a || i >= z { fail(format!("element {} was examined in a search of {}..{}", i, a, z)); }
                    let mut k = aa.borrow_mut();
                    if let Some(x) = k.iter().find(|x| x.0 == i) { return x.1; }
                    if k.len() > 2 * n + 10 { fail("does not stop"); }
                    let c = cc.get(k.len()).copied().unwrap_or(0);
                    let r = [Ordering::Less, Ordering::Greater, Ordering::Equal][c];
                    k.push((i, r));
                    r
                };
                let r = with(o, || run_guarded(&d, || match s {
                    S::L(x) => Err((x.f)(b.s(), a, z)),
                    S::B(x) => (x.f)(b.s(), a, z),
                }));
                let k = asked.borrow();
                let ans = |i: usize| k.iter().find(|x| x.0 == i).map(|x| x.1);
                let ok = match r {
                    Ok(i) => i >= a && i < z && ans(i) == Some(Ordering::Equal),
                    Err(i) => i >= a && i <= z
                        && (i == a || ans(i - 1).map_or(true, |x| x == Ordering::Less))
                        && (i == z || ans(i).map_or(true, |x| x != Ordering::Less)),
                };
                if !ok { let m = format!("{}: result is {:?}", d(), r); fail(m) }
                ctx.obs(&(a, z, r));
                ctx.states += 1;
                ctx.nontrivial += (k.len() > 1) as u64;
                // next
                let len = k.len();
                drop(k);
                ch.resize(len, 0);
                while let Some(&c) = ch.last() {
                    if c + 1 < opts { *ch.last_mut().unwrap() += 1; break; }
                    ch.pop();
                }
                if ch.is_empty() { break; }
            }
        }
    }
}

/// Slices across an address at which the lower bits start again from zero.
fn across<const W: usize, F: SFamily>(ctx: &mut Ctx, n: usize) {
    let (lows, bins) = (F::lower::<W>(), F::binary::<W>());
    for b in huge::BOUNDARIES { for k in 0..=n {
        huge::across_with::<Probe<W>>(b, n, k, |i| Probe(i as u32, [i as u32; W]), |v| {
            BASE.with(|x| x.set((v.as_ptr() as usize, n)));
            for a in 0..=n { for z in a..=n { for l in 0..=z - a { for e in 0..=z - a - l {
                sorted::<W, F>(ctx, v, a, l, e, z - a - l - e, &lows, &bins);
            } } } }
        });
    } }
}

pub fn units<F: SFamily>(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    for lo in (0..t.pick(24, 104, 208)).step_by(8) {
        us.push(unit(format!("sorted, lengths {}..{}", lo, lo + 8), move |ctx| {
            let (ls, bs) = (F::lower::<0>(), F::binary::<0>());
            for n in lo..lo + 8 {
                let b = Buf::<0>::new(n);
                for l in 0..=n { for e in 0..=n - l { sorted::<0, F>(ctx, b.s(), 0, l, e, n - l - e, &ls, &bs); } }
            }
        }));
    }
    us.push(unit("sorted, large elements", move |ctx| {
        let (ls, bs) = (F::lower::<11>(), F::binary::<11>());
        for n in 0..t.pick(10, 40, 60) {
            let b = Buf::<11>::new(n);
            for l in 0..=n { for e in 0..=n - l { sorted::<11, F>(ctx, b.s(), 0, l, e, n - l - e, &ls, &bs); } }
        }
    }));
    for n in 0..=t.pick(6, 14, 20) {
        us.push(unit(format!("sorted sub-ranges of {}", n), move |ctx| {
            let (mut ls, mut bs) = (F::lower::<0>(), F::binary::<0>());
            ls.retain(|x| !x.whole);
            bs.retain(|x| !x.whole);
            let b = Buf::<0>::new(n);
            for a in 0..=n { for z in a..=n { for l in 0..=z - a { for e in 0..=z - a - l {
                sorted::<0, F>(ctx, b.s(), a, l, e, z - a - l - e, &ls, &bs);
            } } } }
        }));
    }
    for n in t.pick(vec![257], vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537], vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]) {
        us.push(unit(format!("sorted, length {}", n), move |ctx| {
            let (ls, bs) = (F::lower::<0>(), F::binary::<0>());
            let b = Buf::<0>::new(n);
            let step = if n > 5000 { n / 2000 } else { 1 };
            for l in (0..=n).step_by(step).chain([1, 2, n - 1, n, n / 2 - 1, n / 2, n / 2 + 1]) { for e in [0, 1, 2, 3, n / 4, n / 2, n] {
                if l + e <= n { sorted::<0, F>(ctx, b.s(), 0, l, e, n - l - e, &ls, &bs); }
            } }
        }));
    }
    us.push(unit("sorted, across addresses", move |ctx| {
        for n in 0..=t.pick(3, 8, 12) {
            across::<0, F>(ctx, n);
            across::<3, F>(ctx, n);
            across::<11, F>(ctx, n);
        }
    }));
    us.push(unit("sorted, address-space sized", move |ctx| {
        let (ls, bs) = (F::lower::<0>(), F::binary::<0>());
        for n in huge::LENGTHS {
            huge::with::<Probe<0>>(n, |s| {
                BASE.with(|b| b.set((s.as_ptr() as usize, n)));
                BLANK.with(|b| b.set(true));
                let ps = huge::places(n);
                // the last of the searches are in sub-ranges
                for &l in &ps { for &z in ps.iter().filter(|z| **z >= l) {
                    sorted::<0, F>(ctx, s, 0, l, z - l, n - z, &ls, &bs);
                    if z > l { sorted::<0, F>(ctx, s, 0, l, 1, n - l - 1, &ls, &bs); }
                } }
                for &a in ps.iter().filter(|a| **a > 60_000).step_by(3) { for &z in ps.iter().filter(|z| **z >= a) {
                    for (l, e) in [(0, 0), (0, z - a), (z - a, 0), ((z - a) / 2, (z - a) / 3)] {
                        sorted::<0, F>(ctx, s, a, l, e, z - a - l - e, &ls, &bs);
                    }
                } }
                BLANK.with(|b| b.set(false));
            });
        }
    }));
    for n in (0..=t.pick(16, 80, 130)).step_by(1) {
        us.push(unit(format!("arbitrary answers, length {}", n), move |ctx| arbitrary::<0, F>(ctx, n, n <= t.pick(5, 14, 22))));
    }
    for n in t.pick(vec![], vec![127, 128, 129, 255, 256, 257], vec![131, 200, 254, 255, 256, 257, 511, 512, 513, 1000]) {
        us.push(unit(format!("arbitrary answers, length {}", n), move |ctx| arbitrary::<2, F>(ctx, n, false)));
    }
    us
}
