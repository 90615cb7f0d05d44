//! Sorting: elements with a key (ordered by) and a tag (identity), and the enumeration of inputs.
use crate::elem::PAD;
use crate::*;
use std::cmp::Ordering;

pub trait SElem: Ord + Sized + 'static {
    const NAME: &'static str;
    const ZST: bool = false;
    fn mk(key: usize, tag: usize) -> Self;
    fn key(&self) -> usize;
    fn tag(&self) -> usize;
}
macro_rules! by_key { ($($t:ty),*) => { $(
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.key() == o.key() } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.key().cmp(&o.key()) } }
)* } }

/// 8 bytes
#[derive(Clone, Copy)]
pub struct K(pub u32, pub u32);
impl SElem for K {
    const NAME: &'static str = "small";
    fn mk(k: usize, t: usize) -> K { K(k as u32, t as u32) }
    fn key(&self) -> usize { self.0 as usize }
    fn tag(&self) -> usize { self.1 as usize }
}
/// 48 bytes, with redundancy
pub struct KBig(u64, [u64; 4], u64);
impl SElem for KBig {
    const NAME: &'static str = "big";
    fn mk(k: usize, t: usize) -> KBig { KBig(k as u64, [t as u64; 4], !(k as u64)) }
    fn key(&self) -> usize { if self.2 == !self.0 { self.0 as usize } else { fail("a comparison or result sees a torn element") } }
    fn tag(&self) -> usize { if self.1 == [self.1[0]; 4] { self.1[0] as usize } else { usize::MAX } }
}
/// 1 byte (keys and tags below 16)
pub struct KByte(u8);
impl SElem for KByte {
    const NAME: &'static str = "1-byte";
    fn mk(k: usize, t: usize) -> KByte { KByte(((k & 15) << 4 | t & 15) as u8) }
    fn key(&self) -> usize { self.0 as usize >> 4 }
    fn tag(&self) -> usize { self.0 as usize & 15 }
}
/// 1056 bytes, with redundancy, over-aligned
#[repr(align(32))]
pub struct KVast(u64, [u64; 130], u64);
impl SElem for KVast {
    const NAME: &'static str = "vast";
    fn mk(k: usize, t: usize) -> KVast { KVast(k as u64, [t as u64; 130], !(k as u64)) }
    fn key(&self) -> usize { if self.2 == !self.0 { self.0 as usize } else { fail("a comparison or result sees a torn element") } }
    fn tag(&self) -> usize { if self.1 == [self.1[0]; 130] { self.1[0] as usize } else { usize::MAX } }
}
/// owned, with accounting
pub struct KTok(u16, elem::Tok);
impl SElem for KTok {
    const NAME: &'static str = "owned";
    fn mk(k: usize, t: usize) -> KTok { KTok(k as u16, elem::Elem::mk(t)) }
    fn key(&self) -> usize { self.0 as usize }
    fn tag(&self) -> usize { (self.1).0 as usize }
}
/// owned, on the heap
pub struct KHeap(Box<(u16, u16)>);
impl SElem for KHeap {
    const NAME: &'static str = "boxed";
    fn mk(k: usize, t: usize) -> KHeap { KHeap(Box::new((k as u16, t as u16))) }
    fn key(&self) -> usize { self.0 .0 as usize }
    fn tag(&self) -> usize { self.0 .1 as usize }
}
pub struct KZ;
impl SElem for KZ {
    const NAME: &'static str = "zero-sized";
    const ZST: bool = true;
    fn mk(_: usize, _: usize) -> KZ { KZ }
    fn key(&self) -> usize { 0 }
    fn tag(&self) -> usize { 0 }
}
by_key!(K, KBig, KByte, KVast, KTok, KHeap, KZ);

pub struct Sorter<T: 'static> {
    pub name: &'static str,
    pub stable: bool,
    pub desc: bool,
    pub f: fn(&mut [T]),
}
pub trait Family: 'static {
    fn sorters<T: SElem>() -> Vec<Sorter<T>>;
}

/// `mid` of `v` (behind PAD guards) holds exactly the elements of `keys`, tag = original position.
/// Returns the tags in order.
pub fn permuted<T: SElem>(mid: &[T], keys: &[usize]) -> Result<Vec<usize>, String> {
    let n = keys.len();
    let mut seen = vec![false; n];
    let mut tags = Vec::with_capacity(n);
    for x in mid {
        let t = x.tag();
        if t >= n || seen[t] || x.key() != keys[t] {
            return Err(format!("elements (key, tag) are {:?}", mid.iter().map(|x| (x.key(), x.tag())).collect::<Vec<_>>()));
        }
        seen[t] = true;
        tags.push(t);
    }
    Ok(tags)
}
pub fn with_guards<T: SElem>(keys: &[usize]) -> Vec<T> {
    let n = keys.len();
    let mut v: Vec<T> = Vec::with_capacity(n + 2 * PAD);
    // guards with keys in the middle, so that a stray comparison misleads
    let g = keys.get(n / 2).copied().unwrap_or(0);
    for i in 0..PAD { v.push(T::mk(g, n + i)); }
    for (i, &k) in keys.iter().enumerate() { v.push(T::mk(k, i)); }
    for i in 0..PAD { v.push(T::mk(g, n + PAD + i)); }
    v
}
pub fn guards_ok<T: SElem>(v: &[T], n: usize) -> bool {
    T::ZST || (0..PAD).all(|i| v[i].tag() == n + i && v[PAD + n + i].tag() == n + PAD + i)
}

pub fn check_sort<T: SElem>(ctx: &mut Ctx, s: &Sorter<T>, keys: &[usize], desc: &dyn Fn() -> String) {
    let n = keys.len();
    ctx.case(|| format!("{} of {} elements: {}", s.name, T::NAME, desc()));
    ctx.transitions += 1;
    let d = |m: String| format!("{} of {} elements {:?}: {}", s.name, T::NAME, keys, m);
    let mut v = with_guards::<T>(keys);
    if guarded_quiet(|| (s.f)(&mut v[PAD..PAD + n])).is_err() {
        let m = last_panic();
        std::mem::forget(v);
        fail(d(format!("panicked: {}", m)));
    }
    if !guards_ok(&v, n) { fail(d("changed an element outside the slice".into())); }
    let mid = &v[PAD..PAD + n];
    if !T::ZST {
        let tags = match permuted(mid, keys) { Ok(t) => t, Err(e) => { let e = d(e); std::mem::forget(v); fail(e) } };
        for w in mid.windows(2) {
            let (a, b) = if s.desc { (&w[1], &w[0]) } else { (&w[0], &w[1]) };
            if a.key() > b.key() { fail(d(format!("result has keys {:?}", mid.iter().map(|x| x.key()).collect::<Vec<_>>()))); }
            if s.stable && w[0].key() == w[1].key() && w[0].tag() > w[1].tag() { fail(d(format!("equal elements changed order: original positions {:?}", tags))); }
        }
        ctx.obs(&tags);
    } else {
        ctx.obs(&n);
    }
    ctx.nontrivial += (n > 1) as u64;
}
/// `guarded` for code under test
pub fn guarded_quiet<R>(f: impl FnOnce() -> R) -> Result<R, bool> {
    crate::ctx::guarded(f)
}

fn weak<T: SElem, F: Family>(us: &mut Vec<Unit>, n: usize, parts: usize) {
    for p in 0..parts {
        us.push(unit(format!("all weak orders of {} {} part {}/{}", n, T::NAME, p + 1, parts), move |ctx| {
            let ss = F::sorters::<T>();
            let skip_desc = n >= 7;
            gen::weak_orders_part(n, p, parts, &mut |keys| {
                ctx.states += 1;
                for s in &ss {
                    if s.desc && skip_desc { continue; }
                    elem::live_reset();
                    check_sort(ctx, s, keys, &|| format!("{:?}", keys));
                    if let Some((i, c)) = elem::live_bad(0, 0) { fail(format!("{} of {} elements {:?}: element {} is live {} times after everything was dropped", s.name, T::NAME, keys, i, c)); }
                }
            });
        }));
    }
}
/// Elements on both sides of an address at which the lower bits start again from zero.
fn across<T: SElem, F: Family>(us: &mut Vec<Unit>, n: usize) {
    us.push(unit(format!("across addresses, {} x {}", n, T::NAME), move |ctx| {
        let ss = F::sorters::<T>();
        for b in huge::BOUNDARIES { for k in 0..=n {
            gen::weak_orders_part(n, 0, 1, &mut |keys| {
                ctx.states += 1;
                for s in &ss {
                    let d = |m: String| format!("{} of {} elements {:?}, {} of them before address {:#x}: {}", s.name, T::NAME, keys, k, b, m);
                    ctx.case(|| d("start".into()));
                    ctx.transitions += 1;
                    huge::across_with::<T>(b, n, k, |i| T::mk(keys[i], i), |v| {
                        if guarded_quiet(|| (s.f)(v)).is_err() { fail(d(format!("panicked: {}", last_panic()))); }
                        let tags = match permuted(v, keys) { Ok(t) => t, Err(e) => fail(d(e)) };
                        for w in v.windows(2) {
                            let (x, y) = if s.desc { (&w[1], &w[0]) } else { (&w[0], &w[1]) };
                            if x.key() > y.key() || s.stable && w[0].key() == w[1].key() && w[0].tag() > w[1].tag() {
                                fail(d(format!("result is {:?}", v.iter().map(|x| (x.key(), x.tag())).collect::<Vec<_>>())));
                            }
                        }
                        ctx.obs(&tags);
                        ctx.nontrivial += 1;
                    });
                }
            });
        } }
    }));
}
fn dev<T: SElem, F: Family>(us: &mut Vec<Unit>, n: usize, d: usize) {
    us.push(unit(format!("{} deviations, {} x {}", d, n, T::NAME), move |ctx| {
        let ss = F::sorters::<T>();
        gen::deviations(n, d, &mut |name, keys| {
            ctx.states += 1;
            for s in &ss {
                if s.desc && n > 10 { continue; }
                check_sort(ctx, s, keys, &|| format!("{}: {:?}", name(), keys));
            }
        });
    }));
}
/// All sequences of two values, for the sorters that split (`unstable`) only.
fn two_valued<T: SElem, F: Family>(us: &mut Vec<Unit>, n: usize, parts: usize) {
    for p in 0..parts {
        us.push(unit(format!("two-valued {} {} part {}/{}", n, T::NAME, p + 1, parts), move |ctx| {
            let ss = F::sorters::<T>();
            let mut keys = vec![0; n];
            let total = 1u64 << n;
            let (a, b) = (total / parts as u64 * p as u64, total / parts as u64 * (p as u64 + 1));
            for m in a..b {
                for (i, k) in keys.iter_mut().enumerate() { *k = (m >> i & 1) as usize; }
                ctx.states += 1;
                for s in &ss {
                    if s.stable && n > 16 { continue; }
                    if s.desc { continue; }
                    check_sort(ctx, s, &keys, &|| format!("{:?}", keys));
                }
            }
        }));
    }
}
/// All sequences over three values at the positions of the pivot candidates and one more, on base patterns.
fn around_pivot<T: SElem, F: Family>(us: &mut Vec<Unit>, n: usize) {
    us.push(unit(format!("pivot candidates and two more, {} x {}", n, T::NAME), move |ctx| {
        let ss = F::sorters::<T>();
        let mut pos = vec![0, n / 2, n - 1];
        for extra in [1, n / 2 - 1, n / 2 + 1, n - 2] { if !pos.contains(&extra) { pos.push(extra); } }
        for (name, b) in gen::bases(n) {
            // ranks among the others: below, middle (twice), above
            let vals = [0, n / 2 + 1, n / 2 + 2, 3 * n];
            gen::sequences(pos.len().min(6), 4, &mut |c| {
                let mut keys: Vec<usize> = b.iter().map(|x| x + 1).collect();
                for (q, &x) in c.iter().enumerate() { keys[pos[q]] = vals[x]; }
                ctx.states += 1;
                for s in &ss {
                    if s.stable || s.desc { continue; }
                    check_sort(ctx, s, &keys, &|| format!("{} with {:?} at {:?}", name, c, pos));
                }
            });
        }
    }));
}

/// Quicksorts of n distinct keys, in which the pivot (the median of three) has each of the ranks in each of the places.
fn pivot_ranks<T: SElem, F: Family>(ctx: &mut Ctx, n: usize, ranks: &[usize]) {
    let ss = F::sorters::<T>();
    // (others than multiples modulo n take quadratic time)
    fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
    let m = (40503..).find(|m| gcd(*m, n) == 1).unwrap();
    let order: Vec<usize> = (0..n).map(|i| i * m % n).collect();
    // the partition goes on with the last element that is not above the median as the pivot: `tail` is one less than it, or any
    for &r in ranks { for place in 0..3 { for tail in [false, true] {
        if tail && (r < 2 || n < 6) { continue; }
        let mut keys: Vec<usize> = Vec::with_capacity(n);
        let mut rest = order.iter().copied().filter(|k| *k != 0 && *k != r && *k != n - 1 && !(tail && *k == r - 1));
        for i in 0..n {
            let at = if tail && i == n - 2 { 4 } else if i == 0 { 0 } else if i == n / 2 { 1 } else if i == n - 1 { 2 } else { 3 };
            keys.push(match (at, place) {
                (4, _) => r - 1,
                (3, _) => rest.next().unwrap(),
                (a, p) if a == p => r,
                (0, 1) | (1, 0) | (1, 2) => 0,
                _ => n - 1,
            });
        }
        ctx.states += 1;
        for s in &ss {
            if s.name.starts_with("quicksort") { check_sort(ctx, s, &keys, &|| format!("{} keys, the {}th least one at {} is the median of three{}", n, r, ["the front", "the middle", "the back"][place], if tail { ", followed by the next lower one in front of the back" } else { "" })); }
        }
    } } }
}

/// `small`: only bounded sizes, for the build with the lowered threshold.
pub fn units<F: Family>(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    for n in 0..=t.pick(5, 6, 7) {
        weak::<K, F>(&mut us, n, 1);
        weak::<KTok, F>(&mut us, n, 1);
        weak::<KBig, F>(&mut us, n, 1);
        weak::<KHeap, F>(&mut us, n, 1);
        weak::<KZ, F>(&mut us, n, 1);
        if n <= t.pick(4, 5, 6) {
            weak::<KVast, F>(&mut us, n, 1);
            weak::<KByte, F>(&mut us, n, 1);
        }
    }
    for n in t.pick(6..=6, 7..=8, 8..=9) {
        weak::<K, F>(&mut us, n, if n <= 7 { 2 } else { 16 });
    }
    for n in t.pick(vec![9, 12, 24, 25], (7..=40).chain([48, 49, 50, 51, 52, 64, 65, 100]).collect::<Vec<_>>(), (7..=80).chain([99, 100, 101, 127, 128, 129]).collect()) {
        dev::<K, F>(&mut us, n, 1);
    }
    for n in t.pick(vec![], vec![9, 10, 11, 12, 25, 26], vec![9, 10, 11, 12, 13, 14, 15, 16, 23, 24, 25, 26, 27, 28, 30, 32]) {
        dev::<K, F>(&mut us, n, 2);
    }
    for n in t.pick(vec![24, 25], vec![24, 25, 26, 30], vec![24, 25, 26, 30, 50, 60]) {
        dev::<KTok, F>(&mut us, n, 1);
        dev::<KHeap, F>(&mut us, n, 1);
        dev::<KBig, F>(&mut us, n, 1);
        dev::<KVast, F>(&mut us, n, 0);
        dev::<KZ, F>(&mut us, n, 0);
    }
    for n in t.pick(vec![], vec![25, 26, 27, 33], (25..=40).collect()) {
        around_pivot::<K, F>(&mut us, n);
    }
    for n in t.pick(9..=9, 9..=14, 9..=16) {
        two_valued::<K, F>(&mut us, n, 1);
    }
    if t == Tier::Thorough {
        two_valued::<K, F>(&mut us, 25, 64);
    }
    for n in 2..=t.pick(2, 4, 5) {
        across::<K, F>(&mut us, n);
        across::<KByte, F>(&mut us, n);
        across::<KBig, F>(&mut us, n);
    }
    // large inputs: base patterns only
    us.push(unit("base patterns of large sizes", move |ctx| {
        let ss = F::sorters::<K>();
        for n in t.pick(vec![100], vec![127, 128, 129, 200, 255, 256, 257, 300], vec![127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000]) {
            gen::deviations(n, 0, &mut |name, keys| {
                ctx.states += 1;
                for s in &ss { check_sort(ctx, s, keys, &|| format!("{} of {}", name(), n)); }
            });
        }
    }));
    for n in t.pick(vec![], vec![600, 1025, 2100], vec![600, 1025, 2100, 4100, 10_000]) {
        us.push(unit(format!("base patterns of {}", n), move |ctx| {
            let ss = F::sorters::<K>();
            for (name, keys) in gen::bases(n) {
                ctx.states += 1;
                for s in &ss {
                    if s.desc { continue; }
                    check_sort(ctx, s, &keys, &|| format!("{} of {}", name, n));
                }
            }
        }));
    }
    // very large: sorted but for one element, so that the insertion sorts have little to do
    for n in t.pick(vec![], vec![65537, 131_075], vec![32769, 65535, 65536, 65537, 70_000, 131_075, 262_147]) {
        for half in [false, true] {
            us.push(unit(format!("one element of {} elsewhere{}", n, if half { ", pairs of equal keys" } else { "" }), move |ctx| {
                let ss = F::sorters::<K>();
                let ps = if n < 70_000 { vec![0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, n - 2, n - 1] } else { vec![0, 1, 256, 32768, 65535, 65536, 65537, n - 2, n - 1] };
                for &i in ps.iter().filter(|&&i| i < n) { for &j in ps.iter().filter(|&&j| j < n) {
                    let mut keys: Vec<usize> = (0..n).map(|k| if half { k / 2 } else { k }).collect();
                    let x = keys.remove(i);
                    keys.insert(j, x);
                    let down: Vec<usize> = keys.iter().map(|&k| n - k).collect();
                    ctx.states += 1;
                    for s in &ss {
                        // (the quicksorts need quadratic time for some of these)
                        if s.name.starts_with("quicksort") { continue; }
                        check_sort(ctx, s, if s.desc { &down } else { &keys }, &|| format!("ascending {} with element {} moved to {}", n, i, j));
                    }
                } }
            }));
        }
    }
    for n in t.pick(vec![], vec![65537, 131_075], vec![32769, 65535, 65536, 65537, 70_000, 131_075, 262_147]) {
        us.push(unit(format!("quicksorts of {}", n), move |ctx| {
            // (others take quadratic time)
            for (name, m) in [("multiples of 40503", 40503), ("multiples of the golden section", n * 1000 / 1618)] {
                let keys: Vec<usize> = (0..n).map(|i| i * m % n).collect();
                ctx.states += 1;
                for s in &F::sorters::<K>() {
                    if s.name.starts_with("quicksort") { check_sort(ctx, s, &keys, &|| format!("{} modulo {}", name, n)); }
                }
            }
        }));
    }
    // every rank of the pivot, and so every way to split
    for n in t.pick(vec![], vec![25, 26, 60, 300, 1100], vec![25, 26, 27, 60, 61, 300, 301, 1100, 2100]) {
        us.push(unit(format!("quicksorts of {}, every rank of the pivot", n), move |ctx| pivot_ranks::<K, F>(ctx, n, &(1..n - 1).collect::<Vec<_>>())));
    }
    for n in t.pick(vec![], vec![70_000, 131_075], vec![65540, 70_000, 131_071, 131_075, 262_147]) {
        us.push(unit(format!("quicksorts of {}, splits at the limits of small integers", n), move |ctx| {
            let mut ranks = vec![1, 2, 3, n / 2];
            for k in [256usize, 4096, 32768, 65536, 131_072] { for d in 0..5 { ranks.push(k + d - 2); ranks.push((n + 1 + d).wrapping_sub(k + 2)); } }
            ranks.retain(|r| *r >= 1 && *r < n - 1);
            ranks.sort();
            ranks.dedup();
            pivot_ranks::<K, F>(ctx, n, &ranks);
        }));
    }
    fn large<T: SElem, F: Family>(us: &mut Vec<Unit>, n: usize) {
        us.push(unit(format!("one element of {} elsewhere, {}", n, T::NAME), move |ctx| {
            for (i, j) in [(n - 1, 0), (0, n - 1), (n - 1, 1), (n / 2, n - 1), (n - 2, n / 2), (1, 2)] {
                let mut keys: Vec<usize> = (0..n).collect();
                let x = keys.remove(i);
                keys.insert(j, x);
                let down: Vec<usize> = keys.iter().map(|&k| n - k).collect();
                ctx.states += 1;
                for s in &F::sorters::<T>() {
                    if s.name.starts_with("quicksort") && n > 5000 { continue; }
                    check_sort(ctx, s, if s.desc { &down } else { &keys }, &|| format!("ascending {} with element {} moved to {}", n, i, j));
                }
            }
        }));
    }
    for n in t.pick(vec![], vec![300, 1100, 4100], vec![300, 600, 1100, 2100, 4100, 10_000]) {
        large::<KBig, F>(&mut us, n);
        large::<KTok, F>(&mut us, n);
        large::<KHeap, F>(&mut us, n);
        large::<KVast, F>(&mut us, n);
    }
    for n in t.pick(vec![], vec![65537], vec![65535, 65536, 65537, 131_075]) {
        large::<KBig, F>(&mut us, n);
        large::<KVast, F>(&mut us, n);
    }
    // a recursive sort must not need stack in proportion to the length
    us.push(unit("base patterns on a small stack", move |ctx| {
        let ss = F::sorters::<K>();
        for n in t.pick(vec![], vec![10_000], vec![10_000, 20_000]) {
            for (name, keys) in gen::bases(n) {
                ctx.states += 1;
                for s in &ss {
                    if !s.name.starts_with("quicksort") { continue; }
                    check_sort_small_stack(ctx, s, &keys, &|| format!("{} of {}, with {} bytes of stack", name, n, SMALL_STACK));
                }
            }
        }
    }));
    us
}

const SMALL_STACK: usize = 256 * 1024;
fn check_sort_small_stack(ctx: &mut Ctx, s: &Sorter<K>, keys: &[usize], desc: &dyn Fn() -> String) {
    ctx.case(|| format!("{} of {} elements: {}", s.name, K::NAME, desc()));
    ctx.transitions += 1;
    let mut v: Vec<K> = keys.iter().enumerate().map(|(i, &k)| K::mk(k, i)).collect();
    let f = s.f;
    let r = std::thread::scope(|sc| {
        let v = &mut v[..];
        std::thread::Builder::new().stack_size(SMALL_STACK).spawn_scoped(sc, move || f(v)).unwrap().join()
    });
    if r.is_err() { fail(format!("{} of {}: panicked", s.name, desc())); }
    let tags = match permuted(&v, keys) { Ok(t) => t, Err(e) => fail(format!("{} of {}: {}", s.name, desc(), e)) };
    if v.windows(2).any(|w| w[0].key() > w[1].key()) { fail(format!("{} of {}: not sorted", s.name, desc())); }
    ctx.nontrivial += 1;
    ctx.obs(&tags);
}
