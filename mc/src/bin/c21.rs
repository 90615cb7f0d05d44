//! Index-based searches.
use indexing::algorithms::*;
use mc::searches::*;
use mc::*;
use std::cmp::Ordering;

struct Idx;
impl SFamily for Idx {
    fn lower<const W: usize>() -> Vec<Lower<W>> {
        vec![
            Lower { name: "lower_bound", whole: true, f: |v, _, _| lower_bound(v, &key()) },
            Lower { name: "lower_bound_raw_ptr", whole: true, f: |v, _, _| lower_bound_raw_ptr(v, &key()) },
        ]
    }
    fn binary<const W: usize>() -> Vec<Binary<W>> {
        vec![
            Binary { name: "binary_search", whole: true, f: |v, _, _| binary_search(v, &key()) },
            Binary { name: "binary_search_by", whole: true, f: |v, _, _| binary_search_by(v, ask) },
        ]
    }
}

/// Ordinary values of several types and sizes, searched for every key.
fn values<T: Ord + Clone>(ctx: &mut Ctx, name: &str, mk: fn(usize) -> T, n: usize) {
    // sorted sequences over the odd ranks 1, 3, 5..., with repetitions given by the bits of m
    for m in 0..1u32 << n.saturating_sub(1) {
        let mut rank = 1;
        let mut r = vec![];
        for i in 0..n {
            if i > 0 && m >> (i - 1) & 1 == 1 { rank += 2; }
            r.push(rank);
        }
        let v: Vec<T> = r.iter().map(|&x| mk(x)).collect();
        for k in 0..=rank + 1 {
            let d = |f: &str| format!("{} for {} in {} {:?}", f, k, name, r);
            ctx.case(|| d("searches"));
            ctx.transitions += 4;
            let key = mk(k);
            let lo = r.iter().filter(|&&x| x < k).count();
            let g = |f: &str, x: Result<usize, bool>| { if x != Ok(lo) { fail(format!("{} is {:?}", d(f), x)); } };
            g("lower_bound", guarded(|| lower_bound(&v, &key)));
            g("lower_bound_raw_ptr", guarded(|| lower_bound_raw_ptr(&v, &key)));
            for (f, x) in [("binary_search", guarded(|| binary_search(&v, &key))), ("binary_search_by", guarded(|| binary_search_by(&v, |x| x.cmp(&key))))] {
                let ok = match x { Ok(Ok(i)) => i < n && r[i] == k, Ok(Err(i)) => i == lo && !r.contains(&k), Err(_) => false };
                if !ok { fail(format!("{} is {:?}", d(f), x)); }
            }
            ctx.obs(&(n, m, k, lo));
            ctx.states += 1;
            ctx.nontrivial += 1;
        }
    }
}

/// A zero-sized type whose comparisons give a fixed answer.
macro_rules! zst { ($n:ident, $o:expr) => {
    #[derive(Clone)] struct $n;
    impl PartialEq for $n { fn eq(&self, _: &Self) -> bool { $o == Ordering::Equal } }
    impl Eq for $n {}
    impl PartialOrd for $n { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { Some($o) } }
    impl Ord for $n { fn cmp(&self, _: &Self) -> Ordering { $o } }
} }
zst!(ZL, Ordering::Less);
zst!(ZE, Ordering::Equal);
zst!(ZG, Ordering::Greater);

fn zero<T: Ord>(ctx: &mut Ctx, n: usize, key: T, o: Ordering) {
    // a slice of zero-sized elements may have any length
    let v: &[T] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
    let d = move |f: &str, r: &dyn std::fmt::Debug| format!("{} in {} zero-sized elements that are all {:?}: {:?}", f, n, o, r);
    ctx.case(|| d("searches", &()));
    ctx.transitions += 4;
    let p = |f: &str| -> ! { fail(d(f, &last_panic())) };
    let l = guarded(|| lower_bound(v, &key)).unwrap_or_else(|_| p("lower_bound"));
    let q = guarded(|| lower_bound_raw_ptr(v, &key)).unwrap_or_else(|_| p("lower_bound_raw_ptr"));
    let b = guarded(|| binary_search(v, &key)).unwrap_or_else(|_| p("binary_search"));
    let c = guarded(|| binary_search_by(v, |_| o)).unwrap_or_else(|_| p("binary_search_by"));
    // equal values only, if comparisons are consistent: nothing is less
    if o == Ordering::Equal {
        ctx.ck(l == 0, || d("lower_bound", &l));
        ctx.ck(q == 0, || d("lower_bound_raw_ptr", &q));
    }
    ctx.ck(l <= n, || d("lower_bound", &l));
    ctx.ck(q <= n, || d("lower_bound_raw_ptr", &q));
    for (f, r) in [("binary_search", b), ("binary_search_by", c)] {
        let ok = match (o, r) {
            (Ordering::Equal, Ok(i)) => i < n,
            (Ordering::Equal, Err(i)) => n == 0 && i == 0,
            (Ordering::Less, r) => r == Err(n),
            (Ordering::Greater, r) => r == Err(0),
        };
        ctx.ck(ok, || d(f, &r));
    }
    ctx.obs(&(n, l));
    ctx.states += 1;
    ctx.nontrivial += (n > 1) as u64;
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = searches::units::<Idx>(t);
    us.push(unit("ordinary values", move |ctx| {
        for n in 0..=t.pick(5, 9, 12) {
            values::<u8>(ctx, "u8", |x| x as u8, n);
            values::<i32>(ctx, "i32", |x| x as i32 - 4, n);
            values::<(u8, u16)>(ctx, "(u8, u16)", |x| ((x / 4) as u8, (x % 4) as u16), n);
            values::<u64>(ctx, "u64", |x| (x as u64) << 58, n);
            values::<[u8; 3]>(ctx, "[u8; 3]", |x| [0, x as u8, 0], n);
            values::<String>(ctx, "String", |x| format!("{:03}", x), n);
            values::<[u64; 5]>(ctx, "[u64; 5]", |x| [0, 0, 0, 0, x as u64], n);
        }
    }));
    us.push(unit("zero-sized", move |ctx| {
        for n in (0..=t.pick(20, 300, 2000)).chain(closures::big_lengths(t)) {
            zero(ctx, n, ZL, Ordering::Less);
            zero(ctx, n, ZE, Ordering::Equal);
            zero(ctx, n, ZG, Ordering::Greater);
        }
    }));
    us
}

fn main() {
    harness_main(units)
}
