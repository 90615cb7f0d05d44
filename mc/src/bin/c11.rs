//! Scans: every start, every range, every assignment of answers to elements.
use indexing::container_traits::*;
use indexing::{Container, Range};
use mc::elem::*;
use mc::store::*;
use mc::*;

struct Scans<'a> { ctx: &'a mut Ctx, masks: &'a [u128] }

/// What a scan should do, given the elements in the order it examines them.
fn accepted(order: impl Iterator<Item = usize>, mask: u128) -> (usize, Vec<usize>) {
    let mut called = vec![];
    let mut k = 0;
    for i in order {
        called.push(i);
        if mask >> (i % 128) & 1 == 0 { break; }
        k += 1;
    }
    (k, called)
}

impl<T: Elem> Shared<T> for Scans<'_> {
    fn visit<'id, A, M>(&mut self, name: &'static str, c: &Container<'id, A, M>, base: *const T, n: usize)
    where
        A: Contiguous<Item = T> + GetUnchecked,
    {
        let ctx = &mut *self.ctx;
        for &mask in self.masks {
            let mut called: Vec<usize> = vec![];
            let mut judge = |ctx: &mut Ctx, what: &dyn Fn() -> String, got: &[(usize, usize)], want: &[(usize, usize)], called: &mut Vec<usize>, want_called: &[usize]| {
                ctx.transitions += 1;
                let d = |m: String| format!("{} of {} x {}: {} with answers {:b} (first element last): {}", name, n, T::NAME, what(), mask, m);
                if got != want { fail(d(format!("gave {:?} instead of {:?}", got, want))); }
                if called != want_called { fail(d(format!("asked about {:?} instead of {:?}", called, want_called))); }
                ctx.obs(&(got, want_called.len()));
                ctx.nontrivial += (want_called.len() > 1) as u64;
                called.clear();
            };
            let idx = |x: &T| -> usize {
                if T::ZST { return usize::MAX; }
                match off(base, x as *const T) { Some(i) if i >= 0 && (i as usize) < n => i as usize, o => fail(format!("{} of {} x {}: the predicate was given the element at offset {:?}", name, n, T::NAME, o)) }
            };
            for i in 0..n {
                let Ok(x) = c.vet(i) else { fail(format!("vet({}) of {} refused", i, n)) };
                ctx.case(|| format!("{} of {} x {}: scan_from({}), answers {:b}", name, n, T::NAME, i, mask));
                let (k, wc) = accepted(i + 1..n, mask);
                // zero-sized elements are told apart by counting
                let mut at = i + 1;
                let r = c.scan_from(x, |e| {
                    let j = if T::ZST { at } else { idx(e) };
                    at += 1;
                    called.push(j);
                    mask >> (j % 128) & 1 == 1
                });
                judge(ctx, &|| format!("scan_from({})", i), &[(r.start(), r.end())], &[(i, i + 1 + k)], &mut called, &wc);
                ctx.case(|| format!("{} of {} x {}: scan_from_rev({}), answers {:b}", name, n, T::NAME, i, mask));
                let (k, wc) = accepted((0..i).rev(), mask);
                let mut at = i;
                let r = c.scan_from_rev(x, |e| {
                    let j = if T::ZST { at.wrapping_sub(1) } else { idx(e) };
                    at = at.wrapping_sub(1);
                    called.push(j);
                    mask >> (j % 128) & 1 == 1
                });
                judge(ctx, &|| format!("scan_from_rev({})", i), &[(r.start(), r.end())], &[(i - k, i + 1)], &mut called, &wc);
            }
            for a in 0..=n {
                for b in a..=n {
                    let Ok(r) = c.vet_range(a..b) else { fail(format!("vet_range({}..{}) of {} refused", a, b, n)) };
                    let (k, wc) = accepted(a..b, mask);
                    ctx.case(|| format!("{} of {} x {}: scan_range({}..{}), answers {:b}", name, n, T::NAME, a, b, mask));
                    let mut at = a;
                    let (p, q) = c.scan_range(r, |e| {
                        let j = if T::ZST { at } else { idx(e) };
                        at += 1;
                        called.push(j);
                        mask >> (j % 128) & 1 == 1
                    });
                    let show = |p: Range<'id>| (p.start(), p.end());
                    judge(ctx, &|| format!("scan_range({}..{})", a, b), &[show(p), show(q)], &[(a, a + k), (a + k, b)], &mut called, &wc);
                    if let Ok(r) = r.nonempty() {
                        let mut at = a;
                        let (p, q) = c.scan_range(r, |e| {
                            let j = if T::ZST { at } else { idx(e) };
                            at += 1;
                            called.push(j);
                            mask >> (j % 128) & 1 == 1
                        });
                        judge(ctx, &|| format!("scan_range({}..{}) (marked)", a, b), &[show(p), show(q)], &[(a, a + k), (a + k, b)], &mut called, &wc);
                    }
                }
            }
        }
    }
}

fn typed<T: Elem>(us: &mut Vec<Unit>, t: Tier, max: usize) {
    for n in 0..=max {
        us.push(unit(format!("answers {} n={}", T::NAME, n), move |ctx| {
            let masks: Vec<u128> = (0..1u128 << n).collect();
            each_shared::<T, _>(n, &mut Scans { ctx, masks: &masks });
            ctx.states += masks.len() as u64;
        }));
    }
    us.push(unit(format!("long {}", T::NAME), move |ctx| {
        for n in t.pick(vec![20], vec![15, 16, 17, 31, 32, 33], vec![20, 31, 32, 33, 63, 64, 65, 100, 127]) {
            // refusals at every single place, and pairs of places
            let all = (1u128 << n) - 1;
            let mut masks: Vec<u128> = vec![all, 0];
            for i in 0..n {
                masks.push(all & !(1 << i));
                if t == Tier::Thorough { for j in i + 1..n { masks.push(all & !(1 << i) & !(1 << j)); } }
            }
            let f = |ctx: &mut Ctx| {
                let mut s = Scans { ctx, masks: &masks };
                let g = Guarded::<T>::new(n);
                let base = g.mid().as_ptr();
                indexing::scope(g.mid(), |c| Shared::<T>::visit(&mut s, "&[T]", &c, base, n));
            };
            f(ctx);
            ctx.states += masks.len() as u64;
        }
    }));
}

/// The scans that start from a pointer or go over a pointer range.
#[cfg(feature = "ptr")]
fn pointers<T: Elem>(us: &mut Vec<Unit>, max: usize) {
    use indexing::pointer::*;
    use indexing::proof::Provable;
    fn go<'id, T: Elem, A: Contiguous<Item = T>>(ctx: &mut Ctx, name: &str, c: &Container<'id, A>, base: *const T, n: usize, mask: u128) {
        let all: Vec<PIndex<'id, T, _>> = {
            let mut v: Vec<_> = c.pointer_range().into_iter().map(|p| p.no_proof()).collect();
            v.push(c.pointer_range().past_the_end());
            v
        };
        let show = |r: (*const T, usize)| match off(base, r.0) { Some(o) if o >= 0 => (o as usize, o as usize + r.1), _ => (usize::MAX, r.1) };
        let sp = |r: PRange<'id, T>| show((r.first().ptr(), r.len()));
        let judge = |ctx: &mut Ctx, what: String, got: Vec<(usize, usize)>, want: Vec<(usize, usize)>, called: &[isize], wc: &[usize]| {
            ctx.transitions += 1;
            let d = |m: String| format!("{} of {} x {}: {} with answers {:b} (first element last): {}", name, n, T::NAME, what, mask, m);
            if got != want { fail(d(format!("gave {:?} instead of {:?}", got, want))); }
            if called.iter().map(|x| *x as usize).ne(wc.iter().copied()) { fail(d(format!("asked about {:?} instead of {:?}", called, wc))); }
            ctx.obs(&(&got, wc.len()));
            ctx.nontrivial += (wc.len() > 1) as u64;
        };
        macro_rules! asked { ($called:ident) => { |e: &T| {
            let j = off(base, e as *const T).unwrap_or(-1);
            $called.push(j);
            j >= 0 && (j as usize) < n && mask >> (j % 128) & 1 == 1
        } } }
        for (i, &p) in all.iter().enumerate() {
            ctx.case(|| format!("{} of {} x {}: scan_tail_({}), answers {:b}", name, n, T::NAME, i, mask));
            let (k, wc) = accepted((0..i).rev(), mask);
            let mut called = vec![];
            let r = c.scan_tail_(p, asked!(called));
            judge(ctx, format!("scan_tail_({})", i), vec![sp(r.no_proof())], vec![(i - k, n.min(i + 1))], &called, &wc);
            for (j, &q) in all.iter().enumerate().skip(i) {
                ctx.case(|| format!("{} of {} x {}: scans of {}..{}, answers {:b}", name, n, T::NAME, i, j, mask));
                let r = match c.nonempty_range(p, q) { Ok(r) => r.no_proof(), Err(_) if i == j => c.scan_pointer_range(c.pointer_range_of(p..), |_| false).0, Err(_) => fail(format!("nonempty_range({}, {}) of {} refused", i, j, n)) };
                let mut called = vec![];
                let (k, wc) = accepted(i..j, mask);
                let (x, y) = c.scan_pointer_range(r, asked!(called));
                judge(ctx, format!("scan_pointer_range({}..{})", i, j), vec![sp(x), sp(y)], vec![(i, i + k), (i + k, j)], &called, &wc);
                let mut called = vec![];
                let (k, wc) = accepted((i..j).rev(), mask);
                let (x, y) = c.scan_pointer_range_rev(r, asked!(called));
                judge(ctx, format!("scan_pointer_range_rev({}..{})", i, j), vec![sp(x), sp(y)], vec![(i, j - k), (j - k, j)], &called, &wc);
            }
        }
    }
    for n in 0..=max {
        us.push(unit(format!("pointer scans {} n={}", T::NAME, n), move |ctx| {
            for mask in 0..1u128 << n {
                ctx.states += 1;
                let mut g = Guarded::<T>::new(n);
                let base = g.mid().as_ptr();
                indexing::scope(g.mid(), |c| go(ctx, "&[T]", &c, base, n, mask));
                indexing::scope(g.mid_mut(), |c| go(ctx, "&mut [T]", &c, base, n, mask));
                #[cfg(feature = "std")]
                if mc::vecs() {
                    let mut v: Vec<T> = (0..n).map(T::mk).collect();
                    v.reserve(3);
                    let base = v.as_ptr();
                    indexing::scope(&mut v, |c| go(ctx, "&mut Vec", &c, base, n, mask));
                }
            }
        }));
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    typed::<u32>(&mut us, t, t.pick(4, 9, 12));
    typed::<u8>(&mut us, t, t.pick(3, 7, 9));
    typed::<B3>(&mut us, t, t.pick(3, 7, 9));
    typed::<Big>(&mut us, t, t.pick(3, 7, 9));
    typed::<Vast>(&mut us, t, t.pick(3, 5, 7));
    typed::<()>(&mut us, t, t.pick(3, 8, 10));
    typed::<Heap>(&mut us, t, t.pick(3, 7, 9));
    #[cfg(feature = "ptr")]
    {
        pointers::<u32>(&mut us, t.pick(4, 9, 12));
        pointers::<B3>(&mut us, t.pick(3, 7, 9));
        pointers::<Heap>(&mut us, t.pick(3, 7, 9));
        pointers::<Vast>(&mut us, t.pick(3, 4, 6));
    }
    // runs across byte and word boundaries: all elements accepted up to k
    for n in t.pick(vec![255usize, 256, 257, 1000, 65535, 65536, 65537], vec![255, 256, 257, 1000, 65535, 65536, 65537, 131_075, 16_777_219], vec![255, 256, 257, 1000, 65535, 65536, 65537, 131_075, 262_147, 1 << 20, 16_777_219, 33_554_435]) {
        us.push(unit(format!("very long runs, {}", n), move |ctx| {
            let data: Vec<u8> = vec![0; n];
            let mut ks: Vec<usize> = vec![0, 1, 2, 254, 255, 256, 257, 32767, 32768, 32769, n / 2, 65534, 65535, 65536, 65537, 100_000, 131_071, 131_072, 131_073, n - 2, n - 1, n];
            let mut starts = gen::points(n);
            if n > 1 << 20 { starts = vec![0, 1, n / 2, n - 1]; ks.retain(|k| *k > 65535); }
            ks.retain(|k| *k <= n);
            indexing::scope(&data[..], |c| {
                for &s in &starts {
                    for &k in &ks {
                        ctx.case(|| format!("{} x u8: accepting {} from {}", n, k, s));
                        let mut m = 0;
                        let mut f = |_: &u8| { m += 1; m <= k };
                        if let Ok(i) = c.vet(s) {
                            let r = c.scan_from(i, &mut f);
                            let want = (s, s + 1 + k.min(n - s - 1));
                            ctx.ck((r.start(), r.end()) == want, || format!("{} x u8: scan_from({}) accepting {} gives {}..{}", n, s, k, r.start(), r.end()));
                            m = 0;
                            let mut f = |_: &u8| { m += 1; m <= k };
                            let r = c.scan_from_rev(i, &mut f);
                            let want = (s - k.min(s), s + 1);
                            ctx.ck((r.start(), r.end()) == want, || format!("{} x u8: scan_from_rev({}) accepting {} gives {}..{}", n, s, k, r.start(), r.end()));
                        }
                        #[cfg(feature = "ptr")]
                        {
                            use indexing::proof::Provable;
                            let p = if s < n { c.pointer_range().into_iter().nth(s).unwrap_or_else(|| fail(format!("no pointer {} of {}", s, n))).no_proof() } else { c.pointer_range().past_the_end() };
                            let base = data.as_ptr();
                            let sp = |r: indexing::pointer::PRange<u8>| { let f = r.first().ptr() as usize - base as usize; (f, f + r.len()) };
                            let mut m = 0;
                            let r = c.scan_tail_(p, |_| { m += 1; m <= k });
                            ctx.ck(sp(r.no_proof()) == (s - k.min(s), n.min(s + 1)) && m == (k + 1).min(s), || format!("{} x u8: scan_tail_({}) accepting {} gives {:?}, asking {} times", n, s, k, sp(r.no_proof()), m));
                            let rest = c.pointer_range_of(p..);
                            m = 0;
                            let (x, y) = c.scan_pointer_range(rest, |_| { m += 1; m <= k });
                            let l = n - s;
                            ctx.ck((sp(x), sp(y)) == ((s, s + k.min(l)), (s + k.min(l), n)) && m == (k + 1).min(l), || format!("{} x u8: scan_pointer_range({}..) accepting {} gives {:?} and {:?}, asking {} times", n, s, k, sp(x), sp(y), m));
                            m = 0;
                            let (x, y) = c.scan_pointer_range_rev(rest, |_| { m += 1; m <= k });
                            ctx.ck((sp(x), sp(y)) == ((s, n - k.min(l)), (n - k.min(l), n)) && m == (k + 1).min(l), || format!("{} x u8: scan_pointer_range_rev({}..) accepting {} gives {:?} and {:?}, asking {} times", n, s, k, sp(x), sp(y), m));
                            ctx.transitions += 3;
                        }
                        let r = c.vet_range(s..n).ok().unwrap();
                        let mut m = 0;
                        let (p, q) = c.scan_range(r, |_| { m += 1; m <= k });
                        let mid = s + k.min(n - s);
                        ctx.ck((p.start(), p.end(), q.start(), q.end()) == (s, mid, mid, n), || format!("{} x u8: scan_range({}..) accepting {} gives {:?} {:?}", n, s, k, p, q));
                        ctx.transitions += 3;
                        ctx.nontrivial += 1;
                        ctx.obs(&(s, k));
                    }
                }
            });
            ctx.states += 1;
        }));
    }
    us.push(unit("far places", move |ctx| {
        fn go<T: Elem + huge::Zeroable>(ctx: &mut Ctx, n: usize) {
            let ps = huge::places(n);
            huge::with::<T>(n, |x| {
                let base = x.as_ptr();
                indexing::scope(&*x, |c| for &s in &ps { for k in 0..6usize {
                    ctx.case(|| format!("{} x {}: accepting {} from {}", n, T::NAME, k, s));
                    ctx.transitions += 3;
                    ctx.nontrivial += 1;
                    let d = |m: String| format!("{} x {}: accepting {} from {}: {}", n, T::NAME, k, s, m);
                    if let Ok(i) = c.vet(s) {
                        let (mut m, mut bad) = (0, false);
                        let r = c.scan_from(i, |e| { bad |= !is_at(base, e, s + 1 + m); m += 1; m <= k });
                        ctx.ck(!bad && (r.start(), r.end()) == (s, s + 1 + k.min(n - s - 1)), || d(format!("scan_from gives {}..{}", r.start(), r.end())));
                        ctx.ck(m == (k + 1).min(n - s - 1), || d(format!("scan_from asks {} times", m)));
                        let (mut m, mut bad) = (0, false);
                        let r = c.scan_from_rev(i, |e| { m += 1; bad |= !is_at(base, e, s.wrapping_sub(m)); m <= k });
                        ctx.ck(!bad && (r.start(), r.end()) == (s - k.min(s), s + 1), || d(format!("scan_from_rev gives {}..{}", r.start(), r.end())));
                        ctx.ck(m == (k + 1).min(s), || d(format!("scan_from_rev asks {} times", m)));
                    }
                    for &z in ps.iter().filter(|z| **z >= s) {
                        let r = c.vet_range(s..z).ok().unwrap();
                        let (mut m, mut bad) = (0, false);
                        let (p, q) = c.scan_range(r, |e| { bad |= !is_at(base, e, s + m); m += 1; m <= k });
                        let mid = s + k.min(z - s);
                        ctx.ck(!bad && (p.start(), p.end(), q.start(), q.end()) == (s, mid, mid, z), || d(format!("scan_range(..{}) gives {:?} {:?}", z, p, q)));
                        ctx.ck(m == (k + 1).min(z - s), || d(format!("scan_range(..{}) asks {} times", z, m)));
                    }
                    ctx.obs(&(s, k));
                    ctx.states += 1;
                } });
            });
        }
        for n in huge::LENGTHS {
            go::<u8>(ctx, n);
            go::<B3>(ctx, n);
        }
    }));
    us
}

fn main() {
    harness_main(units)
}
