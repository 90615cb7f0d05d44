//! Units for the particle closure (C01-C05).
use crate::ops::{self, explore, explore_from, Cfg};
use crate::*;
use indexing::scope;

fn zst(n: usize) -> &'static [()] {
    // a slice of zero-sized elements may have any length
    unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) }
}

pub fn big_lengths(t: Tier) -> Vec<usize> {
    let h = isize::MAX as usize;
    let mut v = vec![33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, h - 1, h];
    if t == Tier::Thorough {
        v.extend([31, 32, 34, 47, 48, 49, 99, 100, 101, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 1 << 20, (1 << 24) + 1, 1 << 40, (1 << 53) + 1]);
    }
    v.extend([h + 1, h + 2, usize::MAX - 1, usize::MAX]);
    v
}

/// `groups`: operations to run. The closure always starts from the container alone and reaches
/// every other particle through checked integers and the operations of `groups`.
pub fn units(t: Tier, mode: Mode, groups: u32) -> Vec<Unit> {
    let mut us = vec![];
    // (checked integers alone: cheap)
    let closed = if groups == G::Vet as u32 { t.pick(8, 32, 72) } else { t.pick(8, 16, 26) };
    for n in 0..=closed {
        us.push(unit(format!("closure n={}", n), move |ctx| {
            let data: Vec<u32> = (0..n as u32).collect();
            let mut ks: Vec<usize> = (0..=n + 2).collect();
            let m = usize::MAX;
            let h = isize::MAX as usize;
            ks.extend([m, m - 1, m - n, (m - n).saturating_add(1), h, h + 1]);
            if n > 2 {
                ks.extend([m - n / 2, m - 2]);
            }
            ks.sort();
            ks.dedup();
            scope(&data[..], |c| {
                explore(ctx, &c, Cfg {
                    mode, groups, closure: true, seeds: if groups & G::Vet as u32 != 0 { vec![] } else { (0..=n).collect() }, ks, pairs: true, long_scans: true,
                })
            });
        }));
    }
    // every kind of storage; particles of twins; particles from before the container grew
    for n in 0..=t.pick(3, 5, 8) {
        us.push(unit(format!("storages n={}", n), move |ctx| {
            let mut ks: Vec<usize> = (0..=n + 2).collect();
            ks.extend([usize::MAX, usize::MAX - n, isize::MAX as usize]);
            let cfg = Cfg { mode, groups, closure: true, seeds: (0..=n).collect(), ks, pairs: true, long_scans: true };
            let mut a: Vec<u32> = (0..n as u32).collect();
            let mut b = a.clone();
            scope(&mut a[..], |c| explore(ctx, &c, cfg.clone()));
            scope(&&b[..], |c| explore(ctx, &c, cfg.clone()));
            scope(&mut &mut b[..], |c| explore(ctx, &c.only_index(), cfg.clone()));
            scope(&b[..], |c| {
                let t1 = c.make_twin(&mut a[..]).unwrap_or_else(|_| fail("twin of equal length refused"));
                explore_from(ctx, &c, cfg.clone(), ops::all_parts(&t1));
                explore_from(ctx, &t1, cfg.clone(), ops::all_parts(&c));
                explore_from(ctx, &c.clone(), cfg.clone(), ops::all_parts(&c));
            });
            #[cfg(feature = "std")]
            if crate::vecs() {
                scope(b.clone(), |c| explore(ctx, &c, cfg.clone()));
                scope(&b, |c| explore(ctx, &c, cfg.clone()));
                scope(&mut b.clone(), |c| explore(ctx, &c, cfg.clone()));
                for grow in 1..=3 {
                    let mut cfg = cfg.clone();
                    cfg.seeds = (0..=n + grow).collect();
                    for at in 0..=n {
                        scope(b.clone(), |c| {
                            let mut parts = ops::all_parts(&c);
                            let mut c = c.only_index();
                            for k in 0..grow {
                                ctx.case(|| format!("container of length {} (Vec): {} pushes and an insertion at {}", n, k + 1, at));
                                let len = c.len();
                                if k == 1 {
                                    let edge = match c.vet_range(at..at) { Ok(r) => r.first(), Err(_) => fail("vet_range(at..at) refused") };
                                    c.insert(edge, 7);
                                } else {
                                    let i = c.push(9);
                                    // a pushed element's index is dereferenceable
                                    if i.integer() >= c.len() {
                                        fail(format!("push on length {} returned index {} with length {} afterwards", len, i.integer(), c.len()));
                                    }
                                    parts.push(ops::Part::INe(i));
                                }
                            }
                            explore_from(ctx, &c, cfg.clone(), parts);
                        });
                    }
                }
            }
        }));
    }
    // every range of mid-size containers, one step
    for n in t.pick(vec![], (17..=33).chain([40, 48, 63, 64, 65]).collect::<Vec<usize>>(), (27..=72).chain([96, 100, 127, 128, 129]).collect()) {
        us.push(unit(format!("step n={}", n), move |ctx| {
            let data: Vec<u32> = (0..n as u32).collect();
            let mut ks: Vec<usize> = (0..=n + 1).collect();
            ks.extend([usize::MAX, usize::MAX - n / 2, isize::MAX as usize]);
            let pairs = groups & G::Step as u32 == 0 && n <= t.pick(0, 33, 64);
            scope(&data[..], |c| {
                explore(ctx, &c, Cfg { mode, groups, closure: false, seeds: (0..=n).collect(), ks, pairs, long_scans: true })
            });
        }));
    }
    for n in big_lengths(t) {
        us.push(unit(format!("boundary n={}", n), move |ctx| {
            let ks = gen::args(n);
            let step = groups & G::Step as u32 != 0;
            let mut seeds = gen::points(n);
            // pairs times amounts is the largest product: fewer start points there
            if step && t == Tier::Quick && seeds.len() > 12 {
                let keep = [0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n, 256, 65536, 1 << 32];
                seeds.retain(|x| keep.contains(x));
            }
            scope(zst(n), |c| {
                explore(ctx, &c, Cfg { mode, groups, closure: false, seeds, ks, pairs: true, long_scans: false })
            });
        }));
    }
    us
}
