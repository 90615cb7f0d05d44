//! Subdividing a range: every (start, length, parts), and boundary lengths.
use indexing::{scope, Range};
use mc::*;

fn zst(n: usize) -> &'static [()] {
    unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) }
}

fn check<'id, P: Tag>(ctx: &mut Ctx, r: Range<'id, P>, k: usize, adaptors: bool) {
    let (s, e) = (r.start(), r.end());
    let len = e - s;
    ctx.case(|| format!("range {}..{} (marked: {}) subdivided into {}", s, e, P::NE, k));
    ctx.transitions += 1;
    let desc = |m: String| format!("range {}..{} (marked: {}) subdivided into {}: {}", s, e, P::NE, k, m);
    let mut it = r.subdivide(k);
    let mut parts = vec![];
    while let Some(p) = it.next() {
        parts.push((p.start(), p.end()));
        if parts.len() > len.saturating_add(1) {
            fail(desc(format!("more than {} parts: {:?}...", len, &parts[..3])));
        }
    }
    if let Err(m) = spec::even_partition((s, e), k, &parts) {
        fail(desc(format!("{}: {:?}", m, parts)));
    }
    for _ in 0..3 {
        ctx.ck(it.next().is_none(), || desc("a part after the end".into()));
    }
    if parts.len() > 1 {
        ctx.nontrivial += 1;
    }
    ctx.obs(&(len, k, parts.last().map(|p| p.1 - p.0), parts.len()));
    if adaptors {
        // the same parts through the other iterator methods, and from copies
        let flat = |v: Vec<Range<'id, NonEmpty>>| -> Vec<(usize, usize)> { v.iter().map(|p| (p.start(), p.end())).collect() };
        let it = r.subdivide(k);
        ctx.ck(flat(it.collect()) == parts, || desc("collect differs from next".into()));
        ctx.ck(it.count() == parts.len(), || desc(format!("count {}", it.count())));
        ctx.ck(it.last().map(|p| (p.start(), p.end())) == parts.last().copied(), || desc("last differs".into()));
        let (lo, hi) = it.size_hint();
        ctx.ck(lo <= parts.len() && hi.map_or(true, |h| h >= parts.len()), || desc(format!("size_hint {:?} of {}", lo, parts.len())));
        let mut folded = vec![];
        it.for_each(|p| folded.push((p.start(), p.end())));
        ctx.ck(folded == parts, || desc("for_each differs from next".into()));
        for skip in 0..=parts.len().min(4) {
            let mut j = r.subdivide(k);
            for _ in 0..skip { j.next(); }
            let saved = j;
            for m in 0..3 {
                let mut c = saved.clone();
                ctx.ck(c.nth(m).map(|p| (p.start(), p.end())) == parts.get(skip + m).copied(), || desc(format!("nth({}) after {}", m, skip)));
                ctx.ck(c.next().map(|p| (p.start(), p.end())) == parts.get(skip + m + 1).copied(), || desc(format!("next after nth({}) after {}", m, skip)));
            }
            ctx.ck(flat(saved.collect()) == parts[skip..], || desc(format!("copy after {} parts", skip)));
        }
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = vec![];
    let max = t.pick(40, 500, 2400);
    let parts = t.pick(4, 24, 48);
    for part in 0..parts {
        us.push(unit(format!("all lengths up to {} part {}", max, part), move |ctx| {
            for len in (0..=max).filter(|l| l % parts == part) {
                for (s, tail) in [(0, 0), (1, 2), (5, 0), (7, 3)] {
                    if len > 100 && s != 0 && s != 5 {
                        continue;
                    }
                    scope(zst(s + len + tail), |c| {
                        let r = c.vet_range(s..s + len).unwrap_or_else(|_| fail("vet_range refused a valid range"));
                        for k in 1..=len + 2 {
                            check(ctx, r, k, len <= 24);
                        }
                        for k in gen::extremes(len) {
                            if k > len + 2 {
                                check(ctx, r, k, false);
                            }
                        }
                        if let Ok(r) = r.nonempty() {
                            for k in 1..=len + 1 {
                                check(ctx, r, k, len <= 12);
                            }
                        }
                    });
                    ctx.states += 1;
                }
            }
        }));
    }
    // long ranges, all small part counts and those dividing into 1..=3 long parts
    let h = isize::MAX as usize;
    for len in [255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, h - 1, h, h + 1, usize::MAX - 7, usize::MAX - 1, usize::MAX] {
        us.push(unit(format!("length {}", len), move |ctx| {
            for s in [0, 3, 5] {
                let Some(n) = len.checked_add(s) else { continue };
                scope(zst(n), |c| {
                    let r = c.vet_range(s..n).unwrap_or_else(|_| fail("vet_range refused a valid range"));
                    for k in 1..=t.pick(20, 300, 1500) {
                        check(ctx, r, k, false);
                    }
                    if len <= 70000 {
                        for k in [len / 3, len / 2 - 1, len / 2, len / 2 + 1, len - 1, len, len + 1, len + 2] {
                            check(ctx, r, k, false);
                        }
                    } else {
                        // too many parts to list: the first ones
                        for k in [len / 7, len / 3, len / 2, len / 2 + 1, len - 1, len] {
                            ctx.case(|| format!("range {}..{} subdivided into {}, first 200 parts", s, n, k));
                            let mut at = s;
                            let (w, f) = (len / k, len % k);
                            let mut i = 0u128;
                            for p in r.subdivide(k).take(200) {
                                i += 1;
                                let l = p.end().wrapping_sub(p.start());
                                // (even: lengths are those of an even division; the order in which the longer ones
                                // come is not prescribed)
                                ctx.ck(p.start() == at && (l == w || (f > 0 && l == w + 1)), || format!("range {}..{} subdivided into {}: part {} is {}..{}", s, n, k, i, p.start(), p.end()));
                                at = p.end();
                            }
                            ctx.ck(i == 200, || format!("range {}..{} subdivided into {}: only {} parts", s, n, k, i));
                        }
                        for k in [len.saturating_add(1), usize::MAX] {
                            if k > len {
                                check(ctx, r, k, false);
                            }
                        }
                    }
                });
                ctx.states += 1;
            }
        }));
    }
    us
}

fn main() {
    harness_main(units)
}
