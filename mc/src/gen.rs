//! Enumerators of finite input spaces.

/// All weak orders of `n` elements: every sequence over 0..k using each value, for every k.
pub fn weak_orders(n: usize, f: &mut dyn FnMut(&[usize])) {
    if n == 0 {
        f(&[]);
        return;
    }
    fn go(a: &mut Vec<usize>, n: usize, k: usize, used: u64, f: &mut dyn FnMut(&[usize])) {
        if a.len() == n {
            f(a);
            return;
        }
        let missing = k - used.count_ones() as usize;
        for x in 0..k {
            let fresh = used & (1 << x) == 0;
            if !fresh && missing >= n - a.len() {
                continue;
            }
            a.push(x);
            go(a, n, k, used | 1 << x, f);
            a.pop();
        }
    }
    for k in 1..=n {
        go(&mut vec![], n, k, 0, f);
    }
}

/// As `weak_orders`, but only those whose first element is `first` (to split the work).
pub fn weak_orders_part(n: usize, part: usize, parts: usize, f: &mut dyn FnMut(&[usize])) {
    let mut i = 0usize;
    weak_orders(n, &mut |a| {
        // split in blocks, so that consecutive orders stay together
        if (i / 64) % parts == part {
            f(a);
        }
        i += 1;
    });
}

/// All sequences of length `n` over 0..k.
pub fn sequences(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    let mut a = vec![0; n];
    loop {
        f(&a);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            a[i] += 1;
            if a[i] < k {
                break;
            }
            a[i] = 0;
        }
    }
}

/// Base patterns for long inputs.
pub fn bases(n: usize) -> Vec<(&'static str, Vec<usize>)> {
    let asc: Vec<usize> = (0..n).collect();
    let desc: Vec<usize> = (0..n).rev().collect();
    let mut v = vec![
        ("ascending", asc),
        ("descending", desc),
        ("constant", vec![n / 2; n]),
        ("organ-pipe", (0..n).map(|i| i.min(n - 1 - i)).collect()),
        ("valley", (0..n).map(|i| n - i.min(n - 1 - i)).collect()),
        ("alternating", (0..n).map(|i| i % 2).collect()),
        ("saw3", (0..n).map(|i| i % 3).collect()),
        ("saw7", (0..n).map(|i| i % 7).collect()),
        ("scrambled", (0..n).map(|i| (i * 123 + 17) % n.max(1)).collect()),
        ("two-runs", (0..n).map(|i| if i < n / 2 { 2 * i } else { 2 * (i - n / 2) + 1 }).collect()),
    ];
    v.push(("halves-swapped", (0..n).map(|i| (i + n / 2) % n.max(1)).collect()));
    v
}

/// Every base pattern of length `n`, with at most `dev` deviations: none, every single replacement by
/// every rank, every transposition, (dev >= 2) every pair of transpositions, and every rotation.
pub fn deviations(n: usize, dev: usize, f: &mut dyn FnMut(&dyn Fn() -> String, &[usize])) {
    for (name, b) in bases(n) {
        f(&|| name.to_string(), &b);
        if dev == 0 || n == 0 {
            continue;
        }
        let mut a = b.clone();
        for r in 1..n {
            a.rotate_left(1);
            f(&|| format!("{} rotated left {}", name, r), &a);
        }
        a.copy_from_slice(&b);
        // values: below everything, every other rank, above everything
        let mut vals: Vec<usize> = b.iter().map(|x| x + 1).collect();
        vals.sort();
        vals.dedup();
        let step = if vals.len() > 64 { vals.len() / 32 } else { 1 };
        let a1: Vec<usize> = b.iter().map(|x| x + 1).collect();
        let mut w = a1.clone();
        for i in 0..n {
            for v in std::iter::once(0).chain(vals.iter().copied().step_by(step)).chain(std::iter::once(2 * n + 2)) {
                if v == a1[i] {
                    continue;
                }
                w[i] = v;
                f(&|| format!("{} with [{}]={}", name, i, v), &w);
            }
            w[i] = a1[i];
        }
        let mut w = b.clone();
        for i in 0..n {
            for j in i + 1..n {
                if b[i] == b[j] {
                    continue;
                }
                w.swap(i, j);
                f(&|| format!("{} with {}<->{}", name, i, j), &w);
                if dev >= 2 {
                    for k in i..n {
                        for l in k + 1..n {
                            if (k, l) <= (i, j) || w[k] == w[l] {
                                continue;
                            }
                            w.swap(k, l);
                            f(&|| format!("{} with {}<->{}, {}<->{}", name, i, j, k, l), &w);
                            w.swap(k, l);
                        }
                    }
                }
                w.swap(i, j);
            }
        }
    }
}

/// Interesting integers around a container of length n.
pub fn extremes(n: usize) -> Vec<usize> {
    let m = usize::MAX;
    let h = isize::MAX as usize;
    let mut v = vec![
        0, 1, 2, 3, n / 3, (n / 2).wrapping_sub(1), n / 2, n / 2 + 1, n.wrapping_sub(2), n.wrapping_sub(1), n,
        n.saturating_add(1), n.saturating_add(2), n.saturating_mul(2),
        255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
        h - 1, h, h + 1, h + 2, m - 1, m, m - n, (m - n).wrapping_add(1), (m - n).wrapping_add(2),
        (m - n).wrapping_sub(1), h.wrapping_sub(n), m / 2 - n / 2,
    ];
    v.sort();
    v.dedup();
    v
}

/// Points of a container of length n: everything when small, boundary points when large.
pub fn points(n: usize) -> Vec<usize> {
    if n <= 32 {
        return (0..=n).collect();
    }
    let mut v = vec![
        0, 1, 2, 3, n / 3, n / 2 - 1, n / 2, n / 2 + 1, n - 3, n - 2, n - 1, n, 254, 255, 256, 257, 65535, 65536, 65537,
        (1 << 31) - 1, 1 << 31, 1 << 32, isize::MAX as usize - 1, isize::MAX as usize, isize::MAX as usize + 1,
    ];
    v.retain(|&x| x <= n);
    v.sort();
    v.dedup();
    v
}

/// Arguments to try with a container of length n.
pub fn args(n: usize) -> Vec<usize> {
    let mut v = extremes(n);
    v.extend(points(n));
    v.sort();
    v.dedup();
    v
}
