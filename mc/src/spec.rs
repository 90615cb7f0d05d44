//! The reference model: interval arithmetic over (start, end), in saturating/checked arithmetic.
pub type R = (usize, usize);

pub fn split_half(r: R) -> (R, R) {
    let m = r.0 + (r.1 - r.0) / 2;
    ((r.0, m), (m, r.1))
}
pub fn split_at(r: R, k: usize) -> (R, R, bool) {
    let len = r.1 - r.0;
    let m = if k > len { r.1 } else { r.0 + k };
    ((r.0, m), (m, r.1), k <= len)
}
pub fn clamp_add(a: usize, k: usize, max: usize) -> usize {
    match a.checked_add(k) {
        Some(x) if x < max => x,
        _ => max,
    }
}
/// `i + k` if that is below `limit`
pub fn step(i: usize, k: usize, limit: usize) -> Option<usize> {
    i.checked_add(k).filter(|&x| x < limit)
}
/// The even partition required of a subdivision: checks `parts` of `r` in `n`.
pub fn even_partition(r: R, n: usize, parts: &[R]) -> Result<(), String> {
    let len = r.1 - r.0;
    if len < n {
        return if parts.is_empty() { Ok(()) } else { Err(format!("{} parts of a range shorter than {}", parts.len(), n)) };
    }
    if parts.len() != n {
        return Err(format!("{} parts instead of {}", parts.len(), n));
    }
    let mut at = r.0;
    let (mut lo, mut hi) = (usize::MAX, 0);
    for &(s, e) in parts {
        if s != at { return Err(format!("part starts at {} instead of {}", s, at)); }
        if e <= s { return Err(format!("empty part at {}", s)); }
        lo = lo.min(e - s);
        hi = hi.max(e - s);
        at = e;
    }
    if at != r.1 { return Err(format!("parts end at {} instead of {}", at, r.1)); }
    if hi - lo > 1 { return Err(format!("part lengths {} and {}", lo, hi)); }
    Ok(())
}
