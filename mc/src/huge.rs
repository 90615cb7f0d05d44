//! Reserved address space: slices far longer than memory, of which only the touched pages exist.
use crate::ctx::fail;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
}

/// Plain types for which zero bytes are a value.
pub trait Zeroable: Copy {}
impl Zeroable for u8 {}
impl Zeroable for u16 {}
impl Zeroable for u32 {}
impl Zeroable for u64 {}
impl Zeroable for crate::elem::B3 {}
impl Zeroable for crate::elem::Big {}
impl<const W: usize> Zeroable for crate::searches::Probe<W> {}

/// Lengths around the limits of 32-bit integers.
pub const LENGTHS: [usize; 6] = [(1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 5];

/// Runs `f` on a slice of `n` zero elements; not at all where the address space is refused.
pub fn with<T: Zeroable>(n: usize, f: impl FnOnce(&mut [T])) {
    let bytes = match n.checked_mul(std::mem::size_of::<T>()) { Some(b) if b > 0 => b, _ => fail("harness: bad size") };
    // private, anonymous, no reservation of memory
    let p = unsafe { mmap(std::ptr::null_mut(), bytes, 3, 0x4022, -1, 0) };
    if p as isize == -1 { return; }
    f(unsafe { std::slice::from_raw_parts_mut(p as *mut T, n) });
    unsafe { munmap(p, bytes) };
}

/// Addresses at which the lower 16, 31, 32 and 40 bits of an address start again from zero.
pub const BOUNDARIES: [usize; 4] = [0x2000_0001_0000, 0x2000_8000_0000, 0x2001_0000_0000, 0x2100_0000_0000];

/// Runs `f` on `n` elements of which the first `k` lie before the address `boundary`, together with a wide zone of
/// untouched zero bytes on both sides; `f` is not run where the address is not available or not aligned.
pub fn across<T: crate::elem::Elem>(boundary: usize, n: usize, k: usize, f: impl FnOnce(&mut [T])) -> bool {
    across_with(boundary, n, k, T::mk, f)
}
pub fn across_with<T>(boundary: usize, n: usize, k: usize, mk: impl Fn(usize) -> T, f: impl FnOnce(&mut [T])) -> bool {
    let size = std::mem::size_of::<T>();
    let (start, room) = (boundary - k * size, n * size);
    let zone = (room + 0x2000 + 0xfff) & !0xfff;
    if start % std::mem::align_of::<T>() != 0 || zone > boundary { return false; }
    // private, anonymous, no reservation of memory, exactly here
    let p = unsafe { mmap((boundary - zone) as *mut u8, 2 * zone, 3, 0x10_4022, -1, 0) };
    if p as isize == -1 { return false; }
    let here = p as usize == boundary - zone;
    if here {
        let s = start as *mut T;
        for i in 0..n { unsafe { s.add(i).write(mk(i)) } }
        f(unsafe { std::slice::from_raw_parts_mut(s, n) });
        for i in 0..n { drop(unsafe { s.add(i).read() }) }
        let zero = |from: usize, to: usize| unsafe { std::slice::from_raw_parts(from as *const u8, to - from) }.iter().all(|b| *b == 0);
        if !zero(boundary - zone, start) || !zero(start + room, boundary + zone) {
            fail(format!("{} elements of {} bytes, {} of them before address {:#x}: bytes outside them were written", n, size, k, boundary));
        }
    }
    unsafe { munmap(p, 2 * zone) };
    here
}

/// Places in a slice of length n: its ends, its middle, and the limits of the machine's smaller integers.
pub fn places(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 65535, 65536, n / 2 - 1, n / 2, n / 2 + 1, n - 3, n - 2, n - 1, n];
    for k in [(1usize << 31) - 2, 1 << 31, (1 << 32) - 2, 1 << 32] { v.extend([k, k + 1, k + 2]); }
    v.retain(|x| *x <= n);
    v.sort();
    v.dedup();
    v
}
