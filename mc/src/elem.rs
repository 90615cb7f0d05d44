//! Element types, ownership accounting and guarded buffers.
use std::cell::RefCell;

pub trait Elem: Sized {
    const NAME: &'static str;
    const ZST: bool = false;
    /// Number of distinguishable values.
    const DISTINCT: usize = usize::MAX;
    fn mk(i: usize) -> Self;
    fn id(&self) -> usize;
}

impl Elem for u8 {
    const NAME: &'static str = "u8";
    const DISTINCT: usize = 256;
    fn mk(i: usize) -> u8 { i as u8 }
    fn id(&self) -> usize { *self as usize }
}
impl Elem for u16 {
    const NAME: &'static str = "u16";
    const DISTINCT: usize = 65536;
    fn mk(i: usize) -> u16 { i as u16 }
    fn id(&self) -> usize { *self as usize }
}
impl Elem for u32 {
    const NAME: &'static str = "u32";
    fn mk(i: usize) -> u32 { i as u32 }
    fn id(&self) -> usize { *self as usize }
}
impl Elem for u64 {
    const NAME: &'static str = "u64";
    fn mk(i: usize) -> u64 { i as u64 }
    fn id(&self) -> usize { *self as usize }
}
/// 3 bytes, alignment 1
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct B3(pub [u8; 3]);
impl Elem for B3 {
    const NAME: &'static str = "[u8;3]";
    const DISTINCT: usize = 65536;
    fn mk(i: usize) -> B3 { B3([i as u8, (i >> 8) as u8, !(i as u8)]) }
    fn id(&self) -> usize {
        if self.0[2] != !self.0[0] { return usize::MAX; }
        self.0[0] as usize | (self.0[1] as usize) << 8
    }
}
/// 40 bytes
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big(pub [u64; 5]);
impl Elem for Big {
    const NAME: &'static str = "[u64;5]";
    fn mk(i: usize) -> Big { let i = i as u64; Big([i, !i, i ^ 1, i + 7, i]) }
    fn id(&self) -> usize {
        if *self != Big::mk(self.0[0] as usize) { return usize::MAX; }
        self.0[0] as usize
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(align(64))]
pub struct Al64(pub u16);
impl Elem for Al64 {
    const NAME: &'static str = "align64";
    const DISTINCT: usize = 65536;
    fn mk(i: usize) -> Al64 { Al64(i as u16) }
    fn id(&self) -> usize { self.0 as usize }
}
/// 8 * N bytes
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Words<const N: usize>(pub [u64; N]);
impl<const N: usize> Elem for Words<N> {
    const NAME: &'static str = match N { 2 => "[u64;2]", 17 => "[u64;17]", 130 => "[u64;130]", _ => "[u64;N]" };
    fn mk(i: usize) -> Self { let mut w = [i as u64; N]; w[N - 1] = !(i as u64); w[N / 2] ^= 5; Words(w) }
    fn id(&self) -> usize {
        if *self != Self::mk(self.0[0] as usize ^ if N < 2 { 5 } else { 0 }) { return usize::MAX; }
        self.0[0] as usize
    }
}
pub type Mid = Words<17>;
pub type Vast = Words<130>;
impl Elem for () {
    const NAME: &'static str = "()";
    const ZST: bool = true;
    const DISTINCT: usize = 1;
    fn mk(_: usize) {}
    fn id(&self) -> usize { 0 }
}

thread_local! {
    static LIVE: RefCell<Vec<i64>> = RefCell::new(vec![]);
}

/// Ownership accounting: how many live values each id has.
pub fn live_reset() {
    LIVE.with(|l| l.borrow_mut().clear());
}
fn live_add(id: usize, d: i64) {
    LIVE.with(|l| {
        let mut l = l.borrow_mut();
        if id < 1 << 20 {
            if l.len() <= id {
                l.resize(id + 1, 0);
            }
            l[id] += d;
        }
    })
}
pub fn live_of(id: usize) -> i64 {
    LIVE.with(|l| l.borrow().get(id).copied().unwrap_or(0))
}
/// Number of live values.
pub fn live_total() -> i64 {
    LIVE.with(|l| l.borrow().iter().sum())
}
/// First id whose number of live values differs from `want`.
pub fn live_bad(n: usize, want: i64) -> Option<(usize, i64)> {
    LIVE.with(|l| {
        let l = l.borrow();
        for i in 0..n.max(l.len()) {
            let x = l.get(i).copied().unwrap_or(0);
            let w = if i < n { want } else { 0 };
            if x != w {
                return Some((i, x));
            }
        }
        None
    })
}

/// Owned element: creation and dropping are counted per id. Not `Copy`, not `Clone`.
#[derive(PartialEq, Eq, Debug)]
pub struct Tok(pub u32);
impl Elem for Tok {
    const NAME: &'static str = "owned";
    fn mk(i: usize) -> Tok { live_add(i, 1); Tok(i as u32) }
    fn id(&self) -> usize { self.0 as usize }
}
impl Drop for Tok {
    fn drop(&mut self) { live_add(self.0 as usize, -1) }
}

/// Owned element on the heap (a duplicated or leaked one is also visible to Miri and the allocator).
#[derive(PartialEq, Eq, Debug)]
pub struct Heap(pub Box<u32>);
impl Elem for Heap {
    const NAME: &'static str = "boxed";
    fn mk(i: usize) -> Heap { live_add(i, 1); Heap(Box::new(i as u32)) }
    fn id(&self) -> usize { *self.0 as usize }
}
impl Drop for Heap {
    fn drop(&mut self) { live_add(*self.0 as usize, -1) }
}

/// Zero-sized element with counted drops (one shared id).
#[derive(PartialEq, Eq, Debug)]
pub struct Ztok;
impl Elem for Ztok {
    const NAME: &'static str = "owned-zst";
    const ZST: bool = true;
    const DISTINCT: usize = 1;
    fn mk(_: usize) -> Ztok { live_add(0, 1); Ztok }
    fn id(&self) -> usize { 0 }
}
impl Drop for Ztok {
    fn drop(&mut self) { live_add(0, -1) }
}

/// Guard elements on each side; none in instrumented builds, where the allocator guards the ends.
pub const PAD: usize = if cfg!(feature = "exact") { 0 } else { 3 };

/// `n` elements with ids 0..n, surrounded by guard elements with ids n.. in the same allocation.
pub struct Guarded<T: Elem> {
    pub v: Vec<T>,
    pub n: usize,
}

impl<T: Elem> Guarded<T> {
    pub fn new(n: usize) -> Self {
        let mut v = Vec::with_capacity(n + 2 * PAD);
        for i in 0..PAD { v.push(T::mk(n + i)); }
        for i in 0..n { v.push(T::mk(i)); }
        for i in 0..PAD { v.push(T::mk(n + PAD + i)); }
        Guarded { v, n }
    }
    pub fn total(&self) -> usize { self.n + 2 * PAD }
    pub fn mid(&self) -> &[T] { &self.v[PAD..PAD + self.n] }
    pub fn mid_mut(&mut self) -> &mut [T] { let n = self.n; &mut self.v[PAD..PAD + n] }
    pub fn ids(&self) -> Vec<usize> { self.mid().iter().map(|x| x.id()).collect() }
    /// Are the guard elements untouched?
    pub fn guards_ok(&self) -> bool {
        if T::ZST { return true; }
        (0..PAD).all(|i| self.v[i].id() == T::mk_id(self.n + i))
            && (0..PAD).all(|i| self.v[PAD + self.n + i].id() == T::mk_id(self.n + PAD + i))
    }
}

pub trait MkId: Elem {
    /// The id an element made from `i` reports.
    fn mk_id(i: usize) -> usize {
        if Self::DISTINCT == usize::MAX { i } else { i % Self::DISTINCT }
    }
}
impl<T: Elem> MkId for T {}

/// Offset of `p` from `base` in elements, if it is a whole number of elements.
pub fn off<T>(base: *const T, p: *const T) -> Option<isize> {
    let sz = std::mem::size_of::<T>().max(1) as isize;
    let d = (p as isize).wrapping_sub(base as isize);
    if d % sz == 0 { Some(d / sz) } else { None }
}

/// Is `s` exactly the elements `from..from + len` of the array at `base`?
pub fn is_sub<T>(base: *const T, s: &[T], from: usize, len: usize) -> bool {
    let addr_ok = std::mem::size_of::<T>() == 0 || off(base, s.as_ptr()) == Some(from as isize);
    s.len() == len && addr_ok
}
pub fn is_at<T>(base: *const T, r: *const T, i: usize) -> bool {
    std::mem::size_of::<T>() == 0 || off(base, r) == Some(i as isize)
}
