//! Storages: one buffer with known contents, seen through a container over every kind of storage.
use crate::elem::*;
use crate::*;
use indexing::container_traits::*;
use indexing::{scope, Container};
use std::cell::RefCell;

pub trait Shared<T> {
    /// `c` is a container over `n` elements with ids 0..n at `base`
    fn visit<'id, A, M>(&mut self, name: &'static str, c: &Container<'id, A, M>, base: *const T, n: usize)
    where
        A: Contiguous<Item = T> + GetUnchecked;
}

pub trait Mutable<T> {
    /// Mode `()`; may only be looked at through `base` afterwards.
    fn visit<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A>, base: *const T, n: usize)
    where
        A: ContiguousMut<Item = T> + GetUncheckedMut;
    /// Only-index mode.
    fn visit_only<'id, A>(&mut self, name: &'static str, c: &mut Container<'id, A, OnlyIndex>, base: *const T, n: usize)
    where
        A: ContiguousMut<Item = T> + GetUncheckedMut;
    /// Before / after each visit.
    fn begin(&mut self) {}
    fn done(&mut self, name: &'static str, n: usize, guards_ok: bool);
}

pub use indexing::container::OnlyIndex;

const ACROSS: &str = "slice across an address with zero lower bits";

pub fn each_shared<T: Elem, V: Shared<T>>(n: usize, v: &mut V) {
    let mut g = Guarded::<T>::new(n);
    let base = g.mid().as_ptr();
    scope(g.mid(), |c| {
        v.visit("&[T]", &c, base, n);
        v.visit("clone of &[T]", &c.clone(), base, n);
        v.visit("&[T] (only index)", &c.only_index(), base, n)
    });
    scope(&g.mid(), |c| v.visit("&&[T]", &c, base, n));
    scope(g.mid_mut(), |c| v.visit("&mut [T]", &c, base, n));
    scope(&mut g.mid_mut(), |c| v.visit("&mut &mut [T]", &c.only_index(), base, n));
    scope(&&mut *g.mid_mut(), |c| v.visit("&&mut [T]", &c, base, n));
    if !T::ZST && n > 0 && n <= 300 {
        for b in crate::huge::BOUNDARIES {
            crate::huge::across::<T>(b, n, (n + 1) / 2, |s| scope(&*s, |c| v.visit(ACROSS, &c, s.as_ptr(), n)));
        }
    }
    // twins
    scope(g.mid(), |c| {
        let t = c.make_twin(g.mid()).unwrap_or_else(|_| fail("twin of equal length refused"));
        v.visit("twin &[T]", &t, base, n);
        let inner = g.mid();
        let t2 = t.make_twin(&inner).unwrap_or_else(|_| fail("twin of equal length refused"));
        v.visit("twin of twin &&[T]", &t2, base, n);
    });
    #[cfg(feature = "std")]
    if crate::vecs() {
        let x: Vec<T> = (0..n).map(T::mk).collect();
        let base = x.as_ptr();
        scope(&x, |c| v.visit("&Vec", &c, base, n));
        scope(&&x, |c| v.visit("&&Vec", &c.only_index(), base, n));
        let mut x = x;
        scope(&mut x, |c| v.visit("&mut Vec", &c, base, n));
        scope(&mut &mut x, |c| v.visit("&mut &mut Vec", &c, base, n));
        scope(x, |c| v.visit("Vec", &c, base, n));
        let mut x: Vec<T> = Vec::with_capacity(n + 5);
        x.extend((0..n).map(T::mk));
        let base = x.as_ptr();
        scope(x, |c| v.visit("Vec with spare capacity (only index)", &c.only_index(), base, n));
    }
}

/// `full`: every storage; otherwise the two basic ones.
pub fn each_mut<T: Elem, V: Mutable<T>>(n: usize, full: bool, v: &mut V) {
    fn sl<'a, T: Elem, V: Mutable<T>>(v: &mut V, n: usize, name: &'static str, f: impl FnOnce(&mut V, &mut [T], *const T)) {
        v.begin();
        {
            let mut g = Guarded::<T>::new(n);
            let base = g.mid().as_ptr();
            f(v, g.mid_mut(), base);
            let ok = g.guards_ok();
            v.done(name, n, ok);
        }
    }
    sl::<T, V>(v, n, "&mut [T]", |v, s, b| scope(s, |mut c| v.visit("&mut [T]", &mut c, b, n)));
    #[cfg(feature = "std")]
    if crate::vecs() {
        v.begin();
        let x: Vec<T> = (0..n).map(T::mk).collect();
        let b = x.as_ptr();
        scope(x, |mut c| {
            v.visit("Vec", &mut c, b, n);
            v.done("Vec", n, true);
        });
    }
    if !full {
        return;
    }
    sl::<T, V>(v, n, "&mut [T] (only index)", |v, s, b| scope(s, |c| v.visit_only("&mut [T] (only index)", &mut c.only_index(), b, n)));
    if !T::ZST && n > 1 && n <= 300 {
        for b in crate::huge::BOUNDARIES {
            v.begin();
            let there = crate::huge::across::<T>(b, n, (n + 1) / 2, |s| {
                let b = s.as_ptr();
                scope(s, |mut c| v.visit(ACROSS, &mut c, b, n))
            });
            if there { v.done(ACROSS, n, true); }
        }
    }
    sl::<T, V>(v, n, "&mut &mut [T]", |v, mut s, b| scope(&mut s, |mut c| v.visit("&mut &mut [T]", &mut c, b, n)));
    sl::<T, V>(v, n, "twin &mut [T]", |v, s, b| {
        let z = vec![(); n];
        scope(&z[..], |c| {
            let mut t = c.make_twin(s).unwrap_or_else(|_| fail("twin of equal length refused"));
            v.visit_only("twin &mut [T]", &mut t, b, n)
        })
    });
    #[cfg(feature = "std")]
    if crate::vecs() {
        v.begin();
        let mut x: Vec<T> = (0..n).map(T::mk).collect();
        let b = x.as_ptr();
        scope(&mut x, |mut c| v.visit("&mut Vec", &mut c, b, n));
        v.done("&mut Vec", n, true);
        drop(x);
        v.begin();
        let mut x: Vec<T> = (0..n).map(T::mk).collect();
        let b = x.as_ptr();
        scope(&mut &mut x, |c| v.visit_only("&mut &mut Vec (only index)", &mut c.only_index(), b, n));
        v.done("&mut &mut Vec (only index)", n, true);
        drop(x);
        v.begin();
        let mut x: Vec<T> = Vec::with_capacity(n + 3);
        x.extend((0..n).map(T::mk));
        let b = x.as_ptr();
        scope(x, |c| {
            v.visit_only("Vec with spare capacity (only index)", &mut c.only_index(), b, n);
            v.done("Vec with spare capacity (only index)", n, true);
        });
    }
}

/// Ids of the `n` elements at `base`, read directly.
pub fn ids<T: Elem>(base: *const T, n: usize) -> Vec<usize> {
    (0..n).map(|i| unsafe { (*base.add(i)).id() }).collect()
}
pub fn want_ids<T: Elem>(it: impl Iterator<Item = usize>) -> Vec<usize> {
    it.map(|i| T::mk_id(i)).collect()
}

/// A user-defined storage: elements are not contiguous, accesses are recorded, and an access out of bounds is a
/// violation.
pub struct Scattered<T> {
    pub parts: Vec<Box<T>>,
    pub log: RefCell<Vec<(bool, usize)>>,
}
impl<T: Elem> Scattered<T> {
    pub fn new(n: usize) -> Self {
        Scattered { parts: (0..n).map(|i| Box::new(T::mk(i))).collect(), log: RefCell::new(vec![]) }
    }
    pub fn at(&self, i: usize) -> *const T { &*self.parts[i] }
}
unsafe impl<T> Trustworthy for Scattered<T> {
    type Item = T;
    fn base_len(&self) -> usize { self.parts.len() }
}
unsafe impl<T> GetUnchecked for Scattered<T> {
    unsafe fn xget_unchecked(&self, i: usize) -> &T {
        self.log.borrow_mut().push((false, i));
        match self.parts.get(i) { Some(x) => x, None => fail(format!("unchecked read of element {} of {}", i, self.parts.len())) }
    }
}
unsafe impl<T> GetUncheckedMut for Scattered<T> {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut T {
        self.log.borrow_mut().push((true, i));
        let n = self.parts.len();
        match self.parts.get_mut(i) { Some(x) => x, None => fail(format!("unchecked write of element {} of {}", i, n)) }
    }
}
unsafe impl<T> FixedLength for Scattered<T> {}
