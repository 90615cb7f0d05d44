#!/usr/bin/env python3
"""Client programs against the real compiler (C14-C17).

A reference model of the types (which brands, markings, storages, modes and threads fit together) is enumerated
over a bounded space of client programs. For each program the model says: must be accepted, must be rejected, or
(not generated) no claim. Every program is compiled against the library as it stands in the working tree.

  programs.py list ID [FILTER]     print the programs of a property
  programs.py show ID NAME         print one program
"""
import collections, concurrent.futures, itertools, json, os, shutil, subprocess, sys, tempfile, time

import run
from run import CheckError, log

CRATE_FEATURES = {"std-ptr": ["use_std", "experimental_pointer_ranges"], "nostd-ptr": ["experimental_pointer_ranges"],
                  "std-noptr": ["use_std"], "nostd-noptr": []}
DATA = 4    # containers of up to this many elements, in the model of markings

PRE = """#![allow(warnings)]
#![forbid(unsafe_code)]
mod pre {
    pub use ::indexing::{scope, Container, Index, IndexingError, NonEmpty, Range, Unknown};
    pub use ::indexing::algorithms::*;
    pub use ::indexing::container::OnlyIndex;
    pub use ::indexing::container_traits::*;
    pub use ::indexing::indexing::{IntoCheckedRange, RangeIter, Subdivide};
    pub use ::indexing::proof::{ProofAdd, Provable};
    pub use std::cell::Cell;
    pub use std::cmp::Ordering;
    pub use std::ops;
    pub use std::rc::Rc;
    pub use std::sync::MutexGuard;
    pub fn use_<T>(_: T) {}
    pub fn is_static<T: 'static>(_: T) {}
    pub fn send<T: Send>() {}
    pub fn sync<T: Sync>() {}
    pub fn send_val<T: Send>(_: T) {}
    pub fn same_i<'x, P, Q>(_: Index<'x, P>, _: Index<'x, Q>) {}
    pub fn same_r<'x, P, Q>(_: Range<'x, P>, _: Range<'x, Q>) {}
    pub fn same_c<'x, A, B, M, N>(_: &Container<'x, A, M>, _: &Container<'x, B, N>) {}
    pub type Sl<'id, 'd> = Container<'id, &'d mut [i32]>;
    pub type Sh<'id, 'd> = Container<'id, &'d [i32]>;
    pub type Gr<'id> = Container<'id, Vec<i32>, OnlyIndex>;
"""
PRE_PTR = """    pub use ::indexing::pointer::{zip, ContainerRef, PIndex, PRange, PRangeIter, PSlice, PointerRange};
    pub fn same_p<'x, T, P, Q>(_: PIndex<'x, T, P>, _: PIndex<'x, T, Q>) {}
    pub fn same_q<'x, T, P, Q>(_: PRange<'x, T, P>, _: PRange<'x, T, Q>) {}
    pub fn same_s<'x, T, P, Q>(_: PSlice<'x, T, P>, _: PSlice<'x, T, Q>) {}
"""

# ---------------------------------------------------------------- programs

Prog = collections.namedtuple("Prog", "name template accept needs body")


class Space:
    """Collects the programs of one property. `needs`: features (std, ptr)."""

    def __init__(self, prop):
        self.prop, self.progs, self.names = prop, [], set()
        self.states = self.transitions = 0
        self.skipped = 0

    def add(self, name, template, accept, body, needs=""):
        """accept: True, False, or None (no claim: not generated)."""
        self.transitions += 1
        if accept is None:
            self.skipped += 1
            return
        if name in self.names:
            raise CheckError("two programs named " + name)
        self.names.add(name)
        needs = set(needs.split())
        if any(w in body for w in ("Vec<", "vec![", "Gr<", "std::thread")):
            needs.add("std")
        if any(w in body for w in ("PIndex", "PRange", "PSlice", "pointer", "ContainerRef", "PointerRange", "same_p", "same_q", "same_s", "zip(")):
            needs.add("ptr")
        self.progs.append(Prog(name, template, bool(accept), frozenset(needs), body))


# ---------------------------------------------------------------- model of the operations
#
# An operation has operands: containers 'c', indices 'I', ranges 'R', pointers 'P', pointer ranges 'Q', pointer slices 'S';
# sem(n, *values) gives the possible results for a container of length n (indices: positions; ranges: pairs), or None
# if it requires an element that is not there.

# `weak` says where the library promises less than the model would allow, so that nothing is claimed: "out" (the results
# carry no marker, though they never are empty), "ne" (operands must be marked, though unmarked ones would do; with a digit:
# that operand), "same" (all operands must have the same marking).

Op = collections.namedtuple("Op", "key kinds code outs sem need mode groups weak")
OPS = []


def op(key, kinds, code, outs=(), sem=None, need="read", mode="any", groups=None, weak=""):
    OPS.append(Op(key, kinds, code, [tuple(o.rsplit(":", 1)) for o in outs], sem, need, mode, groups or [0] * len(kinds), weak))


def claimed(o, marks):
    if o.weak.startswith("ne"):
        return all(m == "NonEmpty" for j, m in enumerate(marks) if not o.weak[2:] or j == int(o.weak[2:]))
    return not (o.weak == "same" and len(set(marks)) > 1)


def always(*outs):
    return [tuple(outs)]


NOTHING = [()]


def scans(lo, hi):
    return range(lo, hi + 1)


# container and index or range
op("split_at", "cI", "{0}.split_at({1})", ["t.0:R", "t.1:R"], lambda n, i: always((0, i), (i, n)))
op("split_after", "cI", "{0}.split_after({1})", ["t.0:R", "t.1:R"], lambda n, i: always((0, i + 1), (i + 1, n)) if i < n else None)
op("split_around", "cR", "{0}.split_around({1})", ["t.0:R", "t.1:R"], lambda n, r: always((0, r[0]), (r[1], n)))
op("before", "cI", "{0}.before({1})", ["t:R"], lambda n, i: always((0, i)))
op("Container::after", "cI", "{0}.after({1})", ["t:R"], lambda n, i: always((i + 1, n)) if i < n else None)
op("range_of(i..)", "cI", "{0}.range_of({1}..)", ["t:R"], lambda n, i: always((i, n)), weak="out")
op("range_of(..i)", "cI", "{0}.range_of(..{1})", ["t:R"], lambda n, i: always((0, i)))
op("forward", "cI", "{{ let mut k = {1}; {0}.forward(&mut k); k }}", ["t:I"], lambda n, i: always(i + 1 if i + 1 < n else i), weak="ne")
op("Container::forward_by", "cI", "{{ let mut k = {1}; {0}.forward_by(&mut k, 2); k }}", ["t:I"], lambda n, i: always(i + 2 if i + 2 < n else i), weak="ne")
op("backward", "cI", "{{ let mut k = {1}; {0}.backward(&mut k); k }}", ["t:I"], lambda n, i: always(max(i - 1, 0)), weak="ne")
op("Container::forward_range_by", "cR", "{0}.forward_range_by({1}, 1)", ["t:R"], lambda n, r: always((min(r[0] + 1, n), min(r[1] + 1, n))))
op("scan_from", "cI", "{0}.scan_from({1}, |_| true)", ["t:R"], lambda n, i: [((i, i + 1 + k),) for k in range(n - i)] if i < n else None)
op("scan_from_rev", "cI", "{0}.scan_from_rev({1}, |_| true)", ["t:R"], lambda n, i: [((i - k, i + 1),) for k in range(i + 1)] if i < n else None)
op("scan_range", "cR", "{0}.scan_range({1}, |_| true)", ["t.0:R", "t.1:R"], lambda n, r: [((r[0], k), (k, r[1])) for k in scans(*r)])
op("swap", "cII", "{0}.swap({1}, {2})", [], lambda n, i, j: NOTHING if i < n and j < n else None, "mut")
op("rotate1_up", "cR", "{0}.rotate1_up({1})", [], lambda n, r: NOTHING, "mut")
op("rotate1_down", "cR", "{0}.rotate1_down({1})", [], lambda n, r: NOTHING, "mut")
op("index_twice", "cRR", "{0}.index_twice({1}, {2}).is_ok()", [], lambda n, r, s: NOTHING, "mut")
op("zip_mut_raw", "cRR", "{0}.zip_mut_raw({1}, {2}, |_, _| ())", [], lambda n, r, s: NOTHING, "mut")
op("c[i]", "cI", "use_(&{0}[{1}])", [], lambda n, i: NOTHING if i < n else None)
op("c[i] = ", "cI", "{0}[{1}] = 1", [], lambda n, i: NOTHING if i < n else None, "mut")
op("c[r]", "cR", "use_(&{0}[{1}])", [], lambda n, r: NOTHING)
op("mut c[r]", "cR", "use_(&mut {0}[{1}])", [], lambda n, r: NOTHING, "mut")
op("c[i..]", "cI", "use_(&{0}[{1}..])", [], lambda n, r: NOTHING)
op("mut c[i..]", "cI", "use_(&mut {0}[{1}..])", [], lambda n, r: NOTHING, "mut")
op("c[..i]", "cI", "use_(&{0}[..{1}])", [], lambda n, r: NOTHING)
op("mut c[..i]", "cI", "use_(&mut {0}[..{1}])", [], lambda n, r: NOTHING, "mut")
op("push", "c", "{0}.push(1)", ["t:I"], lambda n: always(n), "push", "idx")   # model: n is the length before
op("insert", "cI", "{0}.insert({1}, 1)", [], lambda n, i: NOTHING, "push", "idx")
# container
op("vet", "c", "{0}.vet(0).unwrap()", ["t:I"], lambda n: [(i,) for i in range(n)])
op("vet_range", "c", "{0}.vet_range(0..0).unwrap()", ["t:R"], lambda n: [((a, b),) for a in range(n + 1) for b in range(a, n + 1)])
op("range", "c", "{0}.range()", ["t:R"], lambda n: always((0, n)))
op("empty_range", "c", "{0}.empty_range()", ["t:R"], lambda n: always((0, 0)))
op("c[..]", "c", "use_(&{0}[..])", [], lambda n: NOTHING)
op("mut c[..]", "c", "use_(&mut {0}[..])", [], lambda n: NOTHING, "mut", weak="mode")    # only while pointers are allowed
# index
op("integer", "I", "{0}.integer()", [], lambda n, i: NOTHING)
op("Index::after", "I", "{0}.after()", ["t:I"], lambda n, i: always(i + 1) if i < n else None)
op("Index no_proof", "I", "Provable::no_proof({0})", ["t:I"], lambda n, i: always(i), weak="out")
op("i == i", "II", "{0} == {1}", [], lambda n, i, j: NOTHING)
op("i < i", "II", "{0} < {1}", [], lambda n, i, j: NOTHING)
op("i >= i", "II", "{0} >= {1}", [], lambda n, i, j: NOTHING)
op("i.partial_cmp", "II", "{0}.partial_cmp(&{1})", [], lambda n, i, j: NOTHING)
op("i.cmp", "II", "Ord::cmp(&{0}, &{1})", [], lambda n, i, j: NOTHING, weak="same")
op("i.max", "II", "Ord::max({0}, {1})", ["t:I"], lambda n, i, j: always(max(i, j)), weak="same")
# range
op("nonempty", "R", "{0}.nonempty().unwrap()", ["t:R"], lambda n, r: always(r) if r[0] < r[1] else [])
op("split_in_half", "R", "{0}.split_in_half()", ["t.0:R", "t.1:R"], lambda n, r: always((r[0], (r[0] + r[1]) // 2), ((r[0] + r[1]) // 2, r[1])))
op("Range::split_at", "R", "{0}.split_at(1)", ["t.0:R", "t.1:R"], lambda n, r: [((r[0], m), (m, r[1])) for m in scans(*r)])
op("contains", "R", "{0}.contains(0).unwrap()", ["t:I"], lambda n, r: [(i,) for i in range(*r)])
op("subdivide", "R", "{0}.subdivide(2)", ["{{ let mut t = t; t.next().unwrap() }}:R"], lambda n, r: [((r[0], (r[0] + r[1]) // 2),)] if r[1] - r[0] >= 2 else [])
op("join", "RR", "{0}.join({1}).unwrap()", ["t:R"], lambda n, r, s: always((r[0], s[1])) if r[1] == s[0] else [])
op("join_cover", "RR", "{0}.join_cover({1})", ["t:R"], lambda n, r, s: always((r[0], max(r[1], s[1]))))
op("join_cover_both", "RR", "{0}.join_cover_both({1})", ["t:R"], lambda n, r, s: always((min(r[0], s[0]), max(r[1], s[1]))))
op("frontiers", "R", "{0}.frontiers()", ["t.0:R", "t.1:R"], lambda n, r: always((r[0], r[0]), (r[1], r[1])))
op("Range::forward_by", "RI", "{{ let mut k = {1}; {0}.forward_by(&mut k, 1); k }}", ["t:I"], lambda n, r, i: always(i + 1 if i + 1 < r[1] else i), weak="ne1")
op("Range::forward_range_by", "RR", "{0}.forward_range_by({1}, 1)", ["t:R"], lambda n, r, s: always((min(s[0] + 1, r[1]), min(s[1] + 1, r[1]))))
op("Range no_proof", "R", "{0}.no_proof()", ["t:R"], lambda n, r: always(r), weak="out")
op("Range Provable::no_proof", "R", "Provable::no_proof({0})", ["t:R"], lambda n, r: always(r), weak="out")
op("first", "R", "{0}.first()", ["t:I"], lambda n, r: always(r[0]))
op("upper_middle", "R", "{0}.upper_middle()", ["t:I"], lambda n, r: always(r[0] + (r[1] - r[0]) // 2))
op("past_the_end", "R", "{0}.past_the_end()", ["t:I"], lambda n, r: always(r[1]))
op("lower_middle", "R", "{0}.lower_middle()", ["t:I"], lambda n, r: always(r[0] + (r[1] - r[0] - 1) // 2) if r[0] < r[1] else None)
op("last", "R", "{0}.last()", ["t:I"], lambda n, r: always(r[1] - 1) if r[0] < r[1] else None)
op("tail", "R", "{0}.tail()", ["t:R"], lambda n, r: always((r[0] + 1, r[1])) if r[0] < r[1] else None)
op("init", "R", "{0}.init()", ["t:R"], lambda n, r: always((r[0], r[1] - 1)) if r[0] < r[1] else None)
op("advance_", "R", "{0}.advance_().unwrap()", ["t:R"], lambda n, r: always((r[0] + 1, r[1])) if r[0] + 1 < r[1] else [], weak="ne")
op("advance", "R", "{{ let mut k = {0}; k.advance(); k }}", ["t:R"], lambda n, r: always((r[0] + 1, r[1])) if r[0] + 1 < r[1] else always(r), weak="ne")
op("advance_by", "R", "{{ let mut k = {0}; k.advance_by(2); k }}", ["t:R"], lambda n, r: always((r[0] + 2, r[1])) if r[0] + 2 < r[1] else always(r), weak="ne")
op("advance_back", "R", "{{ let mut k = {0}; k.advance_back(); k }}", ["t:R"], lambda n, r: always((r[0], r[1] - 1)) if r[0] + 1 < r[1] else always(r), weak="ne")
op("into_iter next", "R", "{0}.into_iter().next().unwrap()", ["t:I"], lambda n, r: [(r[0],)] if r[0] < r[1] else [])
op("into_iter next_back", "R", "{0}.into_iter().next_back().unwrap()", ["t:I"], lambda n, r: [(r[1] - 1,)] if r[0] < r[1] else [])
op("into_iter into_range", "R", "{0}.into_iter().into_range()", ["t:R"], lambda n, r: [((a, b),) for a in scans(*r) for b in scans(a, r[1])])
op("IntoCheckedRange", "R", "IntoCheckedRange::into({0}).unwrap()", ["t:R"], lambda n, r: always(r) if r[0] < r[1] else [])
op("r == r", "RR", "{0} == {1}", [], lambda n, r, s: NOTHING)
op("r < r", "RR", "{0} < {1}", [], lambda n, r, s: NOTHING)
op("r >= r", "RR", "{0} >= {1}", [], lambda n, r, s: NOTHING)
op("r.cmp", "RR", "Ord::cmp(&{0}, &{1})", [], lambda n, r, s: NOTHING, weak="same")
# container and pointer
PTR = dict(mode="ptr")
op("pointer_range", "c", "{0}.pointer_range()", ["t:Q"], lambda n: always((0, n)), **PTR)
op("pointer_slice", "c", "{0}.pointer_slice()", ["t:S"], lambda n: always((0, n)), **PTR)
op("pointer_range_of(p..)", "cP", "{0}.pointer_range_of({1}..)", ["t:Q"], lambda n, i: always((i, n)), **PTR, weak="out")
op("pointer_range_of(..p)", "cP", "{0}.pointer_range_of(..{1})", ["t:Q"], lambda n, i: always((0, i)), **PTR)
op("nonempty_range", "cPP", "{0}.nonempty_range({1}, {2}).unwrap()", ["t:Q"], lambda n, i, j: always((i, j)) if i < j else [], **PTR)
op("distance_to", "cP", "{0}.distance_to({1})", [], lambda n, i: NOTHING, **PTR)
op("scan_tail_", "cP", "{0}.scan_tail_({1}, |_| true)", ["t:Q"], lambda n, i: [((k, min(i + 1, n)),) for k in range(i + 1)], **PTR)
op("scan_pointer_range", "cQ", "{0}.scan_pointer_range({1}, |_| true)", ["t.0:Q", "t.1:Q"], lambda n, r: [((r[0], k), (k, r[1])) for k in scans(*r)], **PTR)
op("scan_pointer_range_rev", "cQ", "{0}.scan_pointer_range_rev({1}, |_| true)", ["t.0:Q", "t.1:Q"], lambda n, r: [((r[0], k), (k, r[1])) for k in scans(*r)], **PTR)
op("split_at_pointer", "cP", "{0}.split_at_pointer({1})", ["t.0:Q", "t.1:Q"], lambda n, i: always((0, i), (i, n)), **PTR)
op("split_container_at_pointer", "cP", "{0}.split_container_at_pointer({1}, |a, r, b, s| {{ use_(&a[r]); use_(&b[s]); use_(&a[..]); }})", [], lambda n, i: NOTHING, "mut", **PTR)
op("rotate1_prange", "cQ", "{0}.rotate1_prange({1})", [], lambda n, r: NOTHING if r[0] < r[1] else None, "mut", **PTR)
op("swap_ptr", "cPP", "{0}.swap_ptr({1}, {2})", [], lambda n, i, j: NOTHING if i < n and j < n else None, "mut", **PTR)
op("c[p]", "cP", "use_(&{0}[{1}])", [], lambda n, i: NOTHING if i < n else None, **PTR)
op("c[q]", "cQ", "use_(&{0}[{1}])", [], lambda n, r: NOTHING, **PTR)
op("mut c[q]", "cQ", "use_(&mut {0}[{1}])", [], lambda n, r: NOTHING, "mut", **PTR)
op("c[p..]", "cP", "use_(&{0}[{1}..])", [], lambda n, r: NOTHING, **PTR)
op("mut c[p..]", "cP", "use_(&mut {0}[{1}..])", [], lambda n, r: NOTHING, "mut", **PTR)
op("c[..p]", "cP", "use_(&{0}[..{1}])", [], lambda n, r: NOTHING, **PTR)
op("mut c[..p]", "cP", "use_(&mut {0}[..{1}])", [], lambda n, r: NOTHING, "mut", **PTR)
op("zip qq", "QcQc", "zip({0}, &{1}, {2}, &{3}, |a, b| use_(*a + *b))", [], lambda n, r, s: NOTHING, mode="ptr", groups=[0, 0, 1, 1])
op("zip sq", "ScQc", "zip({0}, &{1}, {2}, &{3}, |a, b| use_(*a + *b))", [], lambda n, r, s: NOTHING, mode="ptr", groups=[0, 0, 1, 1])
op("zip qs", "QcSc", "zip({0}, &{1}, {2}, &{3}, |a, b| use_(*a + *b))", [], lambda n, r, s: NOTHING, mode="ptr", groups=[0, 0, 1, 1])
op("lower_bound_prange_", "Qc", "lower_bound_prange_({0}, &{1}, |_| true)", ["t:P"], lambda n, r: [(k,) for k in scans(*r)], **PTR)
op("lower_bound_pslice_", "Sc", "lower_bound_pslice_({0}, &{1}, |_| true)", ["t:P"], lambda n, r: [(k,) for k in scans(*r)], **PTR)
op("binary_search_by_prange_ Ok", "Qc", "binary_search_by_prange_({0}, &{1}, |_| Ordering::Equal).ok().unwrap()", ["t:P"], lambda n, r: [(k,) for k in range(*r)], **PTR)
op("binary_search_by_prange_ Err", "Qc", "binary_search_by_prange_({0}, &{1}, |_| Ordering::Less).err().unwrap()", ["t:P"], lambda n, r: [(k,) for k in scans(*r)], **PTR)
op("binary_search_by_pslice_ Ok", "Sc", "binary_search_by_pslice_({0}, &{1}, |_| Ordering::Equal).ok().unwrap()", ["t:P"], lambda n, r: [(k,) for k in range(*r)], **PTR)
op("binary_search_by_pslice_ Err", "Sc", "binary_search_by_pslice_({0}, &{1}, |_| Ordering::Less).err().unwrap()", ["t:P"], lambda n, r: [(k,) for k in scans(*r)], **PTR)
# pointer
op("ptr", "P", "{0}.ptr()", [], lambda n, i: NOTHING)
op("PIndex::after", "P", "{0}.after()", ["t:P"], lambda n, i: always(i + 1) if i < n else None)
op("PIndex no_proof", "P", "Provable::no_proof({0})", ["t:P"], lambda n, i: always(i), weak="out")
op("p == p", "PP", "{0} == {1}", [], lambda n, i, j: NOTHING, weak="same")
for K, F in (("Q", "PRange"), ("S", "PSlice")):
    op(F + " nonempty", K, "{0}.nonempty().unwrap()", ["t:" + K], lambda n, r: always(r) if r[0] < r[1] else [])
    op(F + " split_in_half", K, "{0}.split_in_half()", ["t.0:" + K, "t.1:" + K], lambda n, r: always((r[0], (r[0] + r[1]) // 2), ((r[0] + r[1]) // 2, r[1])))
    op(F + " first", K, "{0}.first()", ["t:P"], lambda n, r: always(r[0]))
    op(F + " upper_middle", K, "{0}.upper_middle()", ["t:P"], lambda n, r: always(r[0] + (r[1] - r[0]) // 2))
    op(F + " past_the_end", K, "{0}.past_the_end()", ["t:P"], lambda n, r: always(r[1]))
    op(F + " last", K, "{0}.last()", ["t:P"], lambda n, r: always(r[1] - 1) if r[0] < r[1] else None)
    op(F + " tail", K, "{0}.tail()", ["t:" + K], lambda n, r: always((r[0] + 1, r[1])) if r[0] < r[1] else None)
    op(F + " init", K, "{0}.init()", ["t:" + K], lambda n, r: always((r[0], r[1] - 1)) if r[0] < r[1] else None)
    op(F + " advance", K, "{{ let mut k = {0}; k.advance(); k }}", ["t:" + K], lambda n, r: always((r[0] + 1, r[1])) if r[0] + 1 < r[1] else always(r), weak="ne")
    op(F + " advance_back", K, "{{ let mut k = {0}; k.advance_back(); k }}", ["t:" + K], lambda n, r: always((r[0], r[1] - 1)) if r[0] + 1 < r[1] else always(r), weak="ne")
    op(F + " no_proof", K, "Provable::no_proof({0})", ["t:" + K], lambda n, r: always(r), weak="out")
    op(F + " PointerRange::first", K, "PointerRange::first({0})", ["t:P"], lambda n, r: always(r[0]), weak="out")
    op(F + " PointerRange::end", K, "PointerRange::end({0})", ["t:P"], lambda n, r: always(r[1]))
    op(F + " ==", K + K, "{0} == {1}", [], lambda n, r, s: NOTHING)
op("PSlice from PRange", "Q", "PSlice::from({0})", ["t:S"], lambda n, r: always(r))
op("PRange from PSlice", "S", "PRange::from({0})", ["t:Q"], lambda n, r: always(r))
op("PRange into_iter next", "Q", "{0}.into_iter().next().unwrap()", ["t:P"], lambda n, r: [(r[0],)] if r[0] < r[1] else [])
op("PRange into_iter next_back", "Q", "{0}.into_iter().next_back().unwrap()", ["t:P"], lambda n, r: [(r[1] - 1,)] if r[0] < r[1] else [])
op("PRange into_iter into_range", "Q", "{0}.into_iter().into_range()", ["t:Q"], lambda n, r: [((a, b),) for a in scans(*r) for b in scans(a, r[1])])

MARKS = ("NonEmpty", "Unknown")
POINT = "IP"
TYPES = {"I": "Index<'%s, %s>", "R": "Range<'%s, %s>", "P": "PIndex<'%s, i32, %s>", "Q": "PRange<'%s, i32, %s>", "S": "PSlice<'%s, i32, %s>"}
SAME = dict(I="same_i", R="same_r", P="same_p", Q="same_q", S="same_s")


def values(kind, mark, n):
    if kind in POINT:
        return range(n) if mark == "NonEmpty" else range(n + 1)
    return [(a, b) for a in range(n + 1) for b in range(a + (mark == "NonEmpty"), n + 1)]


def proven(kind, v, n):
    return v < n if kind in POINT else v[0] < v[1]


def model(sp, o, marks):
    """(defined for all operands of these markings?, per result: never empty?, any result at all?)"""
    defined, always_ne, some = True, [True] * len(o.outs), False
    ks = [k for k in o.kinds if k != "c"]
    for n in range(DATA + 1):
        for vs in itertools.product(*(values(k, m, n) for k, m in zip(ks, marks))):
            sp.states += 1
            res = o.sem(n, *vs)
            if res is None:
                defined = False
                continue
            after = n + 1 if o.key == "push" else n
            for outs in res:
                some = True
                for j, v in enumerate(outs):
                    always_ne[j] = always_ne[j] and proven(o.outs[j][1], v, after)
    return defined, always_ne, some


def marks_of(o):
    return list(itertools.product(MARKS, repeat=sum(k != "c" for k in o.kinds)))


def container_type(o, brand):
    return ("Gr<'%s>" if o.need == "push" else "Sl<'%s, '_>") % brand


def fn_args(o, marks, brands):
    """Parameters x0, x1, ... of the given markings and brands."""
    ms, out = iter(marks), []
    for j, k in enumerate(o.kinds):
        out.append("mut x%d: %s" % (j, container_type(o, brands[j]) if k == "c" else TYPES[k] % (brands[j], next(ms))))
    return ", ".join(out)


def code(o, names=None):
    return o.code.format(*(names or ["x%d" % j for j in range(len(o.kinds))]))


def acc(a):
    return a.replace("{{", "{").replace("}}", "}")


def short(marks):
    return "/".join(m[0] for m in marks)


# ---------------------------------------------------------------- C15: markings

PROOF_USES = {
    "I": ["use_(&c[x]);", "x.after();", "let y: Index<'_, NonEmpty> = x;", "let mut y = x; c.forward(&mut y);", "c.split_after(x);"],
    "R": ["use_(&c[x.first()]);", "use_(&c[x.upper_middle()]);", "x.lower_middle();", "x.last();", "x.tail();", "x.init();",
          "x.advance_();", "let mut y = x; y.advance();", "let mut y = x; y.advance_by(1);", "let mut y = x; y.advance_back();",
          "let y: Range<'_, NonEmpty> = x;", "use_(&c[x.split_in_half().1.first()]);", "use_(&c[c.empty_range().join_cover_both(x).first()]);"],
    "P": ["use_(&c[x]);", "x.after();", "let y: PIndex<'_, i32, NonEmpty> = x;"],
    "Q": ["use_(&c[x.first()]);", "use_(&c[x.upper_middle()]);", "x.last();", "x.tail();", "x.init();", "let mut y = x; y.advance();", "let mut y = x; y.advance_back();",
          "let y: PRange<'_, i32, NonEmpty> = x;", "use_(&c[x.split_in_half().1.first()]);", "c.rotate1_prange(x);"],
    "S": ["use_(&c[x.first()]);", "use_(&c[x.upper_middle()]);", "x.last();", "x.tail();", "x.init();", "let mut y = x; y.advance();", "let mut y = x; y.advance_back();",
          "let y: PSlice<'_, i32, NonEmpty> = x;", "use_(&c[x.split_in_half().1.first()]);"],
}


def c15(sp):
    for o in OPS:
        for marks in marks_of(o):
            defined, ne, some = model(sp, o, marks)
            args = fn_args(o, marks, ["a"] * len(o.kinds))
            name = "%s[%s]" % (o.key, short(marks))
            # (an unmarked operand of an operation that could do without is neither promised nor forbidden)
            sp.add(name, o.key, defined if claimed(o, marks) or not defined else None, "fn run<'a>(%s) { let t = %s; }" % (args, code(o)))
            if not defined or not claimed(o, marks):
                continue
            for j, (a, k) in enumerate(o.outs):
                with_c = args if o.need == "push" else args + ", mut c: Sl<'a, '_>"
                for use in PROOF_USES[k]:
                    u = use
                    if o.need == "push":
                        u = use.replace("c[", "x0[").replace("c.", "x0.")
                    sp.add("%s out %d: %s" % (name, j, use), "use " + k + " " + use, None if ne[j] and o.weak == "out" else ne[j],
                           "fn run<'a>(%s) { let t = %s; let x = %s; %s }" % (with_c, code(o), acc(a), u))
    # ranges with two points may be backwards
    sp.add("range_of(i..j)", "two", False, "fn run<'a>(c: Sl<'a, '_>, i: Index<'a>, j: Index<'a>) { c.range_of(i..j); }")
    sp.add("pointer_range_of(p..q)", "two", False, "fn run<'a>(c: Sl<'a, '_>, i: PIndex<'a, i32>, j: PIndex<'a, i32>) { c.pointer_range_of(i..j); }")
    sp.add("range_of(i..) control", "two", True, "fn run<'a>(c: Sl<'a, '_>, i: Index<'a>, j: Index<'a>) { c.range_of(i..); c.range_of(..j); }")
    for k, t in TYPES.items():
        ne, un = t % ("a", "NonEmpty"), t % ("a", "Unknown")
        sp.add("coerce U to N: " + k, "coerce", False, "fn run<'a>(x: %s) -> %s { x }" % (un, ne))
        sp.add("coerce N to N: " + k, "coerce", True, "fn run<'a>(x: %s) -> %s { x }" % (ne, ne))
        sp.add("into U to N: " + k, "coerce", False, "fn run<'a>(x: %s) -> %s { From::from(x) }" % (un, ne))
        sp.add("any P: " + k, "coerce", False, "fn run<'a, P>(x: %s) -> %s { x }" % (t % ("a", "P"), ne))
        sp.add("any P same: " + k, "coerce", True, "fn run<'a, P>(x: %s) -> %s { x }" % (t % ("a", "P"), t % ("a", "P")))
        # a marking of the client's own proves nothing
        use = "use_(&c[x]);" if k in POINT else "use_(&c[x.first()]);"
        sp.add("generic marking used: " + k, "coerce", False, "fn run<'a, P>(c: Sl<'a, '_>, x: %s) { %s }" % (t % ("a", "P"), use))
    sp.add("ProofAdd for tuples of own types", "proofadd", False, "enum Mine {} impl ProofAdd for (Mine, Unknown) { type Sum = NonEmpty; }")
    sp.add("ProofAdd for own type", "proofadd", True, "enum Mine {} impl ProofAdd for Mine { type Sum = NonEmpty; }")


def c15_deep(sp):
    """Two operations in a row: the second consumes a result of the first."""
    unary = [o for o in OPS if sum(k != "c" for k in o.kinds) == 1 and o.need != "push" and o.kinds.count("c") <= 1]
    table = {}
    for o in unary:
        for marks in marks_of(o):
            table[o.key, marks] = model(sp, o, marks)
    base = {p.name: p for p in sp.progs}
    for o in OPS:
        if o.need == "push" or o.kinds.count("c") > 1:
            continue
        for marks in marks_of(o):
            defined, ne, some = model(sp, o, marks)
            n1 = "%s[%s]" % (o.key, short(marks))
            if not defined or n1 not in base:
                continue
            args = fn_args(o, marks, ["a"] * len(o.kinds)) + ", mut c: Sl<'a, '_>"
            for j, (a, k) in enumerate(o.outs):
                for o2 in unary:
                    if [x for x in o2.kinds if x != "c"] != [k]:
                        continue
                    m = ("NonEmpty",) if ne[j] else ("Unknown",)
                    d2, ne2, _ = table[o2.key, m]
                    first = "%s out %d: %s" % (n1, j, PROOF_USES[k][0])
                    second = "%s[%s]" % (o2.key, short(m))
                    if ne[j] and first not in base:
                        continue    # the type is more careful than the model: no claim about what follows
                    names = ["c" if x == "c" else "x" for x in o2.kinds]
                    pre = "let t = %s; let x = %s; let t = %s; " % (code(o), acc(a), code(o2, names))
                    sp.add("%s out %d then %s" % (n1, j, o2.key), "then " + o2.key, d2 if (not d2 or second in base) else None,
                           "fn run<'a>(%s) { %s }" % (args, pre))
                    if not d2:
                        continue
                    for j2, (a2, k2) in enumerate(o2.outs):
                        u = PROOF_USES[k2][0]
                        exp = ne2[j2]
                        if exp and "%s out %d: %s" % (second, j2, u) not in base:
                            exp = None
                        sp.add("%s out %d then %s out %d: %s" % (n1, j, o2.key, j2, u), "then use " + k2, exp,
                               "fn run<'a>(%s) { %slet x = %s; %s }" % (args, pre, acc(a2), u))


# ---------------------------------------------------------------- C14: brands

MAKE = {
    ("I", "NonEmpty"): "{c}.vet(0).unwrap()", ("I", "Unknown"): "{c}.range().past_the_end()",
    ("R", "NonEmpty"): "{c}.range().nonempty().unwrap()", ("R", "Unknown"): "{c}.range()",
    ("P", "NonEmpty"): "{c}.pointer_range().nonempty().unwrap().first()", ("P", "Unknown"): "{c}.pointer_range().past_the_end()",
    ("Q", "NonEmpty"): "{c}.pointer_range().nonempty().unwrap()", ("Q", "Unknown"): "{c}.pointer_range()",
    ("S", "NonEmpty"): "{c}.pointer_slice().nonempty().unwrap()", ("S", "Unknown"): "{c}.pointer_slice()",
}


def lets(o, marks, brands, conts):
    """let xJ = ...; for the values; containers are named by brand."""
    ms, out, names = iter(marks), [], []
    for j, k in enumerate(o.kinds):
        if k == "c":
            names.append(conts[brands[j]])
        else:
            out.append("let x%d = %s;" % (j, MAKE[k, next(ms)].format(c=conts[brands[j]])))
            names.append("x%d" % j)
    return " ".join(out), names


def fits(o, brands):
    by = {}
    for g, b in zip(o.groups, brands):
        by.setdefault(g, set()).add(b)
    return all(len(s) == 1 for s in by.values())


BOUNDS = {"unrelated": "'a, 'b", "a outlives b": "'a: 'b, 'b", "b outlives a": "'a, 'b: 'a"}


def c14(sp):
    kinds = sorted(TYPES.items())
    for o in OPS:
        for marks in marks_of(o):
            defined, ne, some = model(sp, o, marks)
            if not defined or not claimed(o, marks):
                continue
            tag = "%s[%s]" % (o.key, short(marks))
            n = len(o.kinds)
            # which brands the operands have
            for brands in itertools.product("ab", repeat=n):
                ok = fits(o, brands)
                if n > 1:
                    for bn, bounds in BOUNDS.items():
                        sp.add("%s brands %s, %s" % (tag, "".join(brands), bn), o.key, ok,
                               "fn run<%s>(%s) { let t = %s; }" % (bounds, fn_args(o, marks, brands), code(o)))
                    st = ["static" if b == "b" else "a" for b in brands]
                    sp.add("%s brands %s" % (tag, " ".join(st)), o.key, ok, "fn run<'a>(%s) { let t = %s; }" % (fn_args(o, marks, st), code(o)))
                    # real scopes, nested
                    grow = o.need == "push"
                    l, names = lets(o, marks, brands, dict(a="ca", b="cb"))
                    conv = "let mut ca = ca.only_index(); let mut cb = cb.only_index(); " if grow else ""
                    arg = ("xs: Vec<i32>, ys: Vec<i32>" if grow else "xs: &mut [i32], ys: &mut [i32]")
                    if not (o.kinds.count("c") > 1 and o.need == "mut"):
                        sp.add("%s scopes %s" % (tag, "".join(brands)), o.key, ok,
                               "fn run(%s) { scope(xs, |mut ca| scope(ys, |mut cb| { %s%s let t = %s; })) }" % (arg, conv, l, code(o, names)))
                        if o.need == "read":
                            sp.add("%s scopes of the same data %s" % (tag, "".join(brands)), o.key, ok,
                                   "fn run(xs: &[i32]) { scope(xs, |mut ca| scope(xs, |mut cb| { %s let t = %s; })) }" % (l, code(o, names)))
                    # a twin is the same brand, for indices
                    if o.kinds[0] == "c" and not grow:
                        l, names = lets(o, marks, brands, dict(a="ca", b="ct"))
                        okt = o.mode != "ptr" or set(brands) == {"a"}
                        if o.mode == "ptr" and any(b == "b" for b, k in zip(brands, o.kinds) if k != "c"):
                            okt = False     # the twin gives out no pointers
                        sp.add("%s twin %s" % (tag, "".join(brands)), o.key, okt,
                               "fn run(xs: &mut [i32], ys: &mut [i32]) { scope(xs, |mut ca| { let mut ct = ca.make_twin(ys).unwrap(); %s let t = %s; }) }" % (l, code(o, names)))
                    # a clone designates the same data
                    if o.kinds[0] == "c" and o.need == "read":
                        l, names = lets(o, marks, brands, dict(a="ca", b="cb"))
                        sp.add("%s clone %s" % (tag, "".join(brands)), o.key, True,
                               "fn run(xs: &[i32]) { scope(xs, |mut ca| { let mut cb = ca.clone(); %s let t = %s; }) }" % (l, code(o, names)))
                    # halves of a split container
                    if o.kinds[0] == "c" and not grow:
                        for hn, h in (("first and second", ("h1", "h2")), ("second and first", ("h2", "h1"))):
                            l, names = lets(o, marks, brands, dict(a=h[0], b=h[1]))
                            sp.add("%s split %s %s" % (tag, hn, "".join(brands)), o.key, ok,
                                   "fn run(xs: &mut [i32]) { scope(xs, |mut ca| { let m = ca.pointer_range().upper_middle(); ca.split_container_at_pointer(m, |mut h1, r1, mut h2, r2| { %s let t = %s; }) }) }" % (l, code(o, names)), "ptr")
                        if brands[0] == "a":
                            for h in ("h1", "h2"):
                                # values of the whole container, taken before
                                pre, names = [], []
                                inner, ms = [], iter(marks)
                                for j, k in enumerate(o.kinds):
                                    if k == "c":
                                        names.append(h)
                                        continue
                                    s = "let x%d = %s;" % (j, MAKE[k, next(ms)].format(c=h if brands[j] == "a" else "ca"))
                                    (inner if brands[j] == "a" else pre).append(s)
                                    names.append("x%d" % j)
                                sp.add("%s split %s or whole %s" % (tag, h, "".join(brands)), o.key, ok,
                                       "fn run(xs: &mut [i32]) { scope(xs, |mut ca| { let m = ca.pointer_range().upper_middle(); %s ca.split_container_at_pointer(m, |mut h1, r1, mut h2, r2| { %s let t = %s; }) }) }" % (" ".join(pre), " ".join(inner), code(o, names)), "ptr")
            # which brand the results have
            if len(set(o.groups)) == 1:
                args = fn_args(o, marks, ["a"] * n)
                for j, (a, k) in enumerate(o.outs):
                    for wn, w, g, ok in (("a", "a", "'a", True), ("b", "b", "'a, 'b", False), ("b, a outlives b", "b", "'a: 'b, 'b", False),
                                         ("b, b outlives a", "b", "'a, 'b: 'a", False), ("static", "static", "'a", False)):
                        sp.add("%s out %d has brand %s" % (tag, j, wn), "brand of " + o.key, ok,
                               "fn run<%s>(%s, w: %s) { let t = %s; let x = %s; %s(x, w); }" % (g, args, TYPES[k] % (w, "Unknown"), code(o), acc(a), SAME[k]))
                    # leaving the scope
                    grow = o.need == "push"
                    l, names = lets(o, marks, "a" * n, dict(a="ca"))
                    conv = "let mut ca = ca.only_index(); " if grow else ""
                    arg = "xs: Vec<i32>" if grow else "xs: &mut [i32]"
                    body = "%s%s let t = %s; let x = %s;" % (conv, l, code(o, names), acc(a))
                    for en, pre, inner, post, ok in (("stays", "", "use_(x);", "", True), ("returned", "let y = ", "x", "", False),
                                                     ("stored", "let mut y = None; ", "y = Some(x);", "", False), ("as static", "", "is_static(x);", "", False)):
                        sp.add("%s out %d %s" % (tag, j, en), "escape " + o.key, ok, "fn run(%s) { %sscope(xs, |mut ca| { %s %s }); }" % (arg, pre, body, inner))
    # every type keeps its brand
    stores = dict(sh="&'d [i32]", mu="&'d mut [i32]", vec="Vec<i32>", mvec="&'d mut Vec<i32>")
    ts = {}
    for k, t in kinds:
        for m in MARKS:
            ts[k + m[0]] = t.replace("'%s, ", "'{0}, ").replace("%s", m)
    ts["RangeIter"] = "RangeIter<'{0}>"
    ts["Subdivide"] = "Subdivide<'{0}>"
    ts["PRangeIter"] = "PRangeIter<'{0}, i32>"
    for s, t in stores.items():
        ts["Container " + s] = "Container<'{0}, %s>" % t
        ts["Container " + s + " OnlyIndex"] = "Container<'{0}, %s, OnlyIndex>" % t
    wraps = {"": "{0}", "& ": "&'d {0}", "Option ": "Option<{0}>", "fn ": "fn({0})", "fn -> ": "fn() -> {0}"}
    for tn, t in ts.items():
        for wn, w in wraps.items():
            a, b, st = (w.format(t.format(x)) for x in ("a", "b", "static"))
            nd = "std" if "Vec" in t else ""
            sp.add("variance %s%s same" % (wn, tn), "variance " + wn + tn, True, "fn run<'a, 'd>(x: %s) -> %s { x }" % (a, a), nd)
            for gn, g, f, to in (("shrink", "'a: 'b, 'b, 'd", a, b), ("grow", "'a, 'b: 'a, 'd", a, b), ("unrelated", "'a, 'b, 'd", a, b),
                                 ("from static", "'a, 'd", st, a), ("to static", "'a, 'd", a, st)):
                sp.add("variance %s%s %s" % (wn, tn, gn), "variance " + wn + tn, False, "fn run<%s>(x: %s) -> %s { x }" % (g, f, to), nd)
        for gn, g, f, to in (("unrelated", "'a, 'b, 'd", "a", "b"), ("shrink", "'a: 'b, 'b, 'd", "a", "b"), ("static", "'a, 'd", "a", "static")):
            sp.add("convert %s %s by From" % (tn, gn), "convert " + tn, False, "fn run<%s>(x: %s) -> %s { From::from(x) }" % (g, t.format(f), t.format(to)))
        sp.add("convert %s same by From" % tn, "convert " + tn, True, "fn run<'a, 'd>(x: %s) -> %s { From::from(x) }" % (t.format("a"), t.format("a")))
    # containers: brand of what is made from them, and leaving the scope
    for on, e in (("clone", "x.clone()"), ("make_twin", "x.make_twin(ys).unwrap()"), ("only_index", "x.only_index()"), ("itself", "x")):
        for wn, w, g, ok in (("a", "a", "'a", True), ("b", "b", "'a, 'b", False), ("b, a outlives b", "b", "'a: 'b, 'b", False), ("b, b outlives a", "b", "'a, 'b: 'a", False), ("static", "static", "'a", False)):
            sp.add("container %s has brand %s" % (on, wn), "container " + on, ok, "fn run<%s>(x: Sh<'a, '_>, ys: &[i32], w: Sh<'%s, '_>) { let y = %s; same_c(&y, &w); }" % (g, w, e))
        for en, pre, inner, ok in (("stays", "", "use_(y);", True), ("returned", "let z = ", "y", False), ("stored", "let mut z = None; ", "z = Some(y);", False), ("as static", "", "is_static(y);", False)):
            sp.add("container %s %s" % (on, en), "escape container " + on, ok, "fn run(xs: &'static [i32], ys: &'static [i32]) { %sscope(xs, |x| { let y = %s; %s }); }" % (pre, e, inner))
    for it, e in (("RangeIter", "c.range().into_iter()"), ("Subdivide", "c.range().subdivide(2)"), ("PRangeIter", "c.pointer_range().into_iter()")):
        for en, pre, inner, ok in (("stays", "", "use_(y);", True), ("returned", "let z = ", "y", False), ("stored", "let mut z = None; ", "z = Some(y);", False), ("as static", "", "is_static(y);", False)):
            sp.add("%s %s" % (it, en), "escape " + it, ok, "fn run(xs: &[i32]) { %sscope(xs, |c| { let y = %s; %s }); }" % (pre, e, inner), "ptr" if it[0] == "P" else "")
        item = "c[y.next().unwrap()]" if it != "Subdivide" else "c[y.next().unwrap().first()]"
        for bn, b, g, ok in (("same", "a", "'a", True), ("other", "b", "'a, 'b", False), ("other, a outlives b", "b", "'a: 'b, 'b", False), ("static", "static", "'a", False)):
            sp.add("%s item, %s" % (it, bn), "item " + it, ok, "fn run<%s>(x: Sh<'a, '_>, c: Sh<'%s, '_>) { let mut y = %s; use_(&%s); }" % (g, b, e.replace("c.", "x."), item), "ptr" if it[0] == "P" else "")
    # ranges of two scopes, one after the other, through a generic function (as in the crate's own tests)
    for bn, x, y in (("own", "r1", "r2"), ("crossed", "r2", "r1")):
        sp.add("helper closures, " + bn, "helper", bn == "own", "fn with<Array: Trustworthy<Item = T>, F, Out, T>(arr: Array, f: F) -> Out where F: for<'id> FnOnce(Container<'id, Array>, Range<'id>) -> Out { scope(arr, move |v| { let r = v.range(); f(v, r) }) }\n"
               "fn run(xs: &[i32], ys: &[i32]) { with(xs, |c1, r1| with(ys, |c2, r2| { use_(&c1[%s]); use_(&c2[%s]); })) }" % (x, y))
    # the closure given to scope must take every brand
    sp.add("closure for one brand", "one brand", False, "fn run<'a>(xs: &[i32], o: &mut Option<Index<'a>>) { fn f<'a, 'd>(c: Sh<'a, 'd>, o: &mut Option<Index<'a>>) { *o = c.vet(0).ok(); } scope(xs, |c| f(c, o)) }")
    sp.add("closure for static", "one brand", False, "fn run(xs: &[i32]) { fn f<'d>(c: Sh<'static, 'd>) {} scope(xs, |c| f(c)) }")
    sp.add("closure for every brand", "one brand", True, "fn run(xs: &[i32]) { fn f<'a, 'd>(c: Sh<'a, 'd>) {} scope(xs, |c| f(c)) }")
    sp.add("function for every brand", "one brand", True, "fn run(xs: &[i32]) { fn f<'a, 'd>(c: Sh<'a, 'd>) {} scope(xs, f) }")
    sp.add("function for static", "one brand", False, "fn run(xs: &[i32]) { fn f<'d>(c: Sh<'static, 'd>) {} scope(xs, f) }")


# ---------------------------------------------------------------- C16: gates

# name: (type, can be changed, can grow, its length may change while it is held, may be copied)
STORES = {
    "&[T]": ("&'d [i32]", False, False, True),
    "&mut [T]": ("&'d mut [i32]", True, False, False),
    "&&[T]": ("&'d &'d [i32]", False, False, True),
    "&&mut [T]": ("&'d &'d mut [i32]", False, False, True),
    "&mut &[T]": ("&'d mut &'d [i32]", False, False, False),
    "&mut &mut [T]": ("&'d mut &'d mut [i32]", True, False, False),
    "Vec": ("Vec<i32>", True, True, False),
    "&mut Vec": ("&'d mut Vec<i32>", True, True, False),
    "&mut &mut Vec": ("&'d mut &'d mut Vec<i32>", True, True, False),
    "&Vec": ("&'d Vec<i32>", False, None, None),
    "&&Vec": ("&'d &'d Vec<i32>", False, None, None),
    "&&mut Vec": ("&'d &'d mut Vec<i32>", False, None, None),
}
MODES = {"pointers": "()", "only index": "OnlyIndex"}


def c16(sp):
    # what each kind of container allows
    for o in OPS:
        if "c" not in o.kinds:
            continue
        marks = ("NonEmpty",) * sum(k != "c" for k in o.kinds)
        for sn, (st, mut, grow, _) in STORES.items():
            for mn, mode in MODES.items():
                sp.states += 1
                ok = True
                if o.mode == "ptr" and mn != "pointers":
                    ok = False
                if o.need == "mut" and not mut:
                    ok = False
                if o.need == "push" and (mn != "only index" or not grow):
                    ok = False
                if ok and o.weak == "mode" and mn != "pointers":
                    ok = None
                ms, args = iter(marks), []
                for j, k in enumerate(o.kinds):
                    args.append("mut x%d: %s" % (j, "Container<'a, %s, %s>" % (st, mode) if k == "c" else TYPES[k] % ("a", next(ms))))
                sp.add("%s on %s, %s" % (o.key, sn, mn), o.key, ok, "fn run<'a, 'd>(%s) { let t = %s; }" % (", ".join(args), code(o)), "std" if "Vec" in sn else "")
                if o.need != "read" and ok:
                    sp.add("%s on %s, %s, through a shared reference" % (o.key, sn, mn), o.key, False,
                           "fn run<'a, 'd>(%s) { let t = %s; }" % (", ".join(a.replace("mut x0: ", "x0: &") if j == 0 else a for j, a in enumerate(args)), code(o)), "std" if "Vec" in sn else "")
    # copies
    for sn, (st, mut, grow, cp) in STORES.items():
        nd = "std" if "Vec" in sn else ""
        for mn, mode in MODES.items():
            c = "Container<'a, %s, %s>" % (st, mode)
            sp.states += 1
            sp.add("clone of %s, %s" % (sn, mn), "clone", cp, "fn run<'a, 'd>(x: &%s) -> %s { x.clone() }" % (c, c), nd)
            if cp is False:
                sp.add("copy of %s, %s" % (sn, mn), "copy", False, "fn run<'a, 'd>(x: %s) { let y = x; let z = x; use_(y); }" % c, nd)
            sp.add("move of %s, %s" % (sn, mn), "copy", True, "fn run<'a, 'd>(x: %s) { let y = x; use_(y); }" % c, nd)
            sp.add("only_index of %s, %s" % (sn, mn), "only_index", True, "fn run<'a, 'd>(x: %s) -> Container<'a, %s, OnlyIndex> { x.only_index() }" % (c, st), nd)
            # once given up, pointers stay given up
            sp.add("pointers back for %s, %s" % (sn, mn), "only_index", mn == "pointers", "fn run<'a, 'd>(x: %s) -> Container<'a, %s> { x }" % (c, st), nd)
            sp.add("pointers back for %s, %s by From" % (sn, mn), "only_index", mn == "pointers", "fn run<'a, 'd>(x: %s) -> Container<'a, %s> { From::from(x) }" % (c, st), nd)
            if cp is not None:
                sp.add("only_index of %s, %s keeps nothing behind" % (sn, mn), "only_index", False, "fn run<'a, 'd>(x: %s) { let y = x.only_index(); use_(x); use_(y); }" % c, nd)
            # twins
            for tn, (tt, _, tgrow, _) in STORES.items():
                ok = None if None in (grow, tgrow) else not (grow or tgrow)
                if (grow is None and tgrow) or (tgrow is None and grow):
                    ok = False
                sp.states += 1
                sp.add("twin of %s, %s: %s" % (sn, mn, tn), "twin", ok, "fn run<'a, 'd>(x: &%s, y: %s) { let t = x.make_twin(y).unwrap(); }" % (c, tt), "std" if "Vec" in sn + tn else "")
            # changing the data behind the container's back
    for mn, mode in (("pointers", ""), ("only index", ".only_index()")):
        for sn, store, touch in (("&v[..]", "&v[..]", "v[0] = 1;"), ("&mut v[..]", "&mut v[..]", "v[0] = 1;"), ("&v", "&v", "v.push(1);"), ("&mut v", "&mut v", "v.push(1);"),
                                 ("&mut v clear", "&mut v", "v.clear();"), ("v", "v", "v.push(1);"), ("&mut v[..] read", "&mut v[..]", "use_(v[0]);"), ("&mut v read", "&mut v", "use_(v.len());")):
            for when in ("inside", "after"):
                ok = when == "after" and store != "v"
                body = "scope(%s, |c| { let mut c = c%s; let r = c.range(); %s use_(&c[r]); }); %s" % (store, mode, touch if when == "inside" else "", touch if when == "after" else "")
                sp.add("storage %s changed %s, %s" % (sn, when, mn), "storage " + sn, ok if store != "v" else False, "fn run(mut v: Vec<i32>) { %s }" % body)
        sp.add("storage v, alone, %s" % mn, "storage v", True, "fn run(mut v: Vec<i32>) { scope(v, |c| { let mut c = c%s; let r = c.range(); use_(&c[r]); }); }" % mode)
    sp.add("storage outlives the scope", "dies", True, "fn run() { let v = vec![1]; let r = { scope(&v[..], |c| { let r = c.range(); 1 }); &v[..] }; use_(r); }")
    sp.add("storage dies inside", "dies", False, "fn run() { let r = { let v = vec![1]; scope(&v[..], |c| { let r = c.range(); 1 }); &v[..] }; use_(r); }")
    overlap(sp)
    forge(sp)


# borrowed access: expression, shared or mutable, mode
ACCESS = [
    ("&c[i]", "&c[i]", 0, ""), ("&c[r]", "&c[r]", 0, ""), ("&c[i..]", "&c[i..]", 0, ""), ("&c[..i]", "&c[..i]", 0, ""), ("&c[..]", "&c[..]", 0, ""),
    ("scan_from", "{ let mut s = None; c.scan_from(i, |y| { s = Some(y); true }); s }", 0, ""),
    ("scan_from_rev", "{ let mut s = None; c.scan_from_rev(i, |y| { s = Some(y); true }); s }", 0, ""),
    ("scan_range", "{ let mut s = None; c.scan_range(r, |y| { s = Some(y); true }); s }", 0, ""),
    ("&mut c[i]", "&mut c[i]", 1, ""), ("&mut c[r]", "&mut c[r]", 1, ""), ("&mut c[i..]", "&mut c[i..]", 1, ""), ("&mut c[..i]", "&mut c[..i]", 1, ""),
    ("index_twice", "c.index_twice(r, r).unwrap().0", 1, ""),
    ("&mut c[..]", "&mut c[..]", 1, "ptr"),
    ("&c[p]", "&c[p]", 0, "ptr"), ("&c[q]", "&c[q]", 0, "ptr"), ("&c[p..]", "&c[p..]", 0, "ptr"), ("&c[..p]", "&c[..p]", 0, "ptr"),
    ("&mut c[q]", "&mut c[q]", 1, "ptr"), ("&mut c[p..]", "&mut c[p..]", 1, "ptr"), ("&mut c[..p]", "&mut c[..p]", 1, "ptr"),
    ("scan_pointer_range", "{ let mut s = None; c.scan_pointer_range(q, |y| { s = Some(y); true }); s }", 0, "ptr"),
    ("scan_pointer_range_rev", "{ let mut s = None; c.scan_pointer_range_rev(q, |y| { s = Some(y); true }); s }", 0, "ptr"),
    ("zip", "{ let mut s = None; zip(q, &c, q2, &d, |y, _| { s = Some(y) }); s }", 0, "ptr"),
    ("zip mut", "{ let mut s = None; zip(q, &mut c, q2, &d, |y, _| { s = Some(y) }); s }", 1, "ptr"),
    ("zip second mut", "{ let mut s = None; zip(q2, &d, q, &mut c, |_, y| { s = Some(y) }); s }", 1, "ptr"),
]
CHANGES = [
    ("swap", "c.swap(i, i);", ""), ("rotate1_up", "c.rotate1_up(r);", ""), ("rotate1_down", "c.rotate1_down(r);", ""), ("zip_mut_raw", "c.zip_mut_raw(r, r, |_, _| ());", ""),
    ("c[i] =", "c[i] = 1;", ""), ("only_index", "c.only_index();", ""),
    ("swap_ptr", "c.swap_ptr(p, p);", "ptr"), ("rotate1_prange", "c.rotate1_prange(q);", "ptr"),
    ("split_container_at_pointer", "c.split_container_at_pointer(p, |_, _, _, _| ());", "ptr"),
    ("push", "c.push(1);", "grow"), ("insert", "c.insert(i, 1);", "grow"),
]


def overlap(sp):
    def go(name, template, ok, body, modes):
        if "ptr" in modes and "grow" in modes:
            return
        if "grow" in modes:
            args = "mut c: Gr<'a>, i: Index<'a>, r: Range<'a>"
        elif "ptr" in modes:
            args = "mut c: Sl<'a, '_>, i: Index<'a>, r: Range<'a>, p: PIndex<'a, i32>, q: PRange<'a, i32, NonEmpty>, d: Sh<'b, '_>, q2: PRange<'b, i32>"
        else:
            args = "mut c: Sl<'a, '_>, i: Index<'a>, r: Range<'a>"
        sp.states += 1
        sp.add(name, template, ok, "fn run<'a, 'b>(%s) { %s }" % (args, body), "ptr" if "ptr" in modes else "std" if "grow" in modes else "")
    for an, a, am, amode in ACCESS:
        for bn, b, bm, bmode in ACCESS:
            go("overlap: %s with %s" % (an, bn), "overlap", not am and not bm, "let x = %s; let y = %s; use_(x); use_(y);" % (a, b), (amode, bmode))
            go("in turn: %s with %s" % (an, bn), "overlap", True, "let x = %s; use_(x); let y = %s; use_(y);" % (a, b), (amode, bmode))
        for bn, b, bmode in CHANGES:
            go("held: %s during %s" % (an, bn), "held", False, "let x = %s; %s use_(x);" % (a, b), (amode, bmode))
            go("done: %s before %s" % (an, bn), "held", True, "let x = %s; use_(x); %s" % (a, b), (amode, bmode))
        # inside a callback
        for bn, f in (("scan_from", "c.scan_from(i, |_| { %s; true });"), ("scan_range", "c.scan_range(r, |_| { %s; true });")):
            go("callback of %s: %s" % (bn, an), "callback", not am, f % ("use_(%s)" % a), (amode,))
        go("callback of scan_pointer_range: %s" % an, "callback", not am, "c.scan_pointer_range(q, |_| { use_(%s); true });" % a, (amode, "ptr"))
        go("callback of scan_tail_: %s" % an, "callback", not am, "c.scan_tail_(p, |_| { use_(%s); true });" % a, (amode, "ptr"))
        go("callback of zip: %s" % an, "callback", not am, "zip(q, &c, q2, &d, |_, _| { use_(%s); });" % a, (amode, "ptr"))
        go("callback of zip mut: %s" % an, "callback", False, "zip(q, &mut c, q2, &d, |_, _| { use_(%s); });" % a, (amode, "ptr"))
        go("callback of zip_mut_raw: %s" % an, "callback", False, "c.zip_mut_raw(r, r, |_, _| { use_(%s); });" % a, (amode,))
        go("callback of split_container_at_pointer: %s" % an, "callback", False, "c.split_container_at_pointer(p, |_, _, _, _| { use_(%s); });" % a, (amode, "ptr"))
    go("callbacks that use nothing", "callback", True, "c.zip_mut_raw(r, r, |_, _| ()); zip(q, &mut c, q2, &d, |_, _| ()); c.split_container_at_pointer(p, |_, _, _, _| ());", ("ptr",))
    for x, y, ok in (("&c", "&c", True), ("&mut c", "&mut c", False), ("&c", "&mut c", False), ("&mut c", "&c", False)):
        go("zip of %s with %s" % (x, y), "zip self", ok, "zip(q, %s, q, %s, |_, _| ());" % (x, y), ("ptr",))
    for x, y in itertools.product(("&c", "&mut c"), ("&d", "&mut d")):
        sp.add("zip of %s with %s, different" % (x, y), "zip self", True, "fn run<'a, 'b>(mut c: Sl<'a, '_>, mut d: Sl<'b, '_>, q: PRange<'a, i32>, s: PSlice<'b, i32>) { zip(q, %s, s, %s, |_, _| ()); }" % (x, y))
    for x, y in itertools.product(("&c", "&mut c"), ("&d", "&mut d")):
        ok = "mut" not in x + y
        sp.add("zip of %s with %s, shared data" % (x, y), "zip shared", ok, "fn run<'a, 'b>(mut c: Sh<'a, '_>, mut d: Sh<'b, '_>, q: PRange<'a, i32>, s: PSlice<'b, i32>) { zip(q, %s, s, %s, |_, _| ()); }" % (x, y))
        sp.add("zip of %s with %s, only index" % (x, y), "zip shared", False, "fn run<'a, 'b>(mut c: Container<'a, &mut [i32], OnlyIndex>, mut d: Sl<'b, '_>, q: PRange<'a, i32>, s: PSlice<'b, i32>) { zip(q, %s, s, %s, |_, _| ()); }" % (x, y))
    # references do not outlive the borrow
    for an, a, am, amode in ACCESS:
        kind = "&'x mut " if am else "&'x "
        if "stash" in a or "{" in a:
            ret, conv = "Option<%si32>" % kind, ""
        elif a in ("&c[i]", "&mut c[i]", "&c[p]"):
            ret = kind + "i32"
        else:
            ret = kind + "[i32]"
        args = "i: Index<'a>, r: Range<'a>" + (", p: PIndex<'a, i32>, q: PRange<'a, i32, NonEmpty>, d: Sh<'b, '_>, q2: PRange<'b, i32>" if amode else "")
        e = a.replace("&mut c,", "&mut *c,").replace("&c,", "&*c,").replace("&mut c|", "c")
        for ln, lt, ok in (("the borrow's lifetime", "x", True), ("the data's lifetime", "d", None if not am else False), ("any lifetime", "y", False), ("static", "static", False)):
            r = ret.replace("'x", "'" + lt)
            body = "fn run<'a, 'b, 'd, 'x, 'y>(c: &'x mut Container<'a, &'d mut [i32]>, %s) -> %s { %s }" % (args, r, e)
            sp.add("lifetime of %s: %s" % (an, ln), "lifetime " + an, ok, body, "ptr" if amode else "")
    # the halves of a split container stay inside
    for en, pre, inner, ok in (("stays", "", "use_(a);", True), ("returned", "let y = ", "a", False), ("stored", "let mut y = None; ", "y = Some(a);", False)):
        for h in "abrs":
            go("half %s %s" % (h, en), "half", ok, "%sc.split_container_at_pointer(p, |a, r, b, s| { %s });" % (pre, inner.replace("a)", h + ")") if inner != "a" else h), ("ptr",))
    for en, e, ok in (("slice stays", "use_(&mut a[..]);", True), ("slice returned", "&mut a[..]", False)):
        go("half: " + en, "half", ok, "let y = c.split_container_at_pointer(p, |mut a, r, mut b, s| { %s });" % e, ("ptr",))


def forge(sp):
    """Making or changing trusted values by hand."""
    def no(name, body, needs=""):
        sp.add("forge: " + name, "forge", False, body, needs)
    H = "fn run<'a>(mut c: Container<'a, Vec<i32>, OnlyIndex>, mut d: Sl<'a, '_>, mut i: Index<'a>, mut e: Index<'a, Unknown>, mut r: Range<'a>, mut n: Range<'a, NonEmpty>) { %s }"
    HP = "fn run<'a>(mut d: Sl<'a, '_>, mut p: PIndex<'a, i32>, mut q: PRange<'a, i32>, mut s: PSlice<'a, i32>, x: *const i32) { %s }"
    sp.add("forge: nothing", "forge", True, H % "use_(&c[i]); use_(&d[r]);")
    sp.add("forge: nothing, pointers", "forge", True, HP % "use_(&d[p]); use_(&d[q]);")
    for s in ("let j: Index<'a> = Index::new(9);", "let j = Index::<'a, NonEmpty>::new(9);", "let j: Index<'a> = Index::assume_any_index(e);", "let j: Range<'a> = Range::from(0, 9);", "let j = Range::from_ne(0, 9);",
              "let j: Range<'a> = Range::from_any(0, 9);", "let j = Range::assume_nonempty_range(r);", "let j: Range<'a, NonEmpty> = Range::assume_any_range(r);",
              "i.index = 9;", "i.index += 1;", "let k = i.index;", "r.end = 9;", "r.start = 9;", "n.end = 0;", "let k = c.arr;", "let k = &c.arr;", "c.arr.clear();", "let k = c.array();", "c.array_mut().clear();", "d.array_mut();", "c.mode;", "c.id;",
              "let mut t = n.into_iter(); t.end = 9;", "let mut t = n.into_iter(); t.start = 9;", "let mut t = n.subdivide(2); t.range = r;", "let k = i.id;", "let k = i.proof;",
              "c.pop();", "c.clear();", "c.truncate(0);", "c.remove(0);", "c.swap_remove(0);", "c.drain(..);", "c.set_len(0);", "c.reserve(9);", "c.into_inner();", "use_(&c[9usize]);", "use_(&d[0usize]);", "use_(&d[0..1]);", "d[0usize] = 1;",
              "d.arr = &mut [];", "use_(&d[i..i]);", "use_(&d[e..i]);", "use_(&d[i..=i]);", "i += 1;", "let k = i + 1usize;", "let k = i - 1usize;", "*i = 9;", "let k: &mut Vec<i32> = &mut *c;", "let k: &mut &mut [i32] = &mut *d;",
              "c.extend([1]);", "c.append(&mut vec![1]);", "c.as_mut_slice();", "c.as_mut_vec();", "d.push(1);", "d.insert(i, 1);"):
        if s in ("c.reserve(9);", "c.append(&mut vec![1]);", "c.extend([1]);", "c.into_inner();", "use_(&d[i..i]);", "use_(&c[9usize]);", "use_(&d[0usize]);", "use_(&d[0..1]);", "d[0usize] = 1;", "c.as_mut_slice();", "let k = i.id;", "let k = i.proof;", "c.mode;", "c.id;", "let k = i.index;", "use_(&d[e..i]);", "use_(&d[i..=i]);"):
            continue    # harmless, if done right
        no(s, H % s)
    for s in ("let j: PIndex<'a, i32> = PIndex::new(x);", "let j = PIndex::<'a, i32>::inbounds(x);", "let j: PRange<'a, i32> = PRange::new(x, x);", "let j: PSlice<'a, i32> = PSlice::new(x, 9);", "p.idx = x;", "q.start = x;", "q.end = x;", "s.len = 9;", "s.start = x;",
              "PRangeIter(q);", "let mut t = q.into_iter(); t.0 = q;", "p.idx = p.ptr();", "*p = 9;", "p += 1;", "let k = p + 1usize;", "p.inc();", "p.dec();", "let j: PIndex<'a, i32> = x.into();", "let j: PIndex<'a, i32> = p.offset(1);"):
        no(s, HP % s, "ptr")
    for s in ("Index { id: i.id, index: 9, proof: std::marker::PhantomData }", "Index { index: 9, ..i }", "Range { start: 0, end: 9, ..r }", "RangeIter { start: 0, end: 9, ..r.into_iter() }", "Container { arr: vec![1], ..c }", "Container { mode: std::marker::PhantomData, arr: &mut [], ..d }"):
        no(s, H % ("let k = %s;" % s))
    for s in ("PIndex { idx: x, ..p }", "PRange { end: x, ..q }", "PSlice { len: 9, ..s }"):
        no(s, HP % ("let k = %s;" % s), "ptr")
    # traits that would make or change them
    ts = ["Index<'a>", "Index<'a, Unknown>", "Range<'a>", "Range<'a, NonEmpty>", "RangeIter<'a>", "Subdivide<'a>", "PIndex<'a, i32>", "PIndex<'a, i32, Unknown>", "PRange<'a, i32>", "PRange<'a, i32, NonEmpty>", "PRangeIter<'a, i32>", "PSlice<'a, i32>", "PSlice<'a, i32, NonEmpty>",
          "Container<'a, &'a [i32]>", "Container<'a, &'a mut [i32]>", "Container<'a, Vec<i32>>", "Container<'a, Vec<i32>, OnlyIndex>", "Container<'a, &'a mut Vec<i32>, OnlyIndex>"]
    traits = ["Default", "From<usize>", "From<u32>", "From<i32>", "From<(usize, usize)>", "From<ops::Range<usize>>", "From<*const i32>", "From<*mut i32>", "From<&'static [i32]>", "From<Vec<i32>>", "std::str::FromStr", "ops::AddAssign<usize>", "ops::SubAssign<usize>", "ops::Add<usize, Output = T>", "ops::Sub<usize, Output = T>",
              "ops::DerefMut<Target = usize>", "ops::DerefMut<Target = Vec<i32>>", "ops::DerefMut<Target = ops::Range<usize>>", "ops::DerefMut<Target = &'a mut [i32]>", "ops::DerefMut<Target = &'a [i32]>", "AsMut<usize>", "AsMut<Vec<i32>>", "std::borrow::BorrowMut<usize>", "std::borrow::BorrowMut<Vec<i32>>",
              "std::iter::Sum<usize>", "std::iter::FromIterator<usize>", "std::iter::FromIterator<i32>", "ops::Neg<Output = T>", "ops::Not<Output = T>", "ops::Mul<usize, Output = T>"]
    for t in ts:
        needs = ("std " if "Vec" in t else "") + ("ptr" if t[0] == "P" else "")
        for tr in traits:
            sp.states += 1
            if tr == "Default" and t in ("Index<'a, Unknown>", "Range<'a>", "RangeIter<'a>", "Subdivide<'a>"):
                continue    # could be empty
            no("%s: %s" % (t, tr), "fn need<T: %s>() {} fn run<'a>() { need::<%s>() }" % (tr.replace("'a", "'static"), t.replace("'a", "'static")), needs + (" std" if "Vec" in tr else ""))
        sp.add("forge: %s: Sized" % t, "forge", True, "fn need<T: Sized>() {} fn run<'a>() { need::<%s>() }" % t.replace("'a", "'static"), needs)
    sp.add("forge: Container<Vec>: Extend", "forge", False, "fn need<T: Extend<i32>>() {} fn run() { need::<Container<'static, Vec<i32>>>() }")
    # promises about storage are unsafe to make
    impls = {
        "Trustworthy": ("{u}impl Trustworthy for S {{ type Item = i32; fn base_len(&self) -> usize {{ 9 }} }}", ""),
        "Contiguous": ("{u}impl Contiguous for T {{ fn begin(&self) -> *const i32 {{ self.0.as_ptr() }} fn end(&self) -> *const i32 {{ self.0.as_ptr() }} fn as_slice(&self) -> &[i32] {{ &self.0 }} }}", "T"),
        "GetUnchecked": ("{u}impl GetUnchecked for T {{ unsafe fn xget_unchecked(&self, i: usize) -> &i32 {{ &self.0[0] }} }}", "T"),
        "FixedLength": ("{u}impl FixedLength for T {{ }}", "T"),
        "OnePointRange": ("struct R<I>(I); impl<I: Copy> IndexRange<I> for R<I> {{ fn start(&self) -> Option<I> {{ Some(self.0) }} fn end(&self) -> Option<I> {{ Some(self.0) }} }} {u}impl<I: Copy> OnePointRange<I> for R<I> {{ }}", ""),
    }
    own = "pub struct S; pub struct T([i32; 1]); #[allow(unsafe_code)] unsafe impl Trustworthy for T { type Item = i32; fn base_len(&self) -> usize { 1 } }\n"
    for k, (b, _) in impls.items():
        for un, u, ok in (("unsafe", "unsafe ", True), ("safe", "", False)):
            sp.add("%s impl of %s" % (un, k), "impl " + k, ok, "UNSAFE" + own + b.format(u=u))
    more = {
        "GetUncheckedMut": "unsafe impl GetUnchecked for T { unsafe fn xget_unchecked(&self, i: usize) -> &i32 { &self.0[0] } } {u}impl GetUncheckedMut for T { unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut i32 { &mut self.0[0] } }",
        "ContiguousMut": "unsafe impl Contiguous for T { fn begin(&self) -> *const i32 { self.0.as_ptr() } fn end(&self) -> *const i32 { self.0.as_ptr() } fn as_slice(&self) -> &[i32] { &self.0 } } {u}impl ContiguousMut for T { fn begin_mut(&mut self) -> *mut i32 { self.0.as_mut_ptr() } fn end_mut(&mut self) -> *mut i32 { self.0.as_mut_ptr() } fn as_mut_slice(&mut self) -> &mut [i32] { &mut self.0 } }",
        "Pushable": "{u}impl Pushable for T { fn push(&mut self, item: i32) -> usize { 0 } unsafe fn insert_unchecked(&mut self, index: usize, item: i32) { } }",
        "PointerRange": "#[derive(Clone, Copy)] struct R<'a>(PRange<'a, i32>); {u}impl<'a> PointerRange<'a> for R<'a> { type Item = i32; fn first(self) -> PIndex<'a, i32, Unknown> { self.0.past_the_end() } fn end(self) -> PIndex<'a, i32, Unknown> { self.0.past_the_end() } fn len(self) -> usize { 9 } }",
        "ContainerRef": "{u}impl<'a> ContainerRef<'a> for T { type Item = i32; type Ref = (); unsafe fn dereference(ptr: *const i32) { } }",
    }
    for k, b in more.items():
        for un, u, ok in (("unsafe", "unsafe ", True), ("safe", "", False)):
            sp.add("%s impl of %s" % (un, k), "impl " + k, ok, "UNSAFE" + own + b.replace("{u}", u))
    calls = {
        "xget_unchecked": "fn run(x: &[i32]) { {x.xget_unchecked(0);} }", "xget_unchecked_mut": "fn run(x: &mut [i32]) { {x.xget_unchecked_mut(0);} }",
        "insert_unchecked": "fn run(x: &mut Vec<i32>) { {x.insert_unchecked(0, 1);} }",
        "dereference": "fn run<'a, 'd>(c: &'d Sl<'a, 'd>, p: *const i32) { {<&'d Sl<'a, 'd> as ContainerRef<'a>>::dereference(p);} }",
    }
    for k, b in calls.items():
        i = b.index("{ {") + 2
        for un, u, ok in (("unsafe", "unsafe ", True), ("safe", "", False)):
            sp.add("%s call of %s" % (un, k), "call " + k, ok, "UNSAFE" + b[:i] + u + b[i:])


# ---------------------------------------------------------------- C17: threads

# element type: (Send, Sync)
ELEMS = {"i32": (True, True), "Cell<i32>": (True, False), "Rc<i32>": (False, False), "MutexGuard<'static, i32>": (False, True), "*const i32": (False, False), "String": (True, True)}


def c17(sp):
    def auto(elem, shape):
        """(Send, Sync) of a storage"""
        s, y = ELEMS[elem]
        for c in reversed(shape):
            if c == "&":
                s, y = y, y
            # "m" (&mut) and "V" (Vec), "[" (slice) are Send, Sync as what they hold
        return s, y
    shapes = {"[": "[{0}]", "V": "Vec<{0}>"}
    stores = []
    for base in "[V":
        for depth in range(0 if base == "V" else 1, 4):
            for refs in itertools.product("&m", repeat=depth):
                stores.append("".join(refs) + base)
    def ty(st, elem):
        t = shapes[st[-1]].format(elem)
        for c in reversed(st[:-1]):
            t = ("&'d " if c == "&" else "&'d mut ") + t
        return t
    for st in stores:
        for elem in ELEMS:
            s, y = auto(elem, st[:-1])
            for mn, mode in MODES.items():
                sp.states += 1
                c = "Container<'a, %s, %s>" % (ty(st, elem), mode)
                nd = "std" if st[-1] == "V" else ""
                sp.add("send %s" % c, "send", s, "fn run<'a, 'd>() { send::<%s>() }" % c, nd)
                sp.add("sync %s" % c, "sync", y, "fn run<'a, 'd>() { sync::<%s>() }" % c, nd)
                sp.add("send &%s" % c, "send", y, "fn run<'a, 'd>() { send::<&%s>() }" % c, nd)
                sp.add("send &mut %s" % c, "send", s, "fn run<'a, 'd>() { send::<&mut %s>() }" % c, nd)
    for mn, mode in list(MODES.items()) + [("any mode", "M")]:
        for bn, b, s, y in (("", "", False, False), ("Send", ": Send", True, False), ("Sync", ": Sync", False, True), ("both", ": Send + Sync", True, True)):
            g = "'a, A%s, M%s" % (b, b) if mode == "M" else "'a, A" + b
            c = "Container<'a, A, %s>" % mode
            sp.add("send of any storage that is %s, %s" % (bn, mn), "generic send", s, "fn run<%s>() { send::<%s>() }" % (g, c))
            sp.add("sync of any storage that is %s, %s" % (bn, mn), "generic sync", y, "fn run<%s>() { sync::<%s>() }" % (g, c))
    for t in ("Index<'a>", "Index<'a, Unknown>", "Range<'a>", "Range<'a, NonEmpty>", "RangeIter<'a>", "Subdivide<'a>"):
        for w in ("{0}", "Option<{0}>", "&'static {0}", "({0}, {0})", "Vec<{0}>"):
            for u in ("send", "sync"):
                sp.states += 1
                sp.add("%s %s" % (u, w.format(t)), "value", True, "fn run() { %s::<%s>() }" % (u, w.format(t).replace("'a", "'static")), "std" if "Vec" in w else "")
                if w == "{0}":
                    sp.add("%s %s, any brand" % (u, t), "value", True, "fn run<'a>() { %s::<%s>() }" % (u, t))
    # real threads
    kinds = {"index": "c.vet(0).unwrap()", "edge": "c.range().past_the_end()", "range": "c.range()", "nonempty range": "c.range().nonempty().unwrap()", "iterator": "c.range().into_iter()", "subdivision": "c.range().subdivide(2)"}
    for kn, k in kinds.items():
        sp.add("spawn with " + kn, "spawn", True, "fn run(xs: &[i32]) { scope(xs, |c| { let x = %s; std::thread::scope(|s| { s.spawn(move || use_(x)); s.spawn(|| use_(&x)); }); }) }" % k)
        sp.add("spawn with %s, leaving the scope" % kn, "spawn", False, "fn run(xs: &[i32]) { scope(xs, |c| { let x = %s; std::thread::spawn(move || use_(x)); }) }" % k)
    for elem in ELEMS:
        s, y = ELEMS[elem]
        sp.add("threads read " + elem, "threads", y, "fn run<'d>(xs: &'d mut [%s]) { scope(xs, |c| { let r = c.range(); std::thread::scope(|s| { s.spawn(|| use_(&c[r])); s.spawn(|| use_(&c[r])); }); }) }" % elem)
        sp.add("thread owns " + elem, "threads", s, "fn run<'d>(xs: &'d mut [%s]) { scope(xs, |mut c| { let r = c.range(); std::thread::scope(|s| { s.spawn(move || use_(&mut c[r])); }); }) }" % elem)
        sp.add("thread borrows " + elem, "threads", s, "fn run<'d>(xs: &'d mut [%s]) { scope(xs, |mut c| { let r = c.range(); std::thread::scope(|s| { s.spawn(|| use_(&mut c[r])); }); }) }" % elem)
        sp.add("thread shares " + elem, "threads", y, "fn run<'d>(xs: &'d [%s]) { scope(xs, |mut c| { let r = c.range(); std::thread::scope(|s| { s.spawn(move || use_(&c[r])); }); }) }" % elem)
        sp.add("two threads change " + elem, "threads", False, "fn run<'d>(xs: &'d mut [%s]) { scope(xs, |mut c| { let r = c.range(); std::thread::scope(|s| { s.spawn(|| use_(&mut c[r])); s.spawn(|| use_(&mut c[r])); }); }) }" % elem)


SPACES = {"C14": [c14], "C15": [c15], "C16": [c16], "C17": [c17]}
DEEP = {"C15": [c15_deep]}


def space(prop):
    sp = Space(prop)
    for f in SPACES[prop]:
        f(sp)
    for f in DEEP.get(prop, ()):
        f(sp)
    return sp


# ---------------------------------------------------------------- compiling

def library(features, d):
    """The library as it stands, built for one set of features."""
    out = os.path.join(d, "libindexing.rmeta")
    cmd = ["rustc", "--edition", "2018", "--crate-name", "indexing", "--crate-type", "rlib", "--emit=metadata", "-Aunexpected_cfgs", "--cap-lints=allow", "-o", out]
    for f in features:
        cmd += ["--cfg", 'feature="%s"' % f]
    p = subprocess.run(cmd + [os.path.join(run.REPO, "src", "lib.rs")], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("building the library failed:\n" + p.stdout[-4000:])
    return out


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_", "RUSTC", "RUSTUP_TOOLCHAIN"))}
    return e


def source(progs, ptr):
    """One crate with a module per program; the first line of each."""
    # programs marked UNSAFE say so themselves; the others cannot
    un = any(p.body.startswith("UNSAFE") for p in progs)
    pre = PRE + (PRE_PTR if ptr else "") + "}\n"
    if un:
        pre = pre.replace("#![forbid(unsafe_code)]", "")
    if not any("std" in p.needs for p in progs):
        pass
    lines, starts = pre.count("\n"), []
    out = [pre]
    for k, p in enumerate(progs):
        body = p.body[len("UNSAFE"):] if p.body.startswith("UNSAFE") else p.body
        t = "mod p%d {\nuse super::pre::*;\n%s\n}\n" % (k, body)
        starts.append(lines + 1)
        lines += t.count("\n")
        out.append(t)
    return "".join(out), starts, lines


def compile_(lib, progs, d, ptr):
    """Set of programs with errors; whether the crate as a whole was accepted."""
    fd, f = tempfile.mkstemp(suffix=".rs", dir=d)
    src, starts, end = source(progs, ptr)
    with os.fdopen(fd, "w") as o:
        o.write(src)
    p = subprocess.run(["rustc", "--edition", "2021", "--crate-name", "client", "--crate-type", "rlib", "--emit=metadata", "--error-format=json", "--extern", "indexing=" + lib,
                        "-o", f[:-3] + ".rmeta", f], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    bad, codes = set(), {}
    for l in p.stderr.split("\n"):
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") == "error: internal compiler error":
            raise CheckError("the compiler failed: " + m["message"])
        if m.get("level") != "error":
            continue
        for s in m.get("spans", ()):
            if s.get("is_primary") and s["file_name"] == f:
                k = sum(1 for x in starts if x <= s["line_start"]) - 1
                if k >= 0:
                    bad.add(k)
                    codes.setdefault(k, m["message"])
    for x in (f, f[:-3] + ".rmeta"):
        if os.path.exists(x):
            os.unlink(x)
    if p.returncode not in (0, 1):
        raise CheckError("rustc: exit %d\n%s" % (p.returncode, p.stderr[-2000:]))
    return bad, p.returncode == 0, codes


def verdicts(lib, progs, d, ptr):
    """Accepted or not, for each program: several to a crate where that decides it, alone otherwise."""
    res, msg = {}, {}

    def alone(p):
        bad, ok, codes = compile_(lib, [p], d, ptr)
        res[p.name] = ok
        if codes:
            msg[p.name] = codes.get(0, "")

    def batch(ps):
        todo = list(ps)
        while todo:
            if len(todo) == 1:
                alone(todo[0])
                return
            bad, ok, codes = compile_(lib, todo, d, ptr)
            if ok:
                for p in todo:
                    res[p.name] = True
                return
            if not bad:
                for p in todo:
                    alone(p)
                return
            for k in bad:
                p = todo[k]
                if p.accept:
                    alone(p)    # to be sure
                else:
                    res[p.name] = False
                    msg[p.name] = codes.get(k, "")
            todo = [p for k, p in enumerate(todo) if k not in bad]
    groups = []
    for acc in (True, False):
        for un in (True, False):
            ps = [p for p in progs if p.accept == acc and p.body.startswith("UNSAFE") == un]
            n = max(1, min(150, -(-len(ps) // run.JOBS)))
            groups += [ps[i:i + n] for i in range(0, len(ps), n)]
    with concurrent.futures.ThreadPoolExecutor(run.JOBS) as ex:
        for f in [ex.submit(batch, g) for g in groups]:
            f.result()
    return res, msg


def check(prop, collect=None):
    t0 = time.time()
    sp = space(prop)
    templates = collections.defaultdict(set)
    for p in sp.progs:
        templates[p.template].add(p.accept)
    for t, v in templates.items():
        if True not in v and collect is None:
            raise CheckError("no program of kind '%s' is expected to be accepted" % t)
    configs = ["std-ptr", "nostd-ptr", "std-noptr", "nostd-noptr"]
    d = tempfile.mkdtemp(prefix="mcprograms")
    compiled, per, violations, rejected, why = 0, {}, 0, 0, collections.Counter()
    try:
        for c in configs:
            feats = CRATE_FEATURES[c]
            ptr = "experimental_pointer_ranges" in feats
            lib = library(feats, d)
            ps = [p for p in sp.progs if (ptr or "ptr" not in p.needs) and ("use_std" in feats or "std" not in p.needs)]
            if c == "std-noptr":
                ps = [p for p in ps if "std" in p.needs]      # the rest is the same as without std
            res, msg = verdicts(lib, ps, d, ptr)
            compiled += len(res)
            per[c] = len(res)
            for p in ps:
                if not res[p.name]:
                    rejected += 1
                    if c == "std-ptr":
                        why[msg.get(p.name, "")] += 1
                if res[p.name] != p.accept:
                    if collect is not None:
                        collect.append((c, p, msg.get(p.name, "")))
                    elif not violations:
                        bad, ok, codes = compile_(lib, [p], d, ptr)
                        if ok != res[p.name]:
                            raise CheckError("verdict on '%s' is not reproducible" % p.name)
                        m = "the compiler %s it (features %s); it must be %s%s" % ("accepts" if ok else "rejects", c, "rejected" if ok else "accepted", "" if ok else ": " + codes.get(0, ""))
                        violations += run.report(prop, "program", m, p.name, dict(program=p.body, needs=sorted(p.needs), features=c, accept=p.accept))
    finally:
        shutil.rmtree(d)
    step = max(1, len(sp.progs) // 12)
    samples = ["%s: %s: %s" % ("accepted" if p.accept else "rejected", p.name, p.body) for p in sp.progs[::step]][:14]
    cov = dict(states=sp.states, transitions=sp.transitions, traces_validated_against_impl=compiled, samples=samples, programs=len(sp.progs), programs_rejected=rejected, no_claim=sp.skipped,
               compiled_per_build=per, templates=len(templates), exhaustive=not violations,
               note="states: configurations of the reference type model evaluated; transitions: client programs considered; traces: programs given to the compiler, over all builds, and compared with the model's verdict")
    run.write_evidence(prop, cov, t0, violations, "model_checking", run.ASSUME + ["rustc's type and borrow checker decides the programs; the model covers the enumerated templates"])
    log("%s: %d programs, %d compilations, %.1f s" % (prop, len(sp.progs), compiled, time.time() - t0))
    return 1 if violations else 0


def replay(rec):
    p = Prog(rec["case_description"], "", rec["accept"], frozenset(rec["needs"]), rec["program"])
    d = tempfile.mkdtemp(prefix="mcprograms")
    try:
        feats = CRATE_FEATURES[rec["features"]]
        ptr = "experimental_pointer_ranges" in feats
        bad, ok, codes = compile_(library(feats, d), [p], d, ptr)
    finally:
        shutil.rmtree(d)
    print(p.body)
    print("%s; must be %s" % ("accepted" if ok else "rejected: " + codes.get(0, ""), "accepted" if p.accept else "rejected"))
    return 0 if ok == p.accept else 1


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for p in space(sys.argv[2]).progs:
            if len(sys.argv) < 4 or sys.argv[3] in p.name:
                print("accept" if p.accept else "reject", p.name, "|", p.body)
    elif sys.argv[1] == "show":
        for p in space(sys.argv[2]).progs:
            if p.name == sys.argv[3]:
                print(p.body)
    elif sys.argv[1] == "why":
        # the compiler's reasons for rejecting (to see that programs are rejected for what they are meant to be)
        sp = space(sys.argv[2])
        d = tempfile.mkdtemp(prefix="mcprograms")
        res, msg = verdicts(library(CRATE_FEATURES["std-ptr"], d), sp.progs, d, True)
        shutil.rmtree(d)
        n = collections.Counter()
        ex = {}
        for p in sp.progs:
            if not res[p.name]:
                m = __import__("re").sub("`[^`]*`", "`_`", msg[p.name])
                n[m] += 1
                ex.setdefault(m, p)
        for m, k in n.most_common():
            print(k, m, "|", ex[m].name, "|", ex[m].body)
    elif sys.argv[1] == "diff":
        out = []
        check(sys.argv[2], out)
        for c, p, m in out:
            print(c, "must", "accept" if p.accept else "reject", "|", p.name, "|", m, "|", p.body)
