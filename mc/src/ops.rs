//! Every safe index-based operation that derives indices and ranges, applied to every particle (and pair), with
//! the result the reference model expects.
use crate::*;
use indexing::container_traits::Contiguous;
use indexing::indexing::IntoCheckedRange;
use indexing::proof::{ProofAdd, Provable};
use indexing::{Container, Index, IndexingError, Range};
use std::collections::HashSet;

#[derive(Clone, Copy)]
pub enum Part<'id> {
    INe(Index<'id, NonEmpty>),
    IUk(Index<'id, Unknown>),
    RNe(Range<'id, NonEmpty>),
    RUk(Range<'id, Unknown>),
}

/// Proof markings at run time.
pub trait PTag: Tag + Sized {
    fn pi<'id>(i: Index<'id, Self>) -> Part<'id>;
    fn pr<'id>(r: Range<'id, Self>) -> Part<'id>;
}
impl PTag for NonEmpty {
    fn pi<'id>(i: Index<'id, Self>) -> Part<'id> { Part::INe(i) }
    fn pr<'id>(r: Range<'id, Self>) -> Part<'id> { Part::RNe(r) }
}
impl PTag for Unknown {
    fn pi<'id>(i: Index<'id, Self>) -> Part<'id> { Part::IUk(i) }
    fn pr<'id>(r: Range<'id, Self>) -> Part<'id> { Part::RUk(r) }
}

impl<'id> Part<'id> {
    pub fn v(&self) -> V {
        match *self {
            Part::INe(i) => V::I(true, i.integer()),
            Part::IUk(i) => V::I(false, i.integer()),
            Part::RNe(r) => V::R(true, r.start(), r.end()),
            Part::RUk(r) => V::R(false, r.start(), r.end()),
        }
    }
}

#[derive(Default)]
pub struct Out<'id> {
    pub v: Vec<V>,
    pub p: Vec<Part<'id>>,
}

impl<'id> Out<'id> {
    pub fn i<P: PTag>(&mut self, i: Index<'id, P>) -> &mut Self {
        let p = P::pi(i);
        self.v.push(p.v());
        self.p.push(p);
        self
    }
    pub fn r<P: PTag>(&mut self, r: Range<'id, P>) -> &mut Self {
        let p = P::pr(r);
        self.v.push(p.v());
        self.p.push(p);
        self
    }
    pub fn b(&mut self, b: bool) -> &mut Self { self.v.push(V::B(b)); self }
    pub fn n(&mut self, n: usize) -> &mut Self { self.v.push(V::N(n)); self }
    pub fn res_r<P: PTag>(&mut self, r: Result<Range<'id, P>, IndexingError>) -> &mut Self {
        match r { Ok(r) => self.r(r), Err(_) => { self.v.push(V::Err); self } }
    }
    pub fn res_i<P: PTag>(&mut self, r: Result<Index<'id, P>, IndexingError>) -> &mut Self {
        match r { Ok(r) => self.i(r), Err(_) => { self.v.push(V::Err); self } }
    }
    pub fn opt_i<P: PTag>(&mut self, r: Option<Index<'id, P>>) -> &mut Self {
        match r { Some(r) => self.i(r), None => { self.v.push(V::None); self } }
    }
}

/// How to explore.
#[derive(Clone)]
pub struct Cfg {
    pub mode: Mode,
    /// which groups of operations are executed
    pub groups: u32,
    /// explore results in turn (closure), or only the given start particles
    pub closure: bool,
    /// start from particles at these points (made by checking integers); empty: only from the container itself
    pub seeds: Vec<usize>,
    pub ks: Vec<usize>,
    pub pairs: bool,
    /// scans may run to the end of the container
    pub long_scans: bool,
}

pub struct Eng<'a, 'id> {
    pub ctx: &'a mut Ctx,
    pub n: usize,
    pub cfg: Cfg,
    out: Out<'id>,
    seen: HashSet<V>,
    all: Vec<Part<'id>>,
    work: Vec<Part<'id>>,
}

macro_rules! op {
    ($e:expr, $g:expr, $name:expr, $args:expr, $exp:expr, $body:expr) => {
        if $e.cfg.groups & ($g as u32) != 0 {
            let args = $args;
            let n = $e.n;
            $e.ctx.case(|| format!("container of length {}: {}{:?}", n, $name, args));
            $e.out.v.clear();
            $e.out.p.clear();
            #[allow(clippy::redundant_closure_call)]
            if $e.cfg.mode == Mode::Digest {
                // panicking is an outcome, to be compared between configurations
                if guarded(|| ($body)(&mut $e.out)).is_err() { $e.out.v.push(V::N(usize::MAX - 7)); $e.out.p.clear(); }
            } else {
                ($body)(&mut $e.out);
            }
            $e.judge($name, &args, &$exp);
        }
    };
}

fn r_(s: usize, e: usize) -> V { V::R(false, s, e) }
fn i_(i: usize) -> V { V::I(false, i) }
const T: V = V::B(true);
const F: V = V::B(false);

impl<'a, 'id> Eng<'a, 'id> {
    fn judge(&mut self, name: &str, args: &[V], exp: &[V]) {
        let n = self.n;
        self.ctx.transitions += 1;
        let got = &self.out.v;
        let bad = match self.cfg.mode {
            Mode::Bounds => got.iter().any(|v| match *v {
                V::I(ne, i) => i > n || (ne && i >= n),
                V::R(_, s, e) => s > e || e > n,
                _ => false,
            }),
            // (a marked result must exist; and checking for non-emptiness decides exactly)
            Mode::Proof => got.iter().any(|v| match *v {
                V::I(true, i) => i >= n,
                V::R(true, s, e) => s >= e,
                _ => false,
            }) || ((name == "nonempty" || name == "into") && !same(got, exp)),
            Mode::Exact => !same(got, exp),
            Mode::Digest => false,
        };
        if bad {
            fail(format!(
                "container of length {}: {}{:?} gave {:?}; expected {:?} (I(marked, position), R(marked, start, end))",
                n, name, args, got, exp
            ));
        }
        if got.iter().any(|v| !matches!(v, V::Err | V::None | V::B(false))) {
            self.ctx.nontrivial += 1;
        }
        if self.cfg.mode == Mode::Digest {
            let plain: Vec<V> = got.clone();
            self.ctx.obs(&(name, &plain));
        } else {
            let g = got.clone();
            self.ctx.obs(&(name, &g));
        }
        if self.cfg.closure {
            for k in 0..self.out.p.len() {
                let p = self.out.p[k];
                if self.seen.insert(p.v()) {
                    self.all.push(p);
                    self.work.push(p);
                    self.ctx.states += 1;
                }
            }
        }
    }

    fn ks(&self) -> std::rc::Rc<Vec<usize>> {
        std::rc::Rc::new(self.cfg.ks.clone())
    }
}

pub fn explore<'id, A, X, M>(ctx: &mut Ctx, c: &Container<'id, A, M>, cfg: Cfg)
where
    A: Contiguous<Item = X>,
{
    explore_from(ctx, c, cfg, vec![])
}

/// As `explore`, starting also from the given particles.
pub fn explore_from<'id, A, X, M>(ctx: &mut Ctx, c: &Container<'id, A, M>, cfg: Cfg, extra: Vec<Part<'id>>)
where
    A: Contiguous<Item = X>,
{
    let n = c.len();
    let mut e = Eng { ctx, n, cfg, out: Out::default(), seen: HashSet::new(), all: vec![], work: vec![] };
    let ks = e.ks();
    let e = &mut e;

    // from the container
    op!(e, G::Algebra, "range", [], [r_(0, n)], |o: &mut Out<'id>| { o.r(c.range()); });
    op!(e, G::Algebra, "empty_range", [], [r_(0, 0)], |o: &mut Out<'id>| { o.r(c.empty_range()); });
    op!(e, G::Algebra, "range_of(..)", [], [r_(0, n)], |o: &mut Out<'id>| { o.r(c.range_of::<Unknown, _>(..)); });
    op!(e, G::Algebra, "len", [], [V::N(n)], |o: &mut Out<'id>| { o.n(c.len()); });
    for &k in ks.iter() {
        op!(e, G::Vet, "vet", [V::N(k)], [if k < n { i_(k) } else { V::Err }], |o: &mut Out<'id>| { o.res_i(c.vet(k)); });
    }
    for &a in ks.iter() {
        for &b in ks.iter() {
            let exp = if a <= b && b <= n { r_(a, b) } else { V::Err };
            op!(e, G::Vet, "vet_range", [V::N(a), V::N(b)], [exp], |o: &mut Out<'id>| { o.res_r(c.vet_range(a..b)); });
        }
    }
    // start particles
    let mut start: Vec<Part<'id>> = extra;
    let seeds = e.cfg.seeds.clone();
    for &a in &seeds {
        if let Ok(i) = c.vet(a) {
            start.push(Part::INe(i));
            start.push(Part::IUk(i.no_proof()));
        } else if let Ok(r) = c.vet_range(a..a) {
            start.push(Part::IUk(r.first()));
        }
        for &b in &seeds {
            if let Ok(r) = c.vet_range(a..b) {
                start.push(Part::RUk(r));
                if let Ok(r) = r.nonempty() {
                    start.push(Part::RNe(r));
                }
            }
        }
    }
    for p in start {
        if e.seen.insert(p.v()) {
            e.all.push(p);
            e.work.push(p);
            e.ctx.states += 1;
        }
    }
    // closure under unary operations, and pairs with everything seen so far
    while let Some(p) = e.work.pop() {
        match p {
            Part::INe(i) => { idx(e, c, i); idx_ne(e, c, i); }
            Part::IUk(i) => idx(e, c, i),
            Part::RNe(r) => { rng(e, c, r); rng_ne(e, c, r); }
            Part::RUk(r) => rng(e, c, r),
        }
        if e.cfg.pairs {
            let mut k = 0;
            // `all` grows while this runs; pairs with later particles are met when those are popped
            let upto = e.all.len();
            while k < upto {
                let q = e.all[k];
                k += 1;
                pair(e, p, q);
                pair(e, q, p);
            }
        }
    }
}

fn pair<'id>(e: &mut Eng<'_, 'id>, p: Part<'id>, q: Part<'id>) {
    match (p, q) {
        (Part::RNe(a), Part::RNe(b)) => rng_rng(e, a, b),
        (Part::RNe(a), Part::RUk(b)) => rng_rng(e, a, b),
        (Part::RUk(a), Part::RNe(b)) => rng_rng(e, a, b),
        (Part::RUk(a), Part::RUk(b)) => rng_rng(e, a, b),
        (Part::RNe(a), Part::INe(b)) => rng_idx(e, a, b),
        (Part::RUk(a), Part::INe(b)) => rng_idx(e, a, b),
        _ => {}
    }
}

fn idx<'id, A, X, M, P>(e: &mut Eng<'_, 'id>, c: &Container<'id, A, M>, i: Index<'id, P>)
where
    A: Contiguous<Item = X>,
    P: PTag,
{
    let n = e.n;
    let x = i.integer();
    let a = [V::I(P::NE, x)];
    op!(e, G::Algebra, "no_proof", a, [i_(x)], |o: &mut Out<'id>| { o.i(Provable::no_proof(i)); });
    op!(e, G::Algebra, "before", a, [r_(0, x)], |o: &mut Out<'id>| { o.r(c.before(i)); });
    op!(e, G::Algebra, "range_of(i..)", a, [r_(x, n)], |o: &mut Out<'id>| { o.r(c.range_of(i..)); });
    op!(e, G::Algebra, "range_of(..i)", a, [r_(0, x)], |o: &mut Out<'id>| { o.r(c.range_of(..i)); });
    op!(e, G::Algebra, "container split_at", a, [r_(0, x), r_(x, n)], |o: &mut Out<'id>| {
        let (p, q) = c.split_at(i);
        o.r(p).r(q);
    });
}

fn idx_ne<'id, A, X, M>(e: &mut Eng<'_, 'id>, c: &Container<'id, A, M>, i: Index<'id>)
where
    A: Contiguous<Item = X>,
{
    let n = e.n;
    let x = i.integer();
    let ks = e.ks();
    let a = [V::I(true, x)];
    op!(e, G::Algebra, "index after", a, [i_(x + 1)], |o: &mut Out<'id>| { o.i(i.after()); });
    op!(e, G::Algebra, "container after", a, [r_(x + 1, n)], |o: &mut Out<'id>| { o.r(c.after(i)); });
    op!(e, G::Algebra, "split_after", a, [r_(0, x + 1), r_(x + 1, n)], |o: &mut Out<'id>| {
        let (p, q) = c.split_after(i);
        o.r(p).r(q);
    });
    let f = spec::step(x, 1, n);
    op!(e, G::Step, "forward", a, [V::B(f.is_some()), i_(f.unwrap_or(x))], |o: &mut Out<'id>| {
        let mut j = i;
        let b = c.forward(&mut j);
        o.b(b).i(j);
    });
    let exp = if x > 0 { [T, i_(x - 1)] } else { [F, i_(x)] };
    op!(e, G::Step, "backward", a, exp, |o: &mut Out<'id>| {
        let mut j = i;
        let b = c.backward(&mut j);
        o.b(b).i(j);
    });
    for &k in ks.iter() {
        let f = spec::step(x, k, n);
        op!(e, G::Step, "container forward_by", [a[0], V::N(k)], [V::B(f.is_some()), i_(f.unwrap_or(x))], |o: &mut Out<'id>| {
            let mut j = i;
            let b = c.forward_by(&mut j, k);
            o.b(b).i(j);
        });
    }
    for &k in ks.iter() {
        // accept k elements, then refuse
        let up = n - x - 1;
        if k <= up && (e.cfg.long_scans || k <= 2) && (k < up || e.cfg.long_scans || up <= 2) {
            op!(e, G::Scan, "scan_from", [a[0], V::N(k)], [r_(x, x + 1 + k)], |o: &mut Out<'id>| {
                let mut m = 0;
                o.r(c.scan_from(i, |_| { m += 1; m <= k }));
            });
        }
        if k <= x && (e.cfg.long_scans || k <= 2) && (k < x || e.cfg.long_scans || x <= 2) {
            op!(e, G::Scan, "scan_from_rev", [a[0], V::N(k)], [r_(x - k, x + 1)], |o: &mut Out<'id>| {
                let mut m = 0;
                o.r(c.scan_from_rev(i, |_| { m += 1; m <= k }));
            });
        }
    }
}

fn rng<'id, A, X, M, P>(e: &mut Eng<'_, 'id>, c: &Container<'id, A, M>, r: Range<'id, P>)
where
    A: Contiguous<Item = X>,
    P: PTag,
    Range<'id, P>: RangeMore<'id>,
{
    let n = e.n;
    let ks = e.ks();
    let (s, t) = (r.start(), r.end());
    let l = t - s;
    let a = [V::R(P::NE, s, t)];
    let emp = s == t;
    op!(e, G::Algebra, "len/is_empty/as_range", a, [V::N(l), V::B(emp), V::N(s), V::N(t)], |o: &mut Out<'id>| {
        let x = r.as_range();
        o.n(r.len()).b(r.is_empty()).n(x.start).n(x.end);
    });
    op!(e, G::Algebra, "frontiers", a, [r_(s, s), r_(t, t)], |o: &mut Out<'id>| {
        let (p, q) = r.frontiers();
        o.r(p).r(q);
    });
    op!(e, G::Algebra, "no_proof", a, [r_(s, t), r_(s, t)], |o: &mut Out<'id>| {
        o.r(r.no_proof()).r(Provable::no_proof(r));
    });
    op!(e, G::Algebra, "first", a, [i_(s)], |o: &mut Out<'id>| { o.i(r.first()); });
    op!(e, G::Algebra, "upper_middle", a, [i_(s + l / 2)], |o: &mut Out<'id>| { o.i(r.upper_middle()); });
    op!(e, G::Algebra, "past_the_end", a, [i_(t)], |o: &mut Out<'id>| { o.i(r.past_the_end()); });
    let (h1, h2) = spec::split_half((s, t));
    op!(e, G::Algebra, "split_in_half", a, [r_(h1.0, h1.1), r_(h2.0, h2.1)], |o: &mut Out<'id>| {
        let (p, q) = r.split_in_half();
        o.r(p).r(q);
    });
    op!(e, G::Algebra, "split_around", a, [r_(0, s), r_(t, n)], |o: &mut Out<'id>| {
        let (p, q) = c.split_around(r);
        o.r(p).r(q);
    });
    let exp = if emp { V::Err } else { r_(s, t) };
    op!(e, G::Vet, "nonempty", a, [exp], |o: &mut Out<'id>| { o.res_r(r.nonempty()); });
    op!(e, G::Vet, "into", a, [exp], |o: &mut Out<'id>| { o.res_r(r.checked()); });
    op!(e, G::Iter, "into_iter", a, if emp { [r_(s, t), V::None, V::None] } else { [r_(s, t), i_(s), i_(t - 1)] }, |o: &mut Out<'id>| {
        let it = r.into_iter();
        o.r(it.into_range()).opt_i(it.clone().next()).opt_i(it.clone().next_back());
    });
    for &k in ks.iter() {
        let (x, y, b) = spec::split_at((s, t), k);
        op!(e, G::Algebra, "split_at", [a[0], V::N(k)], [r_(x.0, x.1), r_(y.0, y.1), V::B(b)], |o: &mut Out<'id>| {
            let (p, q, b) = r.split_at(k);
            o.r(p).r(q).b(b);
        });
        op!(e, G::Vet, "contains", [a[0], V::N(k)], [if k >= s && k < t { i_(k) } else { V::None }], |o: &mut Out<'id>| {
            o.opt_i(r.contains(k));
        });
        let (x, y) = (spec::clamp_add(s, k, n), spec::clamp_add(t, k, n));
        op!(e, G::Step, "container forward_range_by", [a[0], V::N(k)], [r_(x, y)], |o: &mut Out<'id>| {
            o.r(c.forward_range_by(r, k));
        });
        if k >= 1 && e.cfg.groups & G::Sub as u32 != 0 {
            // judged for bounds here; the partition itself is C06's
            let mut exp = vec![];
            let d = l / k;
            if d > 0 {
                let mut at = s;
                let mut acc = 0u128;
                for _ in 0..k.min(40) {
                    acc += (l % k) as u128;
                    let mut w = d;
                    if acc >= k as u128 { acc -= k as u128; w += 1; }
                    exp.push(r_(at, at + w));
                    at += w;
                }
            }
            op!(e, G::Sub, "subdivide (first 40)", [a[0], V::N(k)], exp[..], |o: &mut Out<'id>| {
                for x in r.subdivide(k).take(40) { o.r(x); }
            });
        }
        if k <= l && (e.cfg.long_scans || k <= 2) && (k < l || e.cfg.long_scans || l <= 2) {
            op!(e, G::Scan, "scan_range", [a[0], V::N(k)], [r_(s, s + k), r_(s + k, t)], |o: &mut Out<'id>| {
                let mut m = 0;
                let (p, q) = c.scan_range(r, |_| { m += 1; m <= k });
                o.r(p).r(q);
            });
        }
    }
}

fn rng_ne<'id, A, X, M>(e: &mut Eng<'_, 'id>, _c: &Container<'id, A, M>, r: Range<'id, NonEmpty>)
where
    A: Contiguous<Item = X>,
{
    let ks = e.ks();
    let (s, t) = (r.start(), r.end());
    let l = t - s;
    let a = [V::R(true, s, t)];
    op!(e, G::Algebra, "lower_middle", a, [i_(s + (l - 1) / 2)], |o: &mut Out<'id>| { o.i(r.lower_middle()); });
    op!(e, G::Algebra, "last", a, [i_(t - 1)], |o: &mut Out<'id>| { o.i(r.last()); });
    op!(e, G::Algebra, "tail", a, [r_(s + 1, t)], |o: &mut Out<'id>| { o.r(r.tail()); });
    op!(e, G::Algebra, "init", a, [r_(s, t - 1)], |o: &mut Out<'id>| { o.r(r.init()); });
    op!(e, G::Step, "advance_", a, [if l > 1 { r_(s + 1, t) } else { V::Err }], |o: &mut Out<'id>| { o.res_r(r.advance_()); });
    op!(e, G::Step, "advance", a, if l > 1 { [T, r_(s + 1, t)] } else { [F, r_(s, t)] }, |o: &mut Out<'id>| {
        let mut q = r;
        let b = q.advance();
        o.b(b).r(q);
    });
    op!(e, G::Step, "advance_back", a, if l > 1 { [T, r_(s, t - 1)] } else { [F, r_(s, t)] }, |o: &mut Out<'id>| {
        let mut q = r;
        let b = q.advance_back();
        o.b(b).r(q);
    });
    for &k in ks.iter() {
        let exp = match spec::step(s, k, t) { Some(x) => [T, r_(x, t)], None => [F, r_(s, t)] };
        op!(e, G::Step, "advance_by", [a[0], V::N(k)], exp, |o: &mut Out<'id>| {
            let mut q = r;
            let b = q.advance_by(k);
            o.b(b).r(q);
        });
    }
}

fn rng_rng<'id, P, Q>(e: &mut Eng<'_, 'id>, r: Range<'id, P>, q: Range<'id, Q>)
where
    P: PTag,
    Q: PTag,
    (P, Q): ProofAdd,
    <(P, Q) as ProofAdd>::Sum: PTag,
{
    let (s, t) = (r.start(), r.end());
    let (u, v) = (q.start(), q.end());
    let a = [V::R(P::NE, s, t), V::R(Q::NE, u, v)];
    op!(e, G::Algebra, "join", a, [if t == u { r_(s, v) } else { V::Err }], |o: &mut Out<'id>| { o.res_r(r.join(q)); });
    op!(e, G::Algebra, "join_cover", a, [r_(s, t.max(v))], |o: &mut Out<'id>| { o.r(r.join_cover(q)); });
    op!(e, G::Algebra, "join_cover_both", a, [r_(s.min(u), t.max(v))], |o: &mut Out<'id>| { o.r(r.join_cover_both(q)); });
    if e.cfg.groups & G::Step as u32 != 0 {
        let ks = e.ks();
        for &k in ks.iter() {
            let exp = r_(spec::clamp_add(u, k, t), spec::clamp_add(v, k, t));
            op!(e, G::Step, "range forward_range_by", [a[0], a[1], V::N(k)], [exp], |o: &mut Out<'id>| {
                o.r(r.forward_range_by(q, k));
            });
        }
    }
}

fn rng_idx<'id, P>(e: &mut Eng<'_, 'id>, r: Range<'id, P>, i: Index<'id>)
where
    P: PTag,
{
    if e.cfg.groups & G::Step as u32 == 0 {
        return;
    }
    let a = [V::R(P::NE, r.start(), r.end()), V::I(true, i.integer())];
    let ks = e.ks();
    for &k in ks.iter() {
        let f = spec::step(i.integer(), k, r.end());
        let exp = [V::B(f.is_some()), i_(f.unwrap_or(i.integer()))];
        op!(e, G::Step, "range forward_by", [a[0], a[1], V::N(k)], exp, |o: &mut Out<'id>| {
            let mut j = i;
            let b = r.forward_by(&mut j, k);
            o.b(b).i(j);
        });
    }
}

/// Every particle of a container, by checking integers.
pub fn all_parts<'id, A, X, M>(c: &Container<'id, A, M>) -> Vec<Part<'id>>
where
    A: Contiguous<Item = X>,
{
    let n = c.len();
    let mut v = vec![];
    for a in 0..=n {
        for b in a..=n {
            if let Ok(r) = c.vet_range(a..b) {
                v.push(Part::RUk(r));
                v.push(Part::IUk(r.first()));
                if let Ok(r) = r.nonempty() {
                    v.push(Part::RNe(r));
                    v.push(Part::INe(r.first()));
                    v.push(Part::INe(r.last()));
                }
            }
        }
    }
    v
}

/// The conversion to a checked range, for both markings.
pub trait RangeMore<'id>: Copy {
    fn checked(self) -> Result<Range<'id, NonEmpty>, IndexingError>;
}
impl<'id> RangeMore<'id> for Range<'id, NonEmpty> {
    fn checked(self) -> Result<Range<'id, NonEmpty>, IndexingError> { IntoCheckedRange::into(self) }
}
impl<'id> RangeMore<'id> for Range<'id, Unknown> {
    fn checked(self) -> Result<Range<'id, NonEmpty>, IndexingError> { IntoCheckedRange::into(self) }
}
