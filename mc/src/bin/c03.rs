use indexing::container_traits::IndexRange;
use mc::*;

/// What is read from the ranges of the language (`..`, `a..`, `..b`, `a..b`) is their ends.
fn ends<I: Copy + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, points: &[I]) {
    for &a in points {
        ctx.case(|| format!("{:?}.. and ..{:?}", a, a));
        ctx.transitions += 4;
        let (f, t) = (a.., ..a);
        ctx.ck(IndexRange::start(&f) == Some(a) && IndexRange::<I>::end(&f).is_none(), || format!("ends of {:?}..", a));
        ctx.ck(IndexRange::<I>::start(&t).is_none() && IndexRange::end(&t) == Some(a), || format!("ends of ..{:?}", a));
        for &b in points {
            ctx.case(|| format!("{:?}..{:?}", a, b));
            ctx.transitions += 2;
            let r = a..b;
            ctx.ck(IndexRange::start(&r) == Some(a) && IndexRange::end(&r) == Some(b), || format!("ends of {:?}..{:?}", a, b));
        }
    }
    ctx.case(|| "..".to_string());
    ctx.ck({ let r = ..; IndexRange::<I>::start(&r).is_none() && IndexRange::<I>::end(&r).is_none() }, || "ends of ..");
}

fn units(t: Tier) -> Vec<Unit> {
    let mut us = closures::units(t, Mode::Exact, G::Algebra as u32);
    us.push(unit("ends of the ranges of the language", |ctx| {
        ends(ctx, &gen::args(20));
        let v: Vec<()> = vec![(); 1 << 33];
        indexing::scope(&v[..], |c| {
            let is: Vec<_> = [0, 1, 2, 3, 200, 70000, (1 << 32) - 1, 1 << 32, (1 << 33) - 1].iter().map(|&i| c.vet(i).unwrap()).collect();
            ends(ctx, &is);
            let is: Vec<_> = is.iter().map(|i| i.after()).collect();
            ends(ctx, &is);
        });
    }));
    us
}

fn main() {
    harness_main(units)
}
