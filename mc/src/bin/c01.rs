use mc::*;

fn units(t: Tier) -> Vec<Unit> {
    closures::units(t, Mode::Bounds, !0)
}

fn main() {
    harness_main(units)
}
