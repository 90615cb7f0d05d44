use mc::*;

fn units(t: Tier) -> Vec<Unit> {
    closures::units(t, Mode::Proof, !0)
}

fn main() {
    harness_main(units)
}
