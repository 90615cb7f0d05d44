use mc::*;

fn units(t: Tier) -> Vec<Unit> {
    closures::units(t, Mode::Exact, G::Vet as u32)
}

fn main() {
    harness_main(units)
}
