// features: cfgs
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
fn phases(t: Tier) -> Vec<Phase> {
    map_suite(t, &Spec { flags: RMON, obs: SIZE | ISIZE, obs_big: SIZE | ISIZE, kinds: "irm1" })
}
fn main() {
    mc::engine::main(Check {
        prop: "C06",
        level: "model_checking",
        rule: "Every execution of the stated spaces (complete histories over small key universes, every subset state of larger universes by several build orders and every suffix, edge-covering walks, coordinate sweeps of whole key bytes, macro-histories) runs on the real trees of every configuration in lock-step with a reference map. A state is a distinct (configuration, key set, build order) reached; a trace is one complete judged execution; judged: length, size bounds, single-entry status, dismantling, and the iterator's bounds (exact ones over counted trees) after every step of forward, backward and alternating passes.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
