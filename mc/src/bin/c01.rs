// features: cfgs
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
fn phases(t: Tier) -> Vec<Phase> {
    map_suite(t, &Spec { flags: RINS, obs: FIND | FINDM | ITER, obs_big: FIND | FINDM | ITER, kinds: "irm" })
}
fn main() {
    mc::engine::main(Check {
        prop: "C01",
        level: "model_checking",
        rule: "Every execution of the stated spaces (complete histories over small key universes, every subset state of larger universes by several build orders and every suffix, edge-covering walks, coordinate sweeps of whole key bytes, macro-histories) runs on the real trees of every configuration in lock-step with a reference map. A state is a distinct (configuration, key set, build order) reached; a trace is one complete judged execution; judged: the result of every insertion, and find (shared and mutable) on every universe key, its neighbours and the extremes, and the full iteration.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
