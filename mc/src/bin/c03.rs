// features: cfgs
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
fn phases(t: Tier) -> Vec<Phase> {
    map_suite(t, &Spec { flags: 0, obs: NAV | NAVM, obs_big: NAV | NAVM, kinds: "irm" })
}
fn main() {
    mc::engine::main(Check {
        prop: "C03",
        level: "model_checking",
        rule: "Every execution of the stated spaces (complete histories over small key universes, every subset state of larger universes by several build orders and every suffix, edge-covering walks, coordinate sweeps of whole key bytes, macro-histories) runs on the real trees of every configuration in lock-step with a reference map. A state is a distinct (configuration, key set, build order) reached; a trace is one complete judged execution; judged: predecessor, successor, minimum and maximum at every universe key, its neighbours and the extremes, asked of the shared and of the mutable form.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
