// features: cfgs
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
fn phases(t: Tier) -> Vec<Phase> {
    map_suite(t, &Spec { flags: EVERYTHING, obs: EVERYTHING, obs_big: FIND | NAV | SIZE | ITER, kinds: "irm1x" })
}
fn main() {
    mc::engine::main(Check {
        prop: "C17",
        level: "model_checking",
        rule: "Every execution of the stated spaces (complete histories over small key universes, every subset state of larger universes by several build orders and every suffix, edge-covering walks, coordinate sweeps of whole key bytes, macro-histories) runs on the real trees of every configuration in lock-step with a reference map. A state is a distinct (configuration, key set, build order) reached; a trace is one complete judged execution; judged in both builds: no panic, overflow, failed assertion, crash or endless loop on any of them, every result as the reference map says, and identical observations (compared phase by phase through digests) between the build with debug assertions and overflow checks and the one without.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: true,
        phases,
    })
}
