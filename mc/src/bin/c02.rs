// features: cfgs
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
fn phases(t: Tier) -> Vec<Phase> {
    let sp = Spec { flags: RREM, obs: FIND | ITER, obs_big: FIND | ITER, kinds: "irm" };
    let mut v = map_suite(t, &sp);
    for d in [DRAINMIN, DRAINMAX, DRAINALT] {
        for c in light(mc::configs::all()) {
            v.push(subs(&c, 0, t.pick(10, 12), &[0, 1, 2, 3, 4, 5, 6], 0, &Spec { obs_big: d, ..sp }));
        }
        for c in light(mc::configs::presets()) {
            if c.bits <= 16 {
                v.push(macro_hist(&c, 2, 1, &Spec { obs_big: d, ..sp }));
            }
        }
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C02",
        level: "model_checking",
        rule: "Every execution of the stated spaces (complete histories over small key universes, every subset state of larger universes by several build orders and every suffix, edge-covering walks, coordinate sweeps of whole key bytes, macro-histories) runs on the real trees of every configuration in lock-step with a reference map. A state is a distinct (configuration, key set, build order) reached; a trace is one complete judged execution; judged: the result and emptiness of every removal, find on all probes and the full iteration afterwards, and complete drains from the bottom, the top and alternating.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
