// features: cfgs
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
fn phases(t: Tier) -> Vec<Phase> {
    let sp = Spec { flags: RMUT, obs: FIND | NAV | MUTQ | ITER | AGAIN, obs_big: FIND | MUTQ | MUTW, kinds: "iw" };
    let mut v = vec![];
    let cs = mc::configs::all();
    for c in light(cs.clone()) {
        let deep = c.core || c.bits <= 6;
        v.push(hist(&c, 0, t.pick(3 + deep as u32, 4), &sp));
        v.push(hist(&c, 1, t.pick(3, 4), &sp));
        v.push(hist_n(&c, 2, 3, 4, &Spec { kinds: "irmw", ..sp }));
        v.push(subs(&c, 0, t.pick(9, 11), &[0, 1, 4], 0, &sp));
        v.push(subs(&c, 1, t.pick(9, 12), &[2, 5], 0, &sp));
        v.push(subs(&c, 0, t.pick(7, 9), &[3, 6], 1, &Spec { kinds: "irmw", ..sp }));
        v.push(sweep(&c, &Spec { obs: FIND | MUTQ, ..sp }, t == Tier::Thorough));
        if has_macros(&c) {
            v.push(macro_hist(&c, t.pick(1, 2), 1, &Spec { obs_big: FIND | NAV | MUTQ | AGAIN, ..sp }));
        }
    }
    for c in heavy(cs) {
        for var in 0..2 {
            v.push(edges(&c, var, t.pick(5, 7), 8, &Spec { kinds: "irw", obs: FIND | MUTQ | NAV, ..sp }));
        }
        if has_macros(&c) {
            v.push(macro_hist(&c, t.pick(1, 2), 1, &Spec { obs_big: FIND | NAV | MUTQ | AGAIN, ..sp }));
        }
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C04",
        level: "model_checking",
        rule: "Every execution of the stated spaces (complete histories over small key universes, every subset state of larger universes by several build orders and every suffix, edge-covering walks, coordinate sweeps of whole key bytes, macro-histories) runs on the real trees of every configuration in lock-step with a reference map. A state is a distinct (configuration, key set, build order) reached; a trace is one complete judged execution; judged: the mutable queries used as operations (with a write), every mutable query against its shared counterpart, the whole contents after a write through every mutable query at every probe, and every shared query asked again after iteration.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
