// features: cfgs
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
fn phases(t: Tier) -> Vec<Phase> {
    let sp = Spec { flags: EVERYTHING, obs: EVERYTHING, obs_big: FIND | NAV | SIZE | ITER, kinds: "irm1x" };
    let mut v = vec![];
    for c in mc::configs::splits() {
        v.push(hist(&c, 0, t.pick(4, 5), &sp));
        v.push(hist(&c, 1, t.pick(4, 5), &sp));
        v.push(hist_n(&c, 2, 3, t.pick(5, 6), &sp));
        v.push(subs(&c, 0, t.pick(16, 16), &[0], 0, &Spec { obs_big: EVERYTHING & !(ISIZE | MUTQ), ..sp }));
        v.push(subs(&c, 0, t.pick(12, 16), &[1, 2, 4, 5], 0, &sp));
        v.push(subs(&c, 0, t.pick(10, 13), &[0, 3, 5], 1, &sp));
        if t == Tier::Thorough {
            v.push(subs(&c, 0, 9, &[0, 1, 2, 5], 2, &sp));
        }
    }
    // provided key types (arrays of three to sixteen elements, nested small integers, the unit key, strings)
    // over provided and caller-written parts
    for c in light(mc::configs::composed()) {
        v.push(hist(&c, 0, t.pick(4, 5), &sp));
        v.push(hist(&c, 1, t.pick(3, 5), &sp));
        v.push(hist(&c, 2, t.pick(3, 4), &sp));
        v.push(subs(&c, 0, t.pick(10, 14), &[0, 1, 4], 0, &sp));
        v.push(subs(&c, 0, t.pick(6, 9), &[2, 5], 1, &sp));
        if has_macros(&c) {
            v.push(macro_hist(&c, t.pick(1, 2), 1, &sp));
        }
    }
    for c in heavy(mc::configs::composed()) {
        for var in 0..2 {
            v.push(edges(&c, var, t.pick(5, 8), 8, &sp));
        }
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C16",
        level: "model_checking",
        rule: "Every execution of the stated spaces (complete histories over small key universes, every subset state of larger universes by several build orders and every suffix, edge-covering walks, coordinate sweeps of whole key bytes, macro-histories) runs on the real trees of every configuration in lock-step with a reference map. A state is a distinct (configuration, key set, build order) reached; a trace is one complete judged execution; here over key types whose split is uneven, empty on one side or nested, over every provided leaf and collection and over caller-written ones; judged: every operation result and every query, size and pass.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
