// features: cfgs
use mc::cfg::*;
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
/// What is asked of contents of up to 131072 entries.
fn big(t: Tier, c: &Config) -> u32 {
    match t {
        _ if c.bits == 8 => ITER | ITERX | ITERT,
        Tier::Quick if c.bits > 16 || !c.core => ITER,
        Tier::Thorough if c.bits == 16 => ITER | ITERX | ITERT,
        _ => ITER | ITERT,
    }
}
fn phases(t: Tier) -> Vec<Phase> {
    let sp = Spec { flags: 0, obs: ITER | ITERX | ITERT, obs_big: ITER | ITERX | ITERT, kinds: "irm" };
    let mut v = vec![];
    let cs = mc::configs::all();
    for c in light(cs.clone()) {
        let d = if c.core { 4 } else { 3 };
        v.push(hist(&c, 0, t.pick(d, 5), &sp));
        v.push(hist(&c, 1, t.pick(d, 5), &sp));
        v.push(hist(&c, 2, t.pick(d, 4), &sp));
        let n = t.pick(if c.core { 9 } else { 8 }, 11);
        v.push(subs(&c, 0, n, &[0, 1, 4], 0, &sp));
        v.push(subs(&c, 1, n, &[2, 5], 0, &sp));
        v.push(subs(&c, 1, t.pick(6, 8), &[3, 6], 1, &sp));
        v.push(sweep(&c, &Spec { obs: ITER | ITERX, ..sp }, t == Tier::Thorough));
        if has_macros(&c) {
            v.push(macro_hist(&c, t.pick(1, 2), 1, &Spec { obs_big: big(t, &c), ..sp }));
        }
    }
    for c in heavy(cs) {
        for var in 0..2 {
            v.push(edges(&c, var, t.pick(5, 7), 8, &sp));
        }
        if has_macros(&c) {
            v.push(macro_hist(&c, t.pick(1, 2), 1, &Spec { obs_big: big(t, &c), ..sp }));
        }
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C05",
        level: "model_checking",
        rule: "Every execution of the stated spaces (complete histories over small key universes, every subset state of larger universes by several build orders and every suffix, edge-covering walks, coordinate sweeps of whole key bytes, macro-histories) runs on the real trees of every configuration in lock-step with a reference map. A state is a distinct (configuration, key set, build order) reached; a trace is one complete judged execution; judged: full passes both ways and, for contents of up to 12 entries, all 2^(n+2) interleavings of forward and backward steps continued two steps past the end, and after every prefix of up to three steps (two for more than six entries) the results of count, last, nth, nth_back, fold, rfold and collect.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
