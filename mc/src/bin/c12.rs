// features: trk
use mc::cfg::*;
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;
use mc::tracked::*;

#[global_allocator]
static GUARD: mc::alloc_meter::Meter = mc::alloc_meter::Meter;

fn phases(t: Tier) -> Vec<Phase> {
    let q = t == Tier::Quick;
    let sp = Spec { flags: RINS | RREM | RMUT | RMON | LEDGER, obs: 0, obs_big: FIND, kinds: "irm1x" };
    let dup = Spec { kinds: "irmd", ..sp };
    let wr = Spec { kinds: "iw", ..sp };
    let mut v = vec![];
    let all: Vec<Config> = tracked().into_iter().chain(faulty()).collect();
    for c in all.iter().filter(|c| !c.heavy) {
        for d in 1..=(if q { 5 } else { 6 }) {
            v.push(hist(c, 0, d, &sp));
        }
        for d in 1..=(if q { 5 } else { 6 }) {
            v.push(hist(c, 1, d, &sp));
        }
        if !q {
            v.push(hist(c, 2, 5, &sp));
            v.push(hist_n(c, 0, 3, 7, &sp));
        } else {
            v.push(hist_n(c, 0, 3, 6, &sp));
        }
        v.push(hist_n(c, 0, 3, if q { 3 } else { 4 }, &wr));
        if c.clones {
            v.push(hist(c, 0, if q { 3 } else { 4 }, &dup));
        }
        v.push(subs(c, 0, if q { 8 } else { 10 }, &[0, 1, 4], if q { 1 } else { 2 }, &sp));
        v.push(subs(c, 1, if q { 9 } else { 12 }, &[2, 3, 5], 1, &sp));
        v.push(sweep(c, &sp, !q));
    }
    for c in tracked() {
        if c.heavy {
            v.push(edges(&c, 0, if q { 5 } else { 8 }, 8, &sp));
            v.push(edges(&c, 1, if q { 5 } else { 8 }, 8, &sp));
            v.push(macro_hist(&c, if q { 1 } else { 2 }, 1, &sp));
        } else if c.bits > 16 {
            v.push(macro_hist(&c, if q { 1 } else { 2 }, 1, &sp));
        } else if c.bits == 8 || c.bits == 16 {
            v.push(macro_hist(&c, if q { 2 } else { 3 }, 1, &sp));
        }
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C12",
        level: "model_checking",
        rule: "Every value carries an identity whose birth and death are on record. Complete histories (depth 1 up to the bound) over five-key universes, all subset states by several build orders with every operation, all operation edges of expensive configurations, coordinate sweeps and macro-histories; after every operation the values alive must be exactly those the model holds, what an operation returned must have been alive and the value it displaced, nothing may be dropped twice, and after dropping the tree no value and no key part may be alive. Both builds. A state is a distinct (configuration, key set); a trace one judged execution.",
        assumptions: &["bounded: universes, depths, build orders and configurations are those listed in coverage.phases", "values are told apart by a stamp that every insertion and write renews"],
        compare_builds: true,
        phases,
    })
}
