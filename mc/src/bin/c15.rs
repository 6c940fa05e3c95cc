// features: cfgs
use mc::configs::*;
use mc::engine::*;
use mc::explore::*;
use mc::suite::*;

/// An operation on the original, on the clone, on a clone of the clone, or the drop of one of them.
#[derive(Clone, Copy)]
enum Two {
    On(usize, Op),
    Drop(usize),
}

fn show_two(t: &Two) -> String {
    let who = ["original", "clone", "clone of clone"];
    match t {
        Two::On(w, o) => format!("on the {}: {}", who[*w], show_op(o)),
        Two::Drop(w) => format!("drop the {}", who[*w]),
    }
}

/// Build a state, clone it twice over, then every sequence of `depth` operations on the three trees.
fn two_trees(c: &Config, u: Vec<u128>, orders: &[u32], depth: u32, ntrees: usize, kinds: &str) -> Phase {
    let c = c.clone();
    let p = probes(&c, &u);
    let a = alphabet(&u, kinds);
    let mut tw: Vec<Two> = vec![];
    for w in 0..ntrees {
        tw.extend(a.iter().map(|o| Two::On(w, *o)));
        tw.push(Two::Drop(w));
    }
    let orders = orders.to_vec();
    let no = orders.len() as u64;
    let n = (1u64 << u.len()) * no;
    let na = (tw.len() as u64).pow(depth);
    let nm = format!("{} subsets x {no} build orders, cloned into {ntrees} trees, x all sequences of {depth} of {} ops on {}", 1u64 << u.len(), tw.len(), c.name);
    let s = c.name.bytes().fold(3u64, |h, b| mix(h ^ b as u64));
    Phase::new(nm, n, 2, move |i, cx| {
        let (mask, o) = (i / no, orders[(i % no) as usize]);
        if mask == 0 {
            return Ok(());
        }
        let mut b = vec![];
        build_order(&u, mask, o, &mut b);
        let flags = RINS | RREM | RMUT;
        for j in 0..na {
            let mut scratch: Vec<Ctx> = (1..ntrees).map(|_| Ctx::bare()).collect();
            let mut r0 = Runner::new(&c, flags, s, cx);
            for &op in &b {
                r0.op(op)?;
            }
            let mut rs: Vec<Option<Runner>> = vec![];
            {
                let mut prev = None;
                for cx in scratch.iter_mut() {
                    let mut r = Runner::new(&c, flags, s, cx);
                    let src: &Runner = prev.as_ref().unwrap_or(&r0);
                    r.sys = match src.sys.dup() {
                        Some(d) => d,
                        None => return Err(Fail::new("not cloneable")),
                    };
                    r.model = src.model.clone();
                    r.stamp = 1000 * (rs.len() as u32 + 1);
                    if let Some(p) = prev.take() {
                        rs.push(Some(p));
                    }
                    prev = Some(r);
                }
                rs.push(prev);
            }
            let mut all: Vec<Option<Runner>> = vec![Some(r0)];
            all.extend(rs);
            let mut x = j;
            let mut seq = vec![];
            for _ in 0..depth {
                seq.push(tw[(x % tw.len() as u64) as usize]);
                x /= tw.len() as u64;
            }
            let mut done = vec![];
            let obs = FIND | NAV | ITER | SIZE;
            let full = depth < 2 || j % 7 == 0;
            let mut go = || -> Res {
                for w in 0..all.len() {
                    if depth == 1 || j == 0 {
                        all[w].as_mut().unwrap().observe(obs, &p)?;
                    }
                }
                for t in &seq {
                    done.push(*t);
                    match *t {
                        Two::On(w, op) => {
                            if let Some(r) = &mut all[w] {
                                if !r.empty() || matches!(op, Op::Ins(_)) {
                                    r.op(op)?;
                                }
                            }
                        }
                        Two::Drop(w) => all[w] = None,
                    }
                }
                for w in 0..all.len() {
                    if let Some(r) = &mut all[w] {
                        r.observe(if full { obs } else { ITER | NAV }, &p)?;
                    }
                }
                Ok(())
            };
            if let Err(mut f) = guarded(&mut go) {
                f.trace = trace_of(&c, &b, "");
                f.trace.push(format!("clone the tree{}", if ntrees > 2 { ", and clone the clone" } else { "" }));
                f.trace.extend(done.iter().map(show_two));
                return Err(f);
            }
            let extra: u64 = all.iter().skip(1).flatten().map(|r| r.cx.transitions).sum();
            let first = all[0].take();
            drop(all);
            drop(first);
            for sc in &scratch {
                cx.states.extend(sc.states.iter().map(|h| mix(h ^ 99)));
            }
            cx.transitions += extra;
            cx.traces += 1;
            cx.tick();
            if cx.want_sample {
                cx.sample = Some(format!("{}: {}; clone; {}", c.name, b.iter().map(show_op).collect::<Vec<_>>().join("; "), seq.iter().map(show_two).collect::<Vec<_>>().join("; ")));
                cx.want_sample = false;
            }
        }
        Ok(())
    })
}

/// Every pair of contents: one tree takes on the other's contents with clone_from; both are compared with
/// their maps, then every operation runs on either of them.
fn assigns(c: &Config, u: Vec<u128>, o1: u32, o2: u32, kinds: &str) -> Phase {
    let c = c.clone();
    let p = probes(&c, &u);
    let a = alphabet(&u, kinds);
    let m = 1u64 << u.len();
    let nm = format!("{m} x {m} contents, one tree overwritten with the other (clone_from), then each of {} ops on either, on {}", a.len(), c.name);
    let s = c.name.bytes().fold(5u64, |h, b| mix(h ^ b as u64));
    Phase::new(nm, m * m, 8, move |i, cx| {
        let (m1, m2) = (i / m, i % m);
        if m1 == 0 || m2 == 0 {
            return Ok(());
        }
        let (mut b1, mut b2) = (vec![], vec![]);
        build_order(&u, m1, o1, &mut b1);
        build_order(&u, m2, o2, &mut b2);
        let obs = FIND | NAV | ITER | SIZE;
        for j in 0..=2 * a.len() {
            let mut scratch = Ctx::bare();
            let mut done = vec![];
            {
                let mut src = Runner::new(&c, RINS | RREM, s, &mut scratch);
                let mut dst = Runner::new(&c, RINS | RREM, s, cx);
                let mut go = || -> Res {
                    for &op in &b1 {
                        src.op(op)?;
                    }
                    for &op in &b2 {
                        dst.op(op)?;
                    }
                    if !dst.sys.assign(&*src.sys) {
                        return Err(Fail::new("not cloneable"));
                    }
                    dst.model = src.model.clone();
                    dst.stamp = 1000;
                    if j == 0 {
                        src.observe(obs, &p)?;
                        dst.observe(obs, &p)?;
                    } else {
                        let (on_dst, op) = (j > a.len(), a[(j - 1) % a.len()]);
                        done.push(Two::On(on_dst as usize, op));
                        if on_dst { &mut dst } else { &mut src }.op(op)?;
                        src.observe(NAV | ITER, &p)?;
                        dst.observe(NAV | ITER, &p)?;
                    }
                    Ok(())
                };
                if let Err(mut f) = guarded(&mut go) {
                    f.trace = trace_of(&c, &b1, "");
                    f.trace.push("in a second tree:".into());
                    f.trace.extend(b2.iter().map(show_op));
                    f.trace.push("overwrite the second with the first by clone_from; call it the clone".into());
                    f.trace.extend(done.iter().map(show_two));
                    return Err(f);
                }
            }
            cx.transitions += scratch.transitions + 1;
            cx.states.extend(scratch.states.iter().map(|h| mix(h ^ 77)));
            cx.traces += 1;
            cx.tick();
        }
        Ok(())
    })
}

fn phases(t: Tier) -> Vec<Phase> {
    let mut v = vec![];
    // the clone goes on where the tree was, in every history
    let sp = Spec { flags: RINS | RREM, obs: FIND | NAV, obs_big: FIND | NAV | ITER, kinds: "irmd" };
    for c in mc::configs::all().into_iter().filter(|c| c.clones) {
        v.push(hist(&c, 0, t.pick(5, 6), &sp));
        v.push(hist(&c, 1, t.pick(4, 6), &sp));
        v.push(two_trees(&c, mid_universe(&c, 0, 7), &[0, 1, 4], 1, 3, "irmw"));
        v.push(two_trees(&c, mid_universe(&c, 1, t.pick(8, 10)), &[2, 5], 1, 2, "irmw"));
        v.push(two_trees(&c, small(&c, 0), &[0, 1, 2, 5], t.pick(2, 3), 2, "irm"));
        v.push(two_trees(&c, small(&c, 1), &[0, 3], t.pick(2, 2), 3, "irm"));
        v.push(assigns(&c, small(&c, 0), 0, 1, "irm"));
        v.push(assigns(&c, mid_universe(&c, 1, t.pick(5, 7)), 2, 0, "irm"));
        if has_macros(&c) {
            // clones of big trees
            let mut list = vec![];
            for &a in &all_macros(&c) {
                for &b in &all_macros(&c) {
                    if matches!(a, Op::Fill { .. }) {
                        list.push(vec![a, Op::Dup, b, Op::Dup, Op::RMin, Op::RMax]);
                    }
                }
            }
            let p: Vec<u128> = if c.bits > 16 { macro_probes(&c) } else { (0..=max_code(&c)).step_by(13).collect() };
            v.push(scripts("D", &c, list, RINS | RREM, FIND | NAV | ITER, p));
        }
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C15",
        level: "model_checking",
        rule: "Every subset state of small universes, by several build orders, is cloned (and the clone cloned), and every sequence of operations, writes and drops on the resulting trees runs with one reference map per tree; all trees are compared with their maps before and after. Every pair of contents is overwritten one with the other by clone_from and judged in the same way. Also every history in which the tree may be replaced by its clone at any point. A state is a distinct (configuration, tree, key set); a trace one complete judged execution.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
