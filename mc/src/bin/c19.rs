// features: cfgs
//! Memory: what a tree allocates comes back, and what it holds is bounded by its largest contents.
use mc::alloc_meter as meter;
use mc::cfg::*;
use mc::configs;
use mc::engine::*;
use mc::explore::{alphabet, build_order, show_op, Op};
use mc::fail;
use mc::suite::*;
use mc::sys::*;
use std::collections::BTreeSet;

#[global_allocator]
static METER: meter::Meter = meter::Meter;

/// What a tree may hold after any history, given what a tree freshly built from every key that was ever in it
/// holds: a hash table may be up to four times as large as one that never saw a removal.
fn allowed(fresh: u64) -> u64 {
    5 * fresh + 2048
}

/// Applies one operation; keys stored are added to `ever`.
fn apply(s: &mut Box<dyn Sys>, op: Op, stamp: &mut u32, ever: &mut BTreeSet<u128>) {
    *stamp = *stamp % 90 + 10; // two digits, so that textual values keep one size
    match op {
        Op::Ins(k) => {
            ever.insert(k);
            s.insert(k, *stamp);
        }
        Op::Rem(k) => {
            let _ = s.remove(k);
        }
        Op::RMin => {
            s.remove_min();
        }
        Op::RMax => {
            s.remove_max();
        }
        Op::Monad => {
            let _ = s.into_monad();
        }
        Op::Mut(q, k) => {
            s.query_mut(q, k, Some(*stamp));
        }
        Op::Fill { start, step, count, down } => {
            for i in 0..count {
                let i = if down { count - 1 - i } else { i };
                let k = start + step * i as u128;
                ever.insert(k);
                s.insert(k, *stamp);
            }
        }
        Op::Clear { start, step, count, down } => {
            for i in 0..count {
                let i = if down { count - 1 - i } else { i };
                let _ = s.remove(start + step * i as u128);
            }
        }
        Op::DrainMin(n) => (0..n).for_each(|_| {
            s.remove_min();
        }),
        Op::DrainMax(n) => (0..n).for_each(|_| {
            s.remove_max();
        }),
        Op::Dup => {
            if let Some(d) = s.dup() {
                *s = d;
            }
        }
    }
}
/// The meter only counts while on; the set of keys is the harness's.
fn metered(s: &mut Box<dyn Sys>, op: Op, stamp: &mut u32, ever: &mut BTreeSet<u128>) {
    if let Op::Ins(k) = op {
        meter::pause();
        ever.insert(k);
        meter::resume();
    }
    if let Op::Fill { start, step, count, .. } = op {
        meter::pause();
        ever.extend((0..count).map(|i| start + step * i as u128));
        meter::resume();
    }
    apply(s, op, stamp, ever)
}
fn fresh(c: &Config, ever: &BTreeSet<u128>) -> u64 {
    meter::start();
    let mut s = (c.mk)();
    for &k in ever {
        s.insert(k, 10);
    }
    let l = meter::live();
    drop(s);
    meter::stop();
    l
}

/// Every query at every key, passes both ways, and iterators left in the middle.
fn look(s: &mut Box<dyn Sys>, univ: &[u128], buf: &mut Vec<KV>, steps: &mut Vec<IterStep>) {
    for &k in univ {
        for q in QS {
            s.query(q, k);
            s.query_mut(q, k, None);
        }
    }
    s.is_monad();
    s.len_hint();
    for back in [false, true] {
        s.iter_all(back, buf.capacity(), buf);
        for n in 1..4 {
            let mut d = (0..n).map(|i| (i % 2 == 1) ^ back);
            s.iter_script(&mut d, steps);
        }
    }
}

/// One history: `reps` times the operations. Returns (max held, peak).
fn history(c: &Config, first: &[Op], ops: &[Op], reps: u32, univ: &[u128], each: bool, cx: &mut Ctx) -> Res {
    let mut ever = BTreeSet::new();
    let mut buf: Vec<KV> = Vec::with_capacity(univ.len() + 4);
    let mut steps: Vec<IterStep> = Vec::with_capacity(8);
    let mut stamp = 0;
    meter::start();
    let mut s = (c.mk)();
    let base = meter::live();
    let r = (|| -> Res {
        let mut held = base;
        for round in 0..=reps {
            for &op in if round == 0 { first } else { ops } {
                if s.is_empty() && !matches!(op, Op::Ins(_) | Op::Fill { .. }) {
                    continue;
                }
                metered(&mut s, op, &mut stamp, &mut ever);
                cx.transitions += 1;
                let now = meter::live();
                held = held.max(now);
                if s.is_empty() && now != base {
                    meter::stop();
                    fail!("{} left no tree, but {} bytes of it are still allocated", show_op(&op), now as i64 - base as i64);
                }
            }
        }
        if each && !s.is_empty() && buf.capacity() > 0 {
            let before = meter::live();
            look(&mut s, univ, &mut buf, &mut steps);
            cx.transitions += univ.len() as u64 * 10 + 10;
            let after = meter::live();
            if after != before {
                meter::stop();
                fail!("queries and passes changed the memory held from {before} to {after} bytes");
            }
        }
        let peak = meter::read().0;
        s.clear();
        if meter::live() != base {
            let l = meter::live() as i64 - base as i64;
            meter::stop();
            fail!("{l} bytes are still allocated after the tree has been dropped");
        }
        meter::stop();
        let f = fresh(c, &ever);
        if meter::live() != 0 {
            fail!("{} bytes are still allocated after a tree of {} entries has been dropped", meter::live(), ever.len());
        }
        for (what, n) in [("held", held), ("needed for a moment", 2 * peak / 3)] {
            if n > allowed(f) {
                fail!("{what}: {n} bytes, although a tree of all {} keys that were ever stored takes {f}", ever.len());
            }
        }
        cx.digest = cx.digest.wrapping_add(mix(held ^ f << 32));
        Ok(())
    })();
    meter::stop();
    let mut h = mix(c.name.len() as u64);
    for &k in &ever {
        h ^= mix128(k);
    }
    cx.states.insert(h);
    cx.traces += 1;
    r
}
fn explain(c: &Config, first: &[Op], ops: Vec<Op>, reps: u32, univ: &[u128], each: bool) -> Option<Fail> {
    let go = |ops: &[Op]| -> Option<Fail> {
        let mut cx = Ctx::bare();
        guarded(|| history(c, first, ops, reps, univ, each, &mut cx)).err()
    };
    let mut ops = ops;
    let mut best = go(&ops)?;
    let mut i = 0;
    while i < ops.len() {
        let mut t = ops.clone();
        t.remove(i);
        match go(&t) {
            Some(f) => {
                best = f;
                ops = t;
            }
            None => i += 1,
        }
    }
    best.trace = std::iter::once(format!("configuration {} ({} key bits)", c.name, c.bits))
        .chain(first.iter().map(show_op))
        .chain(ops.iter().map(show_op))
        .chain((reps > 1).then(|| format!("the last {} of the above {reps} times", ops.len())))
        .collect();
    Some(best)
}

fn hist(c: &Config, variant: u32, depth: u32, reps: u32, kinds: &str, nkeys: usize, full: bool) -> Phase {
    let mut u = small(c, variant);
    u.truncate(nkeys);
    let mut a = alphabet(&u, kinds);
    if c.clones {
        a.push(Op::Dup);
    }
    let n = (a.len() as u64).pow(depth);
    let decode = move |mut i: u64| -> Vec<Op> {
        let mut v = vec![Op::RMin; depth as usize];
        for d in (0..depth as usize).rev() {
            v[d] = a[(i % a.len() as u64) as usize];
            i /= a.len() as u64;
        }
        v
    };
    let d2 = decode.clone();
    let (c1, c2, u1, u2) = (c.clone(), c.clone(), u.clone(), u.clone());
    let first: Vec<Op> = if full { u.iter().map(|&k| Op::Ins(k)).collect() } else { vec![] };
    let f2 = first.clone();
    let name = format!("{}{variant}: all words of {depth} operations on {} keys{}{}, all memory metered, on {}", if reps > 1 { "R" } else { "H" }, u.len(), if full { ", all stored at first" } else { "" }, if reps > 1 { format!(", each word {reps} times over") } else { String::new() }, c.name);
    let mut p = Phase::new(name, n, 64, move |i, cx| {
        let ops = decode(i);
        if !matches!(ops[0], Op::Ins(_)) && reps == 1 {
            return Ok(());
        }
        if cx.want_sample {
            cx.sample = Some(format!("{}: {}", c1.name, ops.iter().map(show_op).collect::<Vec<_>>().join("; ")));
        }
        history(&c1, &first, &ops, reps, &u1, reps == 1, cx)
    });
    p.shrink = Some(Box::new(move |i| explain(&c2, &f2, d2(i), reps, &u2, reps == 1)));
    p
}
/// Every subset of a larger universe, in several build orders, taken apart again in four ways.
fn subs(c: &Config, variant: u32, nkeys: usize) -> Phase {
    let u = mid_universe(c, variant, nkeys);
    let n = (1u64 << u.len()) * 4 * 4;
    let m = u.len();
    let u0 = u.clone();
    let decode = move |i: u64| -> Vec<Op> {
        let (mask, order, way) = (i >> 4, i >> 2 & 3, i & 3);
        let mut v = vec![];
        build_order(&u0, mask, order as u32, &mut v);
        let k = mask.count_ones() as usize;
        match way {
            0 => v.extend((0..k).map(|_| Op::RMin)),
            1 => v.extend((0..k).map(|_| Op::RMax)),
            2 => v.extend(u0.iter().map(|&k| Op::Rem(k))),
            _ => v.extend((0..k / 2).map(|_| Op::RMax)),
        }
        v
    };
    let d2 = decode.clone();
    let (c1, c2, u1) = (c.clone(), c.clone(), u.clone());
    let mut p = Phase::new(format!("S{variant}: {} subsets x 4 build orders x 4 ways out, all memory metered, on {}", 1u64 << m, c.name), n, 64, move |i, cx| history(&c1, &[], &decode(i), 1, &u, true, cx));
    p.shrink = Some(Box::new(move |i| explain(&c2, &[], d2(i), 1, &u1, true)));
    p
}
fn big(c: &Config, depth: u32) -> Phase {
    let a = macros(c);
    let n = (a.len() as u64).pow(depth);
    let decode = move |mut i: u64| -> Vec<Op> {
        let mut v = vec![Op::RMin; depth as usize];
        for d in (0..depth as usize).rev() {
            v[d] = a[(i % a.len() as u64) as usize];
            i /= a.len() as u64;
        }
        v
    };
    let d2 = decode.clone();
    let (c1, c2) = (c.clone(), c.clone());
    let mut p = Phase::new(format!("M: all words of {depth} fills, clears and drains, three times over, all memory metered, on {}", c.name), n, 1, move |i, cx| {
        let ops = decode(i);
        if !matches!(ops[0], Op::Fill { .. }) {
            return Ok(());
        }
        history(&c1, &[], &ops, 3, &[], false, cx)
    });
    p.shrink = Some(Box::new(move |i| explain(&c2, &[], d2(i), 3, &[], false)));
    p
}

fn phases(t: Tier) -> Vec<Phase> {
    let mut v = vec![];
    for c in configs::all() {
        if c.heavy {
            v.push(hist(&c, 0, t.pick(2, 3), 1, "irm1", 5, false));
            v.push(hist(&c, 1, 2, t.pick(4, 16), "irm", 3, false));
            v.push(hist(&c, 2, 2, t.pick(100, 400), "irm", 5, true));
            continue;
        }
        v.push(hist(&c, 0, t.pick(5, 6), 1, "irm1", 5, false));
        v.push(hist(&c, 1, t.pick(4, 5), 1, "irm1", 5, false));
        v.push(hist(&c, 0, t.pick(3, 5), 400, "ir", 3, false));
        v.push(hist(&c, 2, t.pick(2, 3), 400, "irm", 5, true));
        v.push(hist(&c, 0, t.pick(2, 3), 400, "irm", 5, true));
        v.push(subs(&c, 0, t.pick(10, 12)));
        v.push(subs(&c, 1, t.pick(9, 12)));
        if c.bits == 8 || (c.bits == 16 && t == Tier::Thorough) || c.name == "u16/Marker16" || c.name == "u16/Marker16Empty" {
            v.push(big(&c, t.pick(2, if c.bits == 8 { 3 } else { 2 })));
        }
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C19",
        level: "model_checking",
        rule: "A metering allocator counts every byte the real trees allocate and free. All words of operations (insert, remove, remove_min, remove_max, write through a mutable query, dismantle, clone), all subset states by several build orders taken apart in four ways, every short word repeated hundreds of times, and macro-histories: whenever no tree is left, and after dropping what is left at the end, every byte must be back; queries, passes and abandoned iterators must leave the amount unchanged; and at no moment may more be held than a small multiple of what a tree freshly built from all keys ever stored takes. A state is a set of keys ever stored; a trace one judged execution.",
        assumptions: &["bounded: universes, words, repetitions and configurations are those listed in coverage.phases", "the bound is self-relative: a tree that wastes memory in proportion to its contents is not judged here (C11 judges presets against an absolute limit)"],
        compare_builds: false,
        phases,
    })
}
