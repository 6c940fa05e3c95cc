// features: cfgs
use mc::configs::*;
use mc::engine::*;
use mc::explore::*;
use mc::fail;
use mc::suite::*;
use mc::sys::*;
use std::collections::{BTreeMap, VecDeque};
use veb_tree::bitset::{ByteMap, ByteSet, List, TreeList};
use veb_tree::VebTree;

fn leaves() -> Vec<Config> {
    presets().into_iter().chain(wrappers()).filter(|c| c.bits == 8 && !c.name.contains("own")).collect()
}
fn all256() -> Vec<u128> {
    (0..256).collect()
}
/// keys on every boundary of 64- and 128-bit words and of the domain
const EDGE: [u128; 16] = [0, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255];
const ALLQ: u32 = FIND | NAV | MUTQ | SIZE | ITER;

fn plan(c: &Config, u: &[u128], kinds: &str, obs: u32) -> Plan {
    Plan { cfg: c.clone(), univ: u.to_vec(), probes: all256(), alphabet: alphabet(u, kinds), flags: RINS | RREM | RMON | RMUT, obs, each: false }
}

/// Every set of 1..=3 keys of the whole domain, in every insertion order (`full`: the complements).
fn few(c: &Config, n: u32, full: bool, one_order: bool) -> Phase {
    let c = c.clone();
    let total = 256u64.pow(n);
    let nm = format!("{} all ordered {n}-tuples of the 256 keys{} on {}", if full { "complements of" } else { "" }, if one_order { " (one order each: middle, low, high)" } else { "" }, c.name);
    let a = all256();
    Phase::new(nm, total, 64, move |i, cx| {
        let ks: Vec<u128> = (0..n).map(|d| ((i >> (8 * d)) & 255) as u128).collect();
        if one_order && (n > 1 && ks[1] >= ks[0] || n > 2 && ks[2] <= ks[0]) {
            return Ok(());
        }
        let probes: Vec<u128> = if n < 2 {
            a.clone()
        } else {
            let mut p: Vec<u128> = ks.iter().flat_map(|k| [k.wrapping_sub(1) & 255, *k, (k + 1) & 255]).chain([0, 127, 128, 255]).collect();
            p.sort();
            p.dedup();
            p
        };
        let mut r = Runner::new(&c, RINS | RREM | RMON, 1, cx);
        let mut ops = vec![];
        if full {
            ops.push(Op::Fill { start: 0, step: 1, count: 256, down: i & 1 == 1 });
            ops.extend(ks.iter().map(|k| Op::Rem(*k)));
        } else {
            ops.extend(ks.iter().map(|k| Op::Ins(*k)));
        }
        let go = |r: &mut Runner, ops: &[Op]| -> Res {
            for &op in ops {
                r.op(op)?;
            }
            r.observe(if n > 2 { FIND | NAV | MUTQ | SIZE } else { ALLQ }, &probes)?;
            // take them out again, in order
            if !full {
                for &k in &ks {
                    if r.empty() {
                        break;
                    }
                    r.op(Op::Rem(k))?;
                    r.observe(if n > 2 { NAV } else { ALLQ }, &probes)?;
                }
            }
            Ok(())
        };
        if let Err(mut f) = guarded(|| go(&mut r, &ops)) {
            f.trace = trace_of(&c, &ops, ", then removed one by one unless full");
            return Err(f);
        }
        r.finish()?;
        if r.cx.want_sample {
            r.cx.sample = Some(ops.iter().map(show_op).collect::<Vec<_>>().join("; "));
            r.cx.want_sample = false;
        }
        Ok(())
    })
}

/// Every interval [a, b] of the domain (as contents, and as a hole), every probe.
fn intervals(c: &Config) -> Phase {
    let c = c.clone();
    let a = all256();
    Phase::new(format!("all intervals as contents and as holes, all 256 probes, on {}", c.name), 65536 * 2, 64, move |i, cx| {
        let (lo, hi, hole) = (i >> 9, (i >> 1) & 255, i & 1 == 1);
        if lo > hi {
            return Ok(());
        }
        let n = (hi - lo + 1) as u32;
        let mut ops = vec![];
        if hole {
            if n == 256 {
                return Ok(());
            }
            ops.push(Op::Fill { start: 0, step: 1, count: 256, down: false });
            ops.push(Op::Clear { start: lo as u128, step: 1, count: n, down: lo & 1 == 1 });
        } else {
            ops.push(Op::Fill { start: lo as u128, step: 1, count: n, down: lo & 1 == 1 });
        }
        let mut r = Runner::new(&c, RINS | RREM, 2, cx);
        let mut go = || -> Res {
            for &op in &ops {
                r.op(op)?;
            }
            r.observe(if n & 15 == 1 || n < 4 { ALLQ } else { NAV | MUTQ | SIZE }, &a)
        };
        if let Err(mut f) = guarded(&mut go) {
            f.trace = trace_of(&c, &ops, "");
            return Err(f);
        }
        r.finish()?;
        Ok(())
    })
}

/// The inherent methods of ByteSet over every subset of the edge keys.
fn inherent() -> Phase {
    Phase::new("ByteSet::len, lowest, highest, copies and equality over all subsets of 16 edge keys", 65536, 64, |i, cx| {
        if i == 0 {
            return Ok(());
        }
        let ks: Vec<u8> = EDGE.iter().enumerate().filter(|(b, _)| i >> b & 1 == 1).map(|(_, k)| *k as u8).collect();
        let build = |it: &mut dyn Iterator<Item = u8>| {
            let mut s = ByteSet::from_monad(it.next().unwrap(), ());
            for k in it {
                s.insert(k, ());
            }
            s
        };
        let s = build(&mut ks.iter().copied());
        let t = build(&mut ks.iter().rev().copied());
        cx.transitions += 5;
        cx.traces += 1;
        cx.states.insert(i);
        if s.len().get() != ks.len() || s.lowest() != ks[0] || s.highest() != *ks.last().unwrap() {
            fail!("{ks:?}: len {} lowest {} highest {}", s.len(), s.lowest(), s.highest());
        }
        if s != t {
            fail!("{ks:?} built up and down are not equal");
        }
        // masking an array with the set keeps exactly the bits of its keys
        let words = |keys: &mut dyn Iterator<Item = u8>| {
            let mut w = [0u128; 2];
            keys.for_each(|k| w[k as usize >> 7] |= 1 << (k & 127));
            w
        };
        for pat in [u128::MAX, 0, 0x5555 << 112 | 0xaaaa << 56 | 0x3333, 1 << 127 | 1] {
            let mut w = [pat, !pat];
            w &= s;
            let m = words(&mut ks.iter().copied());
            if w != [pat & m[0], !pat & m[1]] {
                fail!("{ks:?}: masking {pat:x} and {:x} gave {w:x?}", !pat);
            }
        }
        let mut u = s;
        u.insert(100, ());
        if u == s || s.len().get() != ks.len() {
            fail!("{ks:?}: a copy is not independent");
        }
        let m: ByteMap<VecDeque<u32>> = {
            let mut m = ByteMap::from_monad(ks[0], ks[0] as u32);
            for &k in ks[1..].iter().rev() {
                m.insert(k, k as u32);
            }
            m
        };
        for k in 0..=255u8 {
            let f = m.find(k).map(|(k, v)| (*k, *v));
            let want = ks.contains(&k).then_some((k, k as u32));
            if f != want {
                fail!("byte map {ks:?}: find({k}) is {f:?}");
            }
        }
        Ok(())
    })
}

/// Every word of list operations: insert, remove and write at each of the first five places.
fn value_lists(depth: u32) -> Phase {
    const PLACES: u64 = 5;
    let n = (3 * PLACES).pow(depth);
    Phase::new(format!("every word of {depth} insertions, removals and writes at {PLACES} places of a value list"), n, 1024, move |i, cx| {
        let mut word = vec![];
        let mut x = i;
        for _ in 0..depth {
            word.push(((x / PLACES) % 3, (x % PLACES) as usize));
            x /= 3 * PLACES;
        }
        let mut model: Vec<u32> = vec![];
        let mut list: Option<VecDeque<u32>> = None;
        for (j, &(kind, at)) in word.iter().enumerate() {
            let v = j as u32 + 1;
            cx.transitions += 1;
            let what = match kind {
                0 if at <= model.len() => {
                    model.insert(at, v);
                    match list.as_mut() {
                        None => list = Some(<VecDeque<u32> as List>::from_monad(v)),
                        Some(l) => l.insert_value(at, v),
                    }
                    format!("insert at {at}")
                }
                1 if at < model.len() => {
                    let want = model.remove(at);
                    let (rest, got) = list.take().unwrap().remove_value(at);
                    list = rest;
                    if got != want {
                        fail!("list word {word:?}, step {j}: removing at {at} gave {got}, expected {want}");
                    }
                    format!("remove at {at}")
                }
                2 if at < model.len() => {
                    model[at] = v;
                    *List::get_mut(list.as_mut().unwrap(), at) = v;
                    format!("write at {at}")
                }
                _ => return Ok(()), // not a word of operations
            };
            if list.is_none() != model.is_empty() {
                fail!("list word {word:?}, step {j}, {what}: {} values remain but the list is {}", model.len(), if list.is_none() { "gone" } else { "there" });
            }
            let Some(l) = &list else { continue };
            let all: Vec<u32> = (0..model.len()).map(|k| *List::get(l, k)).collect();
            if List::len(l) != model.len() || List::is_empty(l) || all != model {
                fail!("list word {word:?}, step {j}, {what}: length {} (is_empty {}), values {all:?}, expected {model:?}", List::len(l), List::is_empty(l));
            }
            cx.states.insert(all.iter().fold(model.len() as u64, |h, v| h * 31 + *v as u64));
        }
        cx.traces += 1;
        Ok(())
    })
}

/// Every word of tree-list operations: insert a tree of one or two entries; remove its minimum; try an absent and a
/// present key; add an entry; at each of the first three places.
fn tree_lists<T: VebTree<Key = u8, Value = u32> + 'static>(name: &str, depth: u32) -> Phase {
    const PLACES: u64 = 3;
    let n = (6 * PLACES).pow(depth);
    Phase::new(format!("every word of {depth} operations at {PLACES} places of a tree list of {name}"), n, 1024, move |i, cx| {
        let mut word = vec![];
        let mut x = i;
        for _ in 0..depth {
            word.push(((x / PLACES) % 6, (x % PLACES) as usize));
            x /= 6 * PLACES;
        }
        let mut model: Vec<BTreeMap<u8, u32>> = vec![];
        let mut list: Option<VecDeque<T>> = None;
        for (j, &(kind, at)) in word.iter().enumerate() {
            let v = j as u32 + 1;
            let k = 255 - 40 * j as u8;
            cx.transitions += 1;
            if at > model.len() || kind > 1 && at == model.len() {
                return Ok(()); // not a word of operations
            }
            match kind {
                0 | 1 => {
                    let (mut m, mut t) = (BTreeMap::from([(k, v)]), T::from_monad(k, v));
                    if kind == 1 {
                        m.insert(k - 7, v + 100);
                        t.insert(k - 7, v + 100);
                    }
                    model.insert(at, m);
                    match list.as_mut() {
                        None => list = Some(<VecDeque<T> as TreeList>::from_monad(t)),
                        Some(l) => l.insert_tree(at, t),
                    }
                }
                2 => {
                    let want = model[at].pop_first().unwrap();
                    let gone = model[at].is_empty();
                    if gone {
                        model.remove(at);
                    }
                    let (rest, got) = TreeList::remove_key(list.take().unwrap(), at, VebTree::remove_min);
                    let flag = rest.as_ref().map(|(_, g)| *g);
                    list = rest.map(|(l, _)| l);
                    if got != want || flag.is_some_and(|g| g != gone) {
                        fail!("tree list word {word:?}, step {j}: remove_key at {at} gave {got:?} and says the tree is gone: {flag:?}; expected {want:?} and {gone}");
                    }
                }
                3 | 4 => {
                    let key = if kind == 3 { 3 } else { *model[at].last_key_value().unwrap().0 };
                    let want = BTreeMap::remove(&mut model[at], &key).map(|v| (key, v));
                    let gone = model[at].is_empty();
                    if gone {
                        model.remove(at);
                    }
                    let (got, flag);
                    match TreeList::maybe_remove_key(list.take().unwrap(), at, |t| t.remove(key)) {
                        Err(l) => {
                            list = Some(l);
                            (got, flag) = (None, None);
                        }
                        Ok((rest, kv)) => {
                            (got, flag) = (Some(kv), rest.as_ref().map(|(_, g)| *g));
                            list = rest.map(|(l, _)| l);
                        }
                    }
                    if got != want || flag.is_some_and(|g| g != gone) {
                        fail!("tree list word {word:?}, step {j}: maybe_remove_key of {key} at {at} gave {got:?} and says the tree is gone: {flag:?}; expected {want:?} and {gone}");
                    }
                }
                _ => {
                    let want = model[at].insert(k, v).map(|o| (k, o));
                    let got = TreeList::get_mut(list.as_mut().unwrap(), at).insert(k, v);
                    if got != want {
                        fail!("tree list word {word:?}, step {j}: inserting {k} at {at} gave {got:?}, expected {want:?}");
                    }
                }
            }
            if list.is_none() != model.is_empty() {
                fail!("tree list word {word:?}, step {j}: {} trees remain but the list is {}", model.len(), if list.is_none() { "gone" } else { "there" });
            }
            let Some(l) = &list else { continue };
            if TreeList::len(l).get() != model.len() {
                fail!("tree list word {word:?}, step {j}: length {}, expected {}", TreeList::len(l), model.len());
            }
            for (p, m) in model.iter().enumerate() {
                let t = TreeList::get(l, p);
                let mut got = vec![];
                let mut at = Some(t.min_val()).map(|(k, v)| (*k, *v));
                while let Some(e) = at {
                    got.push(e);
                    at = t.successor(e.0).map(|(k, v)| (*k, *v));
                }
                if !got.iter().copied().eq(m.iter().map(|(k, v)| (*k, *v))) {
                    fail!("tree list word {word:?}, step {j}: the tree at {p} holds {got:?}, expected {m:?}");
                }
            }
            cx.states.insert(model.iter().flatten().fold(model.len() as u64, |h, (k, v)| h.wrapping_mul(0x9e3779b97f4a7c15) ^ (*k as u64) << 32 ^ *v as u64));
        }
        cx.traces += 1;
        Ok(())
    })
}

fn phases(t: Tier) -> Vec<Phase> {
    let mut v = vec![inherent()];
    let q = t == Tier::Quick;
    v.push(value_lists(if q { 5 } else { 7 }));
    v.push(tree_lists::<BTreeMap<u8, u32>>("BTreeMap", if q { 4 } else { 6 }));
    v.push(tree_lists::<ByteMap<VecDeque<u32>>>("byte map", if q { 4 } else { 6 }));
    for c in leaves() {
        let main = c.name == "u8/Marker8" || c.name == "u8/Marker8Empty";
        // all subsets of the edge keys, every probe of the domain
        v.push(subsets("S", &plan(&c, &EDGE, "irm1", if main { ALLQ } else { NAV | SIZE }), if main && !q { &[0, 1, 2, 3, 4, 5, 6] } else if main { &[0, 5] } else { &[4] }, 0));
        v.push(subsets("S", &plan(&c, &EDGE[3..13], "irm1x", ALLQ), &[1, 2, 3, 6], 1));
        let five: [u128; 5] = [0, 127, 128, 129, 255];
        v.push(histories("H", &plan(&c, &five, "irm1x", ALLQ), if q { 4 } else { 6 }));
        v.push(histories("H", &plan(&c, &[63, 64, 126, 127, 128], "irm1", ALLQ), if q { 4 } else { 6 }));
        if main {
            v.push(few(&c, 1, false, false));
            v.push(few(&c, 2, false, false));
            v.push(few(&c, 3, false, q));
            v.push(few(&c, 1, true, false));
            v.push(few(&c, 2, true, q));
            v.push(intervals(&c));
        }
        let sp = Spec { flags: RINS | RREM | RMON, obs: ALLQ, obs_big: ALLQ, kinds: "irm1" };
        v.push(macro_hist(&c, t.pick(3, 4), 1, &sp));
        for d in [DRAINMIN, DRAINMAX, DRAINALT] {
            v.push(macro_hist(&c, 2, 1, &Spec { obs_big: d | FIND, ..sp }));
        }
    }
    v
}
fn main() {
    let _ = QS;
    mc::engine::main(Check {
        prop: "C10",
        level: "model_checking",
        rule: "The byte set, the byte map and their wrappers against a reference map: all 65536 subsets of 16 boundary keys by several build orders, all single keys, pairs and triples (quick: one insertion order per triple, thorough: all) of the 256-key domain and complements of singles and pairs, all intervals as contents and as holes, histories across the word boundaries, and macro-histories up to the completely full container; every word of operations on the value and tree lists underneath; queried at every one of the 256 keys (at all neighbours for pairs and triples). A state is a distinct (configuration, key set); a trace one judged execution.",
        assumptions: MAP_ASSUMPTIONS,
        compare_builds: false,
        phases,
    })
}
