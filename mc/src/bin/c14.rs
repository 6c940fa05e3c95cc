// features: cnt
use mc::cfg::*;
use mc::counted::*;
use mc::engine::*;
use mc::explore::{build_order, show_op, Op};
use mc::sys::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Insert,
    Remove,
    RemoveMin,
    RemoveMax,
    Find,
    Pred,
    Succ,
    /// min, max, is_monad, len_hint, len, creation from one entry, dismantling
    Fixed,
    IterStep,
}
use Kind::*;
const KINDS: [Kind; 9] = [Insert, Remove, RemoveMin, RemoveMax, Find, Pred, Succ, Fixed, IterStep];

/// Steps allowed per recursion level. Every constant is at least twice what the crate takes when this was
/// written; what is bounded is the growth, not the constant.
fn allowed(k: Kind, levels: u64) -> u64 {
    match k {
        Insert => 13 * levels + 10,
        Remove => 15 * levels + 10,
        RemoveMin | RemoveMax => 12 * levels + 10,
        Find => 12 * levels + 8,
        Pred | Succ => 18 * levels + 10,
        IterStep => 18 * levels + 14,
        Fixed => 6,
    }
}
const Z: AtomicU64 = AtomicU64::new(0);
static WORST: [[AtomicU64; 9]; 32] = [const { [Z; 9] }; 32];

struct Meter<'a> {
    s: Box<dyn Sys>,
    n: u64,
    levels: u64,
    id: usize,
    cx: &'a mut Ctx,
    h: u64,
}
impl<'a> Meter<'a> {
    fn new(c: &Counting, id: usize, cx: &'a mut Ctx) -> Meter<'a> {
        Meter { s: (c.cfg.mk)(), n: 0, levels: c.levels as u64, id, cx, h: mix(id as u64) }
    }
    fn judge(&mut self, k: Kind, what: impl FnOnce() -> String, from: u64) -> Res {
        let used = steps() - from;
        self.cx.transitions += 1;
        WORST[self.id][k as usize].fetch_max(used, Relaxed);
        let max = allowed(k, self.levels);
        if used > max {
            return Err(Fail::new(format!("{} took {used} steps on a tree of {} entries; {max} are allowed for {} levels", what(), self.n, self.levels)));
        }
        Ok(())
    }
    fn op(&mut self, op: Op) -> Res {
        let from = steps();
        let k = match op {
            Op::Ins(k) => {
                let first = self.s.is_empty();
                if self.s.insert(k, 1).is_none() {
                    self.n += 1;
                    self.h ^= mix128(k);
                }
                if first { Fixed } else { Insert }
            }
            Op::Rem(k) => {
                if self.s.remove(k).is_ok() {
                    self.n -= 1;
                    self.h ^= mix128(k);
                }
                Remove
            }
            Op::RMin => {
                if let Some((k, _)) = self.s.remove_min() {
                    self.n -= 1;
                    self.h ^= mix128(k);
                }
                RemoveMin
            }
            Op::RMax => {
                if let Some((k, _)) = self.s.remove_max() {
                    self.n -= 1;
                    self.h ^= mix128(k);
                }
                RemoveMax
            }
            Op::Monad => {
                if let Ok((k, _)) = self.s.into_monad() {
                    self.n -= 1;
                    self.h ^= mix128(k);
                }
                Fixed
            }
            _ => unreachable!(),
        };
        self.judge(k, || show_op(&op), from)
    }
    fn query(&mut self, k: u128) -> Res {
        for (q, kind) in [(Q::Find, Find), (Q::Pred, Pred), (Q::Succ, Succ)] {
            let f = steps();
            self.s.query(q, k);
            self.judge(kind, || format!("{q:?} {k:#x}"), f)?;
            let f = steps();
            self.s.query_mut(q, k, None);
            self.judge(kind, || format!("{q:?}_mut {k:#x}"), f)?;
        }
        Ok(())
    }
    fn fixed(&mut self) -> Res {
        for q in [Q::Min, Q::Max] {
            let f = steps();
            self.s.query(q, 0);
            self.judge(Fixed, || format!("{q:?}"), f)?;
            let f = steps();
            self.s.query_mut(q, 0, None);
            self.judge(Fixed, || format!("{q:?}_mut"), f)?;
        }
        let f = steps();
        self.s.is_monad();
        self.judge(Fixed, || "is_monad".into(), f)?;
        let f = steps();
        self.s.len_hint();
        self.judge(Fixed, || "len_hint".into(), f)?;
        let f = steps();
        self.s.exact();
        self.judge(Fixed, || "len".into(), f)?;
        if self.n > 1 {
            // hands the tree back
            self.op(Op::Monad)?;
        }
        self.cx.states.insert(self.h);
        Ok(())
    }
    /// Steps of every single move of an iterator.
    fn iterate(&mut self, back: u32) -> Res {
        let mut at = vec![];
        let mut i = 0u32;
        let n = self.n + 2;
        let mut out = vec![];
        self.s.iter_script(
            &mut std::iter::from_fn(|| {
                at.push(steps());
                i += 1;
                (i as u64 <= n).then_some(match back { 0 => false, 1 => true, _ => i % 2 == 0 })
            }),
            &mut out,
        );
        for w in 1..at.len() {
            let used = at[w] - at[w - 1];
            WORST[self.id][IterStep as usize].fetch_max(used, Relaxed);
            self.cx.transitions += 1;
            let max = allowed(IterStep, self.levels);
            if used > max {
                return Err(Fail::new(format!("step {w} of iterating {} took {used} steps on a tree of {} entries; {max} are allowed for {} levels", ["forward", "backward", "alternately"][back as usize], self.n, self.levels)));
            }
        }
        Ok(())
    }
}

/// All keys whose digits are symbols of a small set, in ascending order.
fn product(bits: u32, digit: u32, syms: &[u128], cap: usize) -> Vec<u128> {
    let nd = bits / digit;
    let mut v = vec![0u128];
    // the lowest digits vary fastest; when there are too many keys the highest digits stay at the last symbol
    let mut sh = 0;
    let mut i = 0;
    while i < nd {
        let full = v.len() * syms.len() > cap;
        let mut w = vec![];
        for s in syms {
            if full && s != syms.last().unwrap() {
                continue;
            }
            w.extend(v.iter().map(|x| x | s << sh));
        }
        v = w;
        sh += digit;
        i += 1;
    }
    v.sort();
    v.dedup();
    v
}
fn order(n: usize, o: u32) -> Vec<usize> {
    let n2 = n.next_power_of_two();
    let w = n2.trailing_zeros();
    match o {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n2).map(|i| if w == 0 { 0 } else { i.reverse_bits() >> (usize::BITS - w) }).filter(|i| *i < n).collect(),
        _ => (0..n2).map(|i| (i * 5 + 3) % n2).filter(|i| *i < n).collect(),
    }
}
fn fill(c: &Counting, id: usize, syms: &'static [u128], cap: usize) -> Phase {
    let c = Counting { cfg: c.cfg.clone(), shape: c.shape.clone(), ..*c };
    let keys = product(c.cfg.bits, c.digit, syms, cap);
    let nm = format!("F: {} keys over digits {syms:x?} filled in 4 orders x emptied in 6 ways, every step count, on {}", keys.len(), c.cfg.name);
    Phase::new(nm, 24, 1, move |i, cx| {
        let (o, way) = ((i % 4) as u32, (i / 4) as u32);
        let m = max_code(&c.cfg);
        let mut t = Meter::new(&c, id, cx);
        let ord = order(keys.len(), o);
        let trace = |m: &mut Meter, r: Res, what: String| -> Res {
            m.cx.tick();
            r.map_err(|mut f| {
                f.trace = vec![format!("configuration {}, {} levels", c.cfg.name, c.levels), format!("{} keys whose digits are {syms:x?}, inserted in order {o}", keys.len()), what];
                f
            })
        };
        for (j, &x) in ord.iter().enumerate() {
            let r = t.op(Op::Ins(keys[x]));
            trace(&mut t, r, format!("insertion {j}"))?;
            if way == 0 {
                // once more, and absent neighbours
                let r = t.op(Op::Ins(keys[x])).and_then(|_| t.op(Op::Rem(keys[x] ^ 1 << (c.digit - 1)))).and_then(|_| t.fixed());
                trace(&mut t, r, format!("after insertion {j}"))?;
                t.op(Op::Ins(keys[x]))?;
            }
            if way < 2 && (j + 1).is_power_of_two() || j + 1 == ord.len() {
                let st = (keys.len() / 4096).max(1);
                for k in keys.iter().step_by(st) {
                    let r = t.query(*k).and_then(|_| t.query(k.saturating_sub(1))).and_then(|_| if *k < m { t.query(k + 1) } else { Ok(()) });
                    trace(&mut t, r, format!("queries after insertion {j}"))?;
                }
                let r = t.iterate(way % 3).and_then(|_| t.fixed());
                trace(&mut t, r, format!("iteration after insertion {j}"))?;
            }
        }
        let out = order(keys.len(), way % 4);
        for (j, &x) in out.iter().enumerate() {
            let op = match way {
                4 => Op::RMin,
                5 => Op::RMax,
                _ => Op::Rem(keys[x]),
            };
            if way == 3 && j % 2 == 0 {
                let r = t.op(Op::Rem(keys[x] ^ 1));
                trace(&mut t, r, format!("removal {j} of an absent key"))?;
            }
            if t.s.is_empty() {
                break;
            }
            let r = t.op(op).and_then(|_| if t.s.is_empty() { Ok(()) } else { t.fixed() });
            trace(&mut t, r, format!("removal {j}, way {way}"))?;
            if way == 2 {
                let r = t.query(keys[x]);
                trace(&mut t, r, format!("queries after removal {j}"))?;
            }
        }
        t.cx.traces += 1;
        if t.cx.want_sample {
            t.cx.sample = Some(format!("{}: {} keys in order {o}, out again way {way}", c.cfg.name, keys.len()));
        }
        Ok(())
    })
}
/// Every content over a small universe, every operation.
fn small(c: &Counting, id: usize, nkeys: usize) -> Phase {
    let c = Counting { cfg: c.cfg.clone(), shape: c.shape.clone(), ..*c };
    // keys that share all, most, half and none of their digits with one in the middle
    let m = max_code(&c.cfg);
    let b = c.cfg.bits;
    let one = m / 3; // digits 01 01 ... or 55 55 ...
    let mut u = vec![0, m, one, one + 1, one - 1];
    let mut sh = c.digit;
    let mut flip = 0;
    while sh < b {
        let k = one ^ (1u128 << sh) ^ flip;
        if !u.contains(&k) {
            u.push(k);
        }
        flip ^= 1;
        sh *= 2;
    }
    for d in [3, 5, 7, 9, 11] {
        let k = one ^ (1u128 << (c.digit * d % b)) ^ 2;
        if !u.contains(&k) {
            u.push(k);
        }
    }
    u.truncate(nkeys);
    u.sort();
    let p = probes(&c.cfg, &u);
    let orders = [0u32, 1, 2, 5];
    let mut ops: Vec<Op> = u.iter().map(|k| Op::Ins(*k)).collect();
    ops.extend(u.iter().map(|k| Op::Rem(*k)));
    ops.extend([Op::RMin, Op::RMax, Op::Monad]);
    let n = (1u64 << u.len()) * 4;
    Phase::new(format!("S: {} contents x 4 build orders x {} operations and all queries, every step count, on {}", 1u64 << u.len(), ops.len(), c.cfg.name), n, 4, move |i, cx| {
        let (mask, o) = (i / 4, orders[(i % 4) as usize]);
        if mask == 0 {
            return Ok(());
        }
        let mut b = vec![];
        build_order(&u, mask, o, &mut b);
        let label = |mut f: Fail, op: Option<Op>| {
            f.trace = vec![format!("configuration {}, {} levels", c.cfg.name, c.levels)];
            f.trace.extend(b.iter().map(show_op));
            f.trace.extend(op.map(|o| show_op(&o)));
            f
        };
        let mut t = Meter::new(&c, id, cx);
        for (j, &op) in ops.iter().enumerate() {
            t.s.clear();
            t.n = 0;
            t.h = mix(id as u64);
            for &op in &b {
                if t.s.is_empty() && !matches!(op, Op::Ins(_)) {
                    continue;
                }
                t.op(op).map_err(|f| label(f, None))?;
            }
            if j == 0 {
                for &k in &p {
                    t.query(k).map_err(|f| label(f, None))?;
                }
                for w in 0..3 {
                    t.iterate(w).map_err(|f| label(f, None))?;
                }
                t.fixed().map_err(|f| label(f, None))?;
            }
            t.op(op).map_err(|f| label(f, Some(op)))?;
            if !t.s.is_empty() {
                t.fixed().map_err(|f| label(f, Some(op)))?;
            }
            t.cx.traces += 1;
        }
        if t.cx.want_sample {
            t.cx.sample = Some(format!("{}: {}", c.cfg.name, b.iter().map(show_op).collect::<Vec<_>>().join("; ")));
        }
        t.cx.tick();
        Ok(())
    })
}
/// For keys k of periodic digits: the content around which every search for k branches at every node, built in
/// four orders, with and without k itself, and each operation on k and its neighbours.
fn adversarial(c: &Counting, id: usize, period: u32) -> Phase {
    let c = Counting { cfg: c.cfg.clone(), shape: c.shape.clone(), ..*c };
    let m = max_code(&c.cfg);
    let syms: Vec<u128> = match c.digit {
        1 => vec![0, 1],
        2 => vec![0, 1, 2, 3],
        _ => vec![1, 127, 128, 254],
    };
    let words = (syms.len() as u64).pow(period);
    let n = words * 4 * 2;
    Phase::new(format!("A: {words} keys of {period} repeated digits from {syms:x?}, the content around each that leads every search on in summary and child, with and without it, in 4 orders, every operation, every step count, on {}", c.cfg.name), n, 2, move |i, cx| {
        let (o, with, w) = ((i % 4) as u32, i / 4 % 2 == 1, i / 8);
        let mut k = 0u128;
        for j in 0..c.cfg.bits / c.digit {
            let d = w / (syms.len() as u64).pow(j % period) % syms.len() as u64;
            k |= syms[d as usize] << (j * c.digit);
        }
        let mut keys = c.shape.around(k);
        keys.retain(|x| with || *x != k);
        let ord = order(keys.len(), o);
        let what = std::cell::RefCell::new(String::new());
        let mut t = Meter::new(&c, id, cx);
        let mut run = || -> Res {
            let fill = |t: &mut Meter, skip: Option<u128>| -> Res {
                t.s.clear();
                t.n = 0;
                t.h = mix(id as u64);
                for &x in &ord {
                    if Some(keys[x]) != skip {
                        t.op(Op::Ins(keys[x]))?;
                    }
                }
                t.cx.traces += 1;
                Ok(())
            };
            fill(&mut t, None)?;
            let near = [k, k.saturating_sub(1), if k < m { k + 1 } else { m }];
            for x in near.iter().chain(&keys) {
                t.query(*x)?;
            }
            t.fixed()?;
            t.iterate(o % 3)?;
            for x in near {
                what.replace(format!("then insert and remove {x:#x}"));
                t.op(Op::Ins(x))?;
                t.op(Op::Ins(x))?;
                t.op(Op::Rem(x))?;
                t.op(Op::Rem(x))?;
                t.op(Op::Ins(x))?;
                t.query(x)?;
            }
            // every key of the content taken out of it in turn, and put back
            for &x in &keys {
                what.replace(format!("then remove {x:#x}, look for it and insert it again"));
                t.op(Op::Rem(x))?;
                t.query(x)?;
                t.op(Op::Ins(x))?;
            }
            for way in 0..2 {
                fill(&mut t, None)?;
                what.replace(format!("then remove the {} again and again", ["least", "greatest"][way]));
                while !t.s.is_empty() {
                    t.op([Op::RMin, Op::RMax][way])?;
                }
            }
            Ok(())
        };
        let r = run();
        t.cx.tick();
        if t.cx.want_sample {
            t.cx.sample = Some(format!("{}: around {k:#x}", c.cfg.name));
        }
        r.map_err(|mut f| {
            f.trace = vec![format!("configuration {}, {} levels", c.cfg.name, c.levels), format!("insert in turn {:x?}", ord.iter().map(|x| keys[*x]).collect::<Vec<_>>()), what.into_inner()];
            f
        })
    })
}
fn phases(t: Tier) -> Vec<Phase> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    for (id, c) in counted().iter().enumerate() {
        v.push(small(c, id, if q { 9 } else { 12 }));
        v.push(adversarial(c, id, if c.digit == 1 { if q { 6 } else { 10 } } else if q { 3 } else { 5 }));
        let (two, three, many): (&'static [u128], &'static [u128], &'static [u128]) = if c.digit == 1 { (&[0, 1], &[0, 1], &[0, 1]) } else if c.digit == 2 { (&[0, 3], &[0, 1, 3], &[0, 1, 2, 3]) } else { (&[0, 255], &[0, 127, 255], &[0, 1, 126, 127, 128, 129, 254, 255]) };
        v.push(fill(c, id, two, if q { 4096 } else { 1 << 17 }));
        v.push(fill(c, id, three, if q { 20000 } else { 540000 }));
        v.push(fill(c, id, many, if q { 65536 } else { 1 << 20 }));
    }
    if std::env::var_os("MC_WORST").is_some() {
        v.push(Phase::new("worst", 1, 1, |_, _| {
            for (id, c) in counted().iter().enumerate() {
                let s: Vec<String> = KINDS.iter().map(|k| { let w = WORST[id][*k as usize].load(Relaxed); format!("{k:?} {w} ({:.1}/l, {})", w as f64 / c.levels as f64, allowed(*k, c.levels as u64)) }).collect();
                eprintln!("{:28} L{:2} {}", c.cfg.name, c.levels, s.join("  "));
            }
            Ok(())
        }));
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C14",
        level: "model_checking",
        rule: "Keys, leaves, lists and child collections count comparisons, splits, joins and accesses. Every content of a small universe by four build orders with every operation and query, and products of key digits (up to 65536 keys in the quick tier, a million in the thorough one) filled in four orders and emptied in six ways with every insertion, removal, query and iterator step judged, over key types two to twelve levels deep, and the contents that are hardest for each operation (a key's path full, a key's path alone, neighbours just missing at every level) with every key of that path asked. Array children are counted slot by slot. Each must stay within a constant per level; minimum, maximum, single-entry status and length within a fixed number of steps. A state is a distinct (configuration, key set); a trace one judged execution.",
        assumptions: &["steps inside the byte set and the hash table themselves are not visible", "bounded: key types, contents and orders are those listed in coverage.phases", "a hash that spreads keys well"],
        compare_builds: false,
        phases,
    })
}
