// features: cfgs
use mc::alloc_meter;
use mc::configs::*;
use mc::engine::*;
use mc::explore::*;
use mc::fail;
use mc::suite::*;
use mc::sys::*;
use std::cell::RefCell;
use std::rc::Rc;

#[global_allocator]
static METER: alloc_meter::Meter = alloc_meter::Meter;

/// Operations over key numbers 0..m, meaning the n-th key of each configuration's own universe.
#[derive(Clone, Copy)]
enum Ab {
    Ins(usize),
    Rem(usize),
    RMin,
    RMax,
    Monad,
    Mut(Q, usize),
}
fn alpha(m: usize) -> Vec<Ab> {
    let mut v = vec![];
    v.extend((0..m).map(Ab::Ins));
    v.extend((0..m).map(Ab::Rem));
    v.extend([Ab::RMin, Ab::RMax, Ab::Monad]);
    v.push(Ab::Mut(Q::Find, m / 2));
    v.push(Ab::Mut(Q::Pred, m / 2));
    v.push(Ab::Mut(Q::Succ, m / 2));
    v.push(Ab::Mut(Q::Min, 0));
    v.push(Ab::Mut(Q::Max, 0));
    v
}
fn show_ab(a: &Ab) -> String {
    match a {
        Ab::Ins(i) => format!("insert key #{i}"),
        Ab::Rem(i) => format!("remove key #{i}"),
        Ab::RMin => "remove_min".into(),
        Ab::RMax => "remove_max".into(),
        Ab::Monad => "into_monad".into(),
        Ab::Mut(q, i) => format!("write through {q:?}_mut #{i}"),
    }
}

/// One configuration driven by key numbers; what it answers is written in key numbers too.
struct Side {
    cfg: Config,
    univ: Vec<u128>,
    sys: Box<dyn Sys>,
    stamp: u32,
}
impl Side {
    fn new(cfg: &Config, univ: Vec<u128>) -> Side {
        Side { sys: (cfg.mk)(), cfg: cfg.clone(), univ, stamp: 0 }
    }
    fn reset(&mut self) {
        self.sys.clear();
        self.stamp = 0;
    }
    /// (key number + 1, value) as one word; 0 for nothing. A key outside the universe is ~0.
    fn r(&self, kv: Option<KV>, values: bool) -> u64 {
        match kv {
            None => 0,
            Some((k, v)) => match self.univ.binary_search(&k) {
                Ok(i) => (i as u64 + 1) << 32 | if values { v as u64 } else { 0 },
                Err(_) => u64::MAX,
            },
        }
    }
    fn op(&mut self, a: Ab, values: bool) -> u64 {
        self.stamp += 1;
        let w = if self.cfg.valued { self.stamp } else { 0 };
        let r = match a {
            Ab::Ins(i) => self.sys.insert(self.univ[i], w),
            Ab::Rem(i) => self.sys.remove(self.univ[i]).ok(),
            Ab::RMin => self.sys.remove_min(),
            Ab::RMax => self.sys.remove_max(),
            Ab::Monad => self.sys.into_monad().ok(),
            Ab::Mut(q, i) => self.sys.query_mut(q, self.univ[i], Some(w)),
        };
        self.r(r, values) << 1 | self.sys.is_empty() as u64
    }
    fn look(&self, out: &mut Vec<u64>, buf: &mut Vec<KV>, values: bool) {
        out.clear();
        for &k in &self.univ {
            for q in [Q::Find, Q::Pred, Q::Succ] {
                out.push(self.r(self.sys.query(q, k), values));
            }
        }
        out.push(self.r(self.sys.query(Q::Min, 0), values));
        out.push(self.r(self.sys.query(Q::Max, 0), values));
        out.push(self.sys.is_monad() as u64);
        for back in [false, true] {
            self.sys.iter_all(back, self.univ.len() + 2, buf);
            out.push(77);
            for &kv in buf.iter() {
                out.push(self.r(Some(kv), values));
            }
        }
    }
}

type Sides = Rc<RefCell<Vec<Side>>>;
fn sides(cs: &[(Config, Vec<u128>)]) -> Vec<Side> {
    cs.iter().map(|(c, u)| Side::new(c, u.clone())).collect()
}
thread_local! { static CACHE: RefCell<Option<(u64, Sides)>> = const { RefCell::new(None) }; }

/// Run a history on every side, comparing each answer with the first side's.
fn lockstep(ss: &mut [Side], ops: &[Ab], each: bool, cx: &mut Ctx) -> Res {
    let (mut a, mut b, mut buf) = (vec![], vec![], vec![]);
    for s in ss.iter_mut() {
        s.reset();
    }
    let (head, tail) = ss.split_at_mut(1);
    let refr = &mut head[0];
    for (n, &op) in ops.iter().enumerate() {
        let (rv, rk);
        {
            let x = refr.op(op, true);
            rv = x;
            // without values: the same answer with the value field cleared
            rk = if x >> 1 == u64::MAX >> 1 { x } else { x & !(0xffff_ffffu64 << 1) };
        }
        for s in tail.iter_mut() {
            let valued = s.cfg.valued;
            let got = s.op(op, valued);
            cx.transitions += 1;
            let want = if valued { rv } else { rk };
            if got != want {
                let mut f = Fail::new(format!("{} answers {} where {} answers {} (key number+1 / value, emptiness) to {}", s.cfg.name, show_ans(got), refr.cfg.name, show_ans(want), show_ab(&op)));
                f.trace = ops[..=n].iter().map(show_ab).collect();
                f.trace.insert(0, format!("key #i of {}: {:x?}; of {}: {:x?}", s.cfg.name, s.univ, refr.cfg.name, refr.univ));
                return Err(f);
            }
        }
        if each || n + 1 == ops.len() {
            for values in [true, false] {
                refr.look(&mut a, &mut buf, values);
                for s in tail.iter().filter(|s| s.cfg.valued == values) {
                    s.look(&mut b, &mut buf, values);
                    cx.transitions += b.len() as u64;
                    if a != b {
                        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                        let mut f = Fail::new(format!("{} and {} disagree after the history (observation {i}: {:x?} against {:x?})", s.cfg.name, refr.cfg.name, b.get(i), a.get(i)));
                        f.trace = ops[..=n].iter().map(show_ab).collect();
                        f.trace.insert(0, format!("key #i of {}: {:x?}; of {}: {:x?}", s.cfg.name, s.univ, refr.cfg.name, refr.univ));
                        return Err(f);
                    }
                }
            }
            let mut h = 1;
            for x in &a {
                h = mix(h ^ (x >> 32));
            }
            cx.states.insert(h);
        }
    }
    Ok(())
}
fn show_ans(x: u64) -> String {
    let e = if x & 1 == 1 { "empty" } else { "non-empty" };
    match x >> 1 {
        0 => format!("(nothing, {e})"),
        k if k == u64::MAX >> 1 => format!("(a key never stored, {e})"),
        k => format!("(#{} = {}, {e})", (k >> 32) as i64 - 1, k & 0xffff_ffff),
    }
}

fn with_sides<R>(key: u64, cs: &[(Config, Vec<u128>)], f: impl FnOnce(&mut Vec<Side>) -> R) -> R {
    let s = CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().is_none_or(|(k, _)| *k != key) {
            *c = Some((key, Rc::new(RefCell::new(sides(cs)))));
        }
        c.as_ref().unwrap().1.clone()
    });
    let r = f(&mut s.borrow_mut());
    r
}

fn diff_hist(id: u64, cs: Vec<(Config, Vec<u128>)>, m: usize, depth: u32) -> Phase {
    let a = alpha(m);
    let n = (a.len() as u64).pow(depth);
    let nm = format!("all histories of {depth} of {} ops over {m} keys, {} configurations in lock-step", a.len(), cs.len());
    Phase::new(nm, n, 64, move |i, cx| {
        let mut ops = vec![];
        let mut x = i;
        for _ in 0..depth {
            ops.push(a[(x % a.len() as u64) as usize]);
            x /= a.len() as u64;
        }
        ops.reverse();
        if !matches!(ops[0], Ab::Ins(_)) {
            return Ok(());
        }
        let r = with_sides(id, &cs, |ss| guarded(|| lockstep(ss, &ops, false, cx)));
        if r.is_err() {
            CACHE.with(|c| *c.borrow_mut() = None);
        }
        cx.traces += 1;
        if cx.want_sample {
            cx.sample = Some(ops.iter().map(show_ab).collect::<Vec<_>>().join("; "));
            cx.want_sample = false;
        }
        r
    })
}
fn diff_subsets(id: u64, cs: Vec<(Config, Vec<u128>)>, m: usize) -> Phase {
    let no = 7;
    let nm = format!("{} subsets of {m} keys x {no} build orders x every next op, {} configurations in lock-step", 1u64 << m, cs.len());
    let a = alpha(m);
    Phase::new(nm, (1u64 << m) * no, 4, move |i, cx| {
        let (mask, o) = (i / no, (i % no) as u32);
        let u: Vec<u128> = (0..m as u128).collect();
        let mut b = vec![];
        build_order(&u, mask, o, &mut b);
        let base: Vec<Ab> = b
            .iter()
            .map(|o| match o {
                Op::Ins(k) => Ab::Ins(*k as usize),
                Op::Rem(k) => Ab::Rem(*k as usize),
                _ => unreachable!(),
            })
            .collect();
        if base.is_empty() {
            return Ok(());
        }
        let op = a[(mix(i) % a.len() as u64) as usize];
        let _ = op;
        for &last in &a {
            let mut ops = base.clone();
            ops.push(last);
            let r = with_sides(id, &cs, |ss| guarded(|| lockstep(ss, &ops, false, cx)));
            if r.is_err() {
                CACHE.with(|c| *c.borrow_mut() = None);
                return r;
            }
            cx.traces += 1;
        }
        if cx.want_sample {
            cx.sample = Some(base.iter().map(show_ab).collect::<Vec<_>>().join("; "));
        }
        Ok(())
    })
}
/// One long history over all configurations, the expensive ones included, observed after every operation.
fn diff_walk(cs: Vec<(Config, Vec<u128>)>, m: usize, starts: u64) -> Phase {
    let a = alpha(m);
    let nm = format!("{starts} walks through every subset of {m} keys and every op, {} configurations in lock-step", cs.len());
    Phase::new(nm, starts, 1, move |i, cx| {
        // Gray-code order through the subsets; at each subset a slice of the alphabet, undone afterwards
        let mut ops: Vec<Ab> = vec![];
        let mut cur = 0u64;
        for g in 1..(1u64 << m) {
            let next = g ^ (g >> 1);
            let d = (cur ^ next).trailing_zeros() as usize;
            let fix = |ops: &mut Vec<Ab>, from: u64, to: u64| {
                for k in 0..m {
                    match (from >> k & 1, to >> k & 1) {
                        (0, 1) => ops.push(Ab::Ins(k)),
                        (1, 0) => ops.push(Ab::Rem(k)),
                        _ => {}
                    }
                }
            };
            let _ = d;
            fix(&mut ops, cur, next);
            cur = next;
            for (j, &op) in a.iter().enumerate() {
                if (j as u64 + g) % starts != i {
                    continue;
                }
                ops.push(op);
                let after = match op {
                    Ab::Ins(k) => cur | 1 << k,
                    Ab::Rem(k) => cur & !(1 << k),
                    Ab::RMin => cur & (cur - 1),
                    Ab::RMax => cur & !(1 << (63 - cur.leading_zeros())),
                    Ab::Monad => if cur.count_ones() == 1 { 0 } else { cur },
                    _ => cur,
                };
                fix(&mut ops, after, cur);
            }
        }
        let mut ss = sides(&cs);
        let r = lockstep(&mut ss, &ops, true, cx);
        cx.traces += 1;
        if cx.want_sample {
            cx.sample = Some(ops.iter().take(40).map(show_ab).collect::<Vec<_>>().join("; "));
        }
        r
    })
}

/// A handful of entries in every preset, and the memory they take.
fn memory(t: Tier) -> Phase {
    let mut ps: Vec<Config> = presets();
    ps.extend(wrappers());
    ps.extend(composed().into_iter().filter(|c| c.heavy));
    let n = ps.len() as u64 * 3;
    let _ = t;
    Phase::new(format!("memory taken by up to 12 entries, spread and clustered, in {} presets", ps.len()), n, 1, move |i, cx| {
        let (c, shape) = (&ps[(i / 3) as usize], i % 3);
        let m = max_code(c);
        let keys: Vec<u128> = match shape {
            0 => (0..12u128).map(|j| m / 12 * j).collect(),
            1 => (0..12u128).map(|j| m / 2 - 5 + j).collect(),
            _ => universe(c, 1),
        };
        let lim = 1u64 << 30;
        alloc_meter::start();
        let mut sys = (c.mk)();
        for (j, &k) in keys.iter().enumerate() {
            sys.insert(k, j as u32);
            cx.transitions += 1;
            cx.tick();
            let (peak, largest) = alloc_meter::read();
            if peak > lim {
                alloc_meter::stop();
                fail!("{}: {} entries ({:x?}) take {} MB (largest allocation {} MB)", c.name, j + 1, &keys[..=j], peak >> 20, largest >> 20);
            }
        }
        for &k in &keys {
            if sys.query(Q::Find, k).map(|x| x.0) != Some(k) {
                alloc_meter::stop();
                fail!("{}: key {k:#x} not found among {:x?}", c.name, keys);
            }
        }
        let (peak, largest) = alloc_meter::read();
        drop(sys);
        alloc_meter::stop();
        cx.states.insert(mix(i ^ 0xabc));
        cx.traces += 1;
        if cx.want_sample || cx.sample.is_none() {
            cx.sample = Some(format!("{}: {} entries, peak {} kB, largest allocation {} kB", c.name, keys.len(), peak >> 10, largest >> 10));
        }
        Ok(())
    })
}

fn phases(t: Tier) -> Vec<Phase> {
    let mut v = vec![memory(t)];
    let refr = by_name("u32/BTreeMap").unwrap();
    let mut order: Vec<Config> = vec![refr.clone()];
    order.extend(all().into_iter().filter(|c| c.name != refr.name));
    for variant in 0..3 {
        let cs: Vec<(Config, Vec<u128>)> = order.iter().filter(|c| c.bits > 2 && !c.heavy).map(|c| (c.clone(), small(c, variant))).filter(|(_, u)| u.len() == 5).collect();
        v.push(diff_hist(variant as u64, cs, 5, t.pick(if variant == 0 { 4 } else { 3 }, if variant == 0 { 5 } else { 4 })));
    }
    for variant in 0..2 {
        let cs: Vec<(Config, Vec<u128>)> = order.iter().filter(|c| c.bits > 2 && !c.heavy).map(|c| (c.clone(), mid_universe(c, variant, t.pick(7, 8)))).filter(|(_, u)| u.len() == t.pick(7, 8)).collect();
        v.push(diff_subsets(10 + variant as u64, cs, t.pick(7, 8)));
    }
    for variant in 0..3 {
        let cs: Vec<(Config, Vec<u128>)> = order.iter().filter(|c| c.bits > 2).map(|c| (c.clone(), small(c, variant))).filter(|(_, u)| u.len() == 5).collect();
        v.push(diff_walk(cs, 5, 8));
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C11",
        level: "model_checking",
        rule: "All configurations run the same histories in lock-step over order-isomorphic key universes of their own widths (all histories to a depth, all subset states by seven build orders and every next operation, walks through every subset for the ones that need big arrays); every answer and a full observation are compared with the crate's BTreeMap implementation. Allocations are metered while every preset receives a handful of entries. A state is a distinct abstract content; a trace one history run on all configurations.",
        assumptions: &["a handful is at most 12 entries, and usable means at most 1 GiB for them", "universes and depths are those listed in coverage.phases"],
        compare_builds: false,
        phases,
    })
}
