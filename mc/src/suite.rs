//! The bounded spaces of executions shared by the map properties.
use crate::cfg::*;
#[cfg(feature = "cfgs")]
use crate::configs::{composed, presets, splits, wrappers};
use crate::engine::*;
use crate::explore::*;
use crate::sys::*;

pub fn maxk(c: &Config) -> u128 {
    max_code(c)
}

/// Five-key universes for complete histories. Variant 0: a cluster of three under one high half, with a
/// smaller key under another high half and a larger one above. 1: the cluster at the bottom, extremes on
/// top. 2: five different high halves (or bytes).
pub fn small(c: &Config, variant: u32) -> Vec<u128> {
    let m = max_code(c);
    if c.bits <= 2 {
        return (0..=m).collect();
    }
    if c.bits <= 4 {
        return match variant {
            0 => vec![1, 4, 5, 7, m - 1],
            1 => vec![0, 1, 2, m / 2, m],
            _ => vec![0, 3, 6, m / 2 + 1, m],
        };
    }
    if c.lo == 0 {
        return match variant {
            0 => vec![0, 63, 64, 128, 255],
            1 => vec![126, 127, 128, 129, 192],
            _ => vec![1, 2, 191, 192, 254],
        };
    }
    let hm = if c.bits - c.lo >= 128 { u128::MAX } else { (1u128 << (c.bits - c.lo)) - 1 };
    let lm = (1u128 << c.lo) - 1;
    let j = |h: u128, l: u128| (h << c.lo) | l;
    let mid = hm / 2;
    match variant {
        0 => vec![j(mid - mid.min(1), lm), j(mid, 0), j(mid, lm / 2), j(mid, lm), j(hm, 0)],
        1 => vec![j(0, 0), j(0, 1), j(0, lm), j(mid + 1, lm / 2 + 1), j(hm, lm)],
        _ => vec![j(0, lm), j(1, 0), j(mid, lm / 2), j(mid + 1, 0), j(hm, lm / 2)],
    }
}

/// The widths of `lo` halves differ; heavy configurations get a universe whose keys share few high halves.
pub fn mid_universe(c: &Config, variant: u32, n: usize) -> Vec<u128> {
    let u = universe(c, variant);
    if u.len() <= n {
        return u;
    }
    // drop from the middle alternately, keep extremes
    let mut keep: Vec<u128> = vec![];
    for i in 0..n {
        keep.push(u[i * (u.len() - 1) / (n - 1)]);
    }
    keep.dedup();
    keep
}

#[derive(Clone, Copy)]
pub struct Spec {
    pub flags: u32,
    pub obs: u32,
    pub kinds: &'static str,
    /// observation for the larger states (defaults to obs)
    pub obs_big: u32,
}

fn plan(c: &Config, u: Vec<u128>, sp: &Spec) -> Plan {
    let probes = probes(c, &u);
    Plan { cfg: c.clone(), alphabet: alphabet(&u, sp.kinds), univ: u, probes, flags: sp.flags, obs: sp.obs, each: false }
}

pub fn hist(c: &Config, variant: u32, depth: u32, sp: &Spec) -> Phase {
    let p = plan(c, small(c, variant), sp);
    histories(&format!("H{variant}"), &p, depth)
}
/// histories over only the first `n` keys of a small universe, deeper
pub fn hist_n(c: &Config, variant: u32, n: usize, depth: u32, sp: &Spec) -> Phase {
    let mut u = small(c, variant);
    u.truncate(n);
    let p = plan(c, u, sp);
    histories(&format!("H{variant}/{n}"), &p, depth)
}
pub fn subs(c: &Config, variant: u32, nkeys: usize, orders: &[u32], depth: u32, sp: &Spec) -> Phase {
    let mut p = plan(c, mid_universe(c, variant, nkeys), sp);
    p.obs = sp.obs_big;
    subsets(&format!("S{variant}"), &p, orders, depth)
}
pub fn edges(c: &Config, variant: u32, nkeys: usize, starts: u64, sp: &Spec) -> Phase {
    let p = plan(c, mid_universe(c, variant, nkeys), sp);
    walk(&format!("E{variant}"), &p, starts)
}

/// every word of `depth` operations, over and over
pub fn cyc(c: &Config, variant: u32, depth: u32, reps: u32, sp: &Spec) -> Phase {
    let p = plan(c, small(c, variant), sp);
    cycles(&format!("R{variant}"), &p, depth, reps)
}

/// (W) coordinate sweep: for every byte of the key and every pair of values of that byte, with the other
/// bytes at one of several fixed patterns, a tree around the two keys.
pub fn sweep(c: &Config, sp: &Spec, pairs: bool) -> Phase {
    let c = c.clone();
    let sp = *sp;
    let nbytes = (c.bits / 8).max(1) as u64;
    let span = if c.bits < 8 { 1u64 << c.bits } else { 256 };
    let pats: &[u8] = &[0x00, 0x7f, 0x80, 0xff];
    let per = if pairs { span * span } else { span * 8 };
    let n = nbytes * pats.len() as u64 * per;
    let nm = format!("W: every {} of values of each of {nbytes} key bytes in {} contexts on {}", if pairs { "pair" } else { "value (against 8 partners)" }, pats.len(), c.name);
    let partners = [0u64, 1, 63, 64, 127, 128, 191, 255];
    let m = max_code(&c);
    let decode = move |i: u64| -> (u128, u128, u128) {
        let (mut i, pat) = (i / pats.len() as u64, pats[(i % pats.len() as u64) as usize]);
        let byte = i / per;
        i %= per;
        let (x, y) = if pairs { (i / span, i % span) } else { (i / 8, partners[(i % 8) as usize] % span) };
        let ctx = u128::from_le_bytes([pat; 16]) & m;
        let sh = 8 * byte as u32;
        let base = ctx & !(0xffu128 << sh);
        let a = (base | (x as u128) << sh) & m;
        let b = (base | (y as u128) << sh) & m;
        // a third key differing elsewhere: the complement of the context
        (a, b, !ctx & m)
    };
    let s = 0x5eed;
    let ops_of = move |i: u64| -> (Vec<Op>, Vec<u128>) {
        let (a, b, z) = decode(i);
        let mut p = vec![0, m];
        for k in [a, b, z] {
            p.push(k);
            p.push(k.saturating_sub(1));
            p.push(if k < m { k + 1 } else { m });
        }
        p.sort();
        p.dedup();
        (vec![Op::Ins(a), Op::Ins(z), Op::Ins(b), Op::Ins(a), Op::Rem(a), Op::Ins(a), Op::Rem(b)], p)
    };
    let c2 = c.clone();
    let mut ph = Phase::new(nm, n, 256, move |i, cx| {
        let (ops, p) = ops_of(i);
        let mut r = Runner::new(&c, sp.flags, s, cx);
        for (j, &op) in ops.iter().enumerate() {
            if r.empty() && !matches!(op, Op::Ins(_)) {
                continue;
            }
            r.op(op)?;
            if j >= 2 {
                r.observe(sp.obs, &p)?;
            }
        }
        if r.cx.want_sample {
            r.cx.sample = Some(format!("{}: {}", c.name, ops.iter().map(show_op).collect::<Vec<_>>().join("; ")));
        }
        r.finish()?;
        Ok(())
    });
    ph.shrink = Some(Box::new(move |i| {
        let (ops, p) = ops_of(i);
        shrink_ops(&c2, ops, sp.flags, sp.obs, &p, "")
    }));
    ph
}

/// Macro-operations that grow and shrink big contents of a tree with 8- or 16-bit keys.
pub fn macros(c: &Config) -> Vec<Op> {
    let m = max_code(c);
    let n = (m + 1) as u32;
    let q = (n / 4) as u128;
    if c.bits == 8 {
        vec![
            Op::Fill { start: 0, step: 1, count: 256, down: false },
            Op::Fill { start: 0, step: 1, count: 256, down: true },
            Op::Fill { start: 3, step: 7, count: 36, down: false },
            Op::Fill { start: 64, step: 1, count: 64, down: true },
            Op::Clear { start: 0, step: 1, count: 256, down: false },
            Op::Clear { start: 1, step: 2, count: 128, down: true },
            Op::Clear { start: 120, step: 1, count: 17, down: false },
            Op::DrainMin(63),
            Op::DrainMax(65),
            Op::DrainMin(255),
            Op::DrainMax(255),
        ]
    } else {
        vec![
            // one entry in every high half; in the middle of every high half; a full high half
            Op::Fill { start: 7, step: 256, count: n / 256, down: false },
            Op::Fill { start: 128, step: 256, count: n / 256, down: true },
            Op::Fill { start: q, step: 1, count: 256, down: false },
            Op::Fill { start: q - 3, step: 1, count: 600, down: true },
            Op::Fill { start: 5, step: 37, count: n / 38, down: false },
            Op::Fill { start: 0, step: 1, count: n, down: false },
            Op::Clear { start: q, step: 1, count: 256, down: false },
            Op::Clear { start: 7, step: 256, count: n / 256, down: true },
            Op::Clear { start: 1, step: 2, count: n / 2, down: false },
            Op::Clear { start: 2, step: 1, count: n - 4, down: true },
            Op::DrainMin(300),
            Op::DrainMax(300),
            Op::DrainMin(n - 1),
            Op::DrainMax(n - 1),
        ]
    }
}
/// The same for wider keys: one or two entries under each of 65536 values of the top 16 bits, dense runs that cross a
/// boundary of halves, thousands of entries under one high half.
pub fn macros_wide(c: &Config) -> Vec<Op> {
    let top = 1u128 << (c.bits - 16);
    let lo = 1u128 << c.lo;
    let mid = max_code(c) / 2 + 1;
    vec![
        Op::Fill { start: top - 1, step: top, count: 65536, down: false },
        Op::Fill { start: 3, step: top / 2, count: 131072, down: true },
        Op::Fill { start: mid - 700, step: 1, count: 1500, down: true },
        Op::Fill { start: mid + lo - 300, step: 1, count: 600, down: false },
        Op::Fill { start: mid / 2, step: (lo / 2000).max(1), count: 2500, down: false },
        Op::Clear { start: top - 1, step: top, count: 65536, down: true },
        Op::Clear { start: 3, step: top, count: 65536, down: false },
        Op::Clear { start: mid - 690, step: 1, count: 1490, down: false },
        Op::DrainMin(66000),
        Op::DrainMax(65535),
    ]
}
/// Probe keys for big contents: all over the key space, and round the ends of the runs.
pub fn macro_probes(c: &Config) -> Vec<u128> {
    let m = max_code(c);
    let mut p: Vec<u128> = vec![];
    let st = (m / 61).max(1);
    let mut k = 0u128;
    loop {
        p.push(k);
        if k < m { p.push(k + 1) }
        match k.checked_add(st) {
            Some(n) if n <= m => k = n,
            _ => break,
        }
    }
    if c.bits > 16 {
        let (mid, lo, top) = (m / 2 + 1, 1u128 << c.lo, 1u128 << (c.bits - 16));
        for b in [mid - 700, mid - 690, mid - 1, mid, mid + 799, mid + 800, mid + lo - 300, mid + lo - 1, mid + lo, mid + lo + 299, mid + lo + 300, mid / 2, top - 1, top, top + 3] {
            p.extend([b - 1, b, b + 1]);
        }
        p.sort();
        p.dedup();
    }
    p.push(m);
    p.push(m - 1);
    p
}
/// Fills, clears and drains that suit the width of the key.
pub fn all_macros(c: &Config) -> Vec<Op> {
    if c.bits > 16 { macros_wide(c) } else { macros(c) }
}
pub fn has_macros(c: &Config) -> bool {
    c.bits == 8 || c.bits == 16 || (c.bits > 16 && !c.name.contains("own"))
}
pub fn macro_hist(c: &Config, depth: u32, stride: u64, sp: &Spec) -> Phase {
    let a = all_macros(c);
    let total = (a.len() as u64).pow(depth);
    let mut list = vec![];
    for i in (0..total).step_by(stride as usize) {
        let mut v = vec![Op::Ins(0); depth as usize];
        let mut x = i;
        for d in (0..depth as usize).rev() {
            v[d] = a[(x % a.len() as u64) as usize];
            x /= a.len() as u64;
        }
        if !matches!(v[0], Op::Fill { .. }) {
            continue;
        }
        list.push(v);
    }
    scripts("M", c, list, sp.flags, sp.obs_big, macro_probes(c))
}

pub fn light(v: Vec<Config>) -> Vec<Config> {
    v.into_iter().filter(|c| !c.heavy).collect()
}
pub fn heavy(v: Vec<Config>) -> Vec<Config> {
    v.into_iter().filter(|c| c.heavy).collect()
}

/// The common exploration: complete histories, complete subset states, edge walks on expensive
/// configurations, coordinate sweeps and macro-histories.
#[cfg(feature = "cfgs")]
pub fn map_suite(tier: Tier, sp: &Spec) -> Vec<Phase> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let pw: Vec<Config> = presets().into_iter().chain(wrappers()).collect();
    for c in light(pw.clone()) {
        let plain16 = c.name == "u16/Marker16" || c.name == "u8/Marker8" || c.name == "Sized<u16/Marker16>";
        v.push(hist(&c, 0, if q { 4 + plain16 as u32 } else { 6 }, sp));
        v.push(hist(&c, 1, if q { 4 } else { 6 }, sp));
        v.push(hist(&c, 2, if q { 4 } else { 5 }, sp));
        v.push(subs(&c, 0, 10, &[0, 1, 2, 4], if q { 1 } else { 2 }, sp));
        v.push(subs(&c, 1, 12, &[1, 3, 5], if q { 0 } else { 1 }, sp));
        v.push(sweep(&c, sp, !q));
        v.push(cyc(&c, 0, 2, if q { 320 } else { 2100 }, sp));
        if !q {
            v.push(cyc(&c, 1, 2, 2100, sp));
            v.push(cyc(&c, 2, 3, 320, sp));
            if plain16 {
                v.push(cyc(&c, 2, 2, 66000, sp));
            }
        }
        if c.bits == 8 || c.bits == 16 {
            v.push(macro_hist(&c, if q { 2 } else { 3 }, 1, sp));
        }
    }
    for c in light(composed()) {
        v.push(hist(&c, 0, if q { 4 } else { 5 }, sp));
        v.push(hist(&c, 1, if q { 3 } else { 5 }, sp));
        v.push(subs(&c, 0, 10, &[0, 1, 4], 1, sp));
        v.push(subs(&c, 1, 12, &[2, 5], 0, sp));
        v.push(sweep(&c, sp, !q));
        v.push(cyc(&c, 1, 2, if q { 320 } else { 2100 }, sp));
        let list = c.name.contains("list");
        if c.bits == 8 || c.bits == 16 {
            v.push(macro_hist(&c, if q && !list { 1 } else { 2 }, 1, sp));
        } else if c.bits > 16 && !c.name.contains("own") {
            v.push(macro_hist(&c, if q { 1 } else { 2 }, 1, sp));
        }
    }
    for c in splits() {
        v.push(hist(&c, 0, if q { 4 } else { 6 }, sp));
        v.push(hist(&c, 1, if q { 3 } else { 6 }, sp));
        if q {
            v.push(subs(&c, 0, 11, &[0, 1, 2, 5], 1, sp));
        } else {
            v.push(cyc(&c, 0, 2, 2100, sp));
            v.push(subs(&c, 0, 16, &[0, 1, 2, 5], 0, sp));
            v.push(subs(&c, 0, 10, &[0, 1, 2, 5], 2, sp));
        }
    }
    for c in heavy(pw.into_iter().chain(composed()).collect()) {
        v.push(edges(&c, 0, if q { 5 } else { 8 }, 8, sp));
        v.push(edges(&c, 1, if q { 5 } else { 8 }, 8, sp));
        v.push(cyc(&c, 0, 2, if q { 20 } else { 320 }, sp));
        if c.name.contains("own") {
            continue;
        }
        v.push(macro_hist(&c, 2, 1, sp));
    }
    v
}

/// Names of the queries a check looks at, for evidence texts.
pub fn _qs() -> [Q; 5] {
    QS
}

pub const MAP_ASSUMPTIONS: &[&str] = &[
    "bounded: universes, depths, build orders and configurations are those listed in coverage.phases",
    "key types and hashers obey Ord/Eq/Hash; the reference map is std's BTreeMap over integer codes",
];
