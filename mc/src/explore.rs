//! Reference model, judged operations and observations, and the ways of enumerating executions.
use crate::cfg::Config;
use crate::engine::*;
use crate::fail;
use crate::sys::*;
use std::collections::BTreeMap;
use std::ops::Bound::*;

pub const RINS: u32 = 1; // results of insert
pub const RREM: u32 = 2; // results of remove / remove_min / remove_max and emptiness
pub const RMUT: u32 = 4; // results of mutable queries used as operations
pub const RMON: u32 = 8; // results of into_monad
pub const FIND: u32 = 16; // find on every probe
pub const NAV: u32 = 32; // predecessor/successor on every probe, min, max
pub const FINDM: u32 = 64; // mutable find on every probe
pub const NAVM: u32 = 1 << 19; // mutable predecessor/successor on every probe, min, max
pub const MUTQ: u32 = FINDM | NAVM;
pub const ITER: u32 = 128; // full passes both ways
pub const ITERX: u32 = 256; // every interleaving of directions
pub const SIZE: u32 = 512; // len, len_hint, is_monad
pub const ISIZE: u32 = 1024; // iterator size hints on every step of the passes
pub const DRAINMIN: u32 = 2048; // take everything out from the bottom, judged by RREM
pub const DRAINMAX: u32 = 4096;
pub const DRAINALT: u32 = 8192;
pub const MUTW: u32 = 1 << 14; // write through every mutable query and check all entries
pub const DUP: u32 = 1 << 15; // observe a clone in place of the tree, then the tree
pub const AGAIN: u32 = 1 << 16; // ask find, predecessor and successor a second time
pub const LEDGER: u32 = 1 << 17; // after every operation the values alive are exactly the stored ones
pub const ITERT: u32 = 1 << 18; // count, last, nth, nth_back, fold, rfold, collect after short prefixes
pub const EVERYTHING: u32 = RINS | RREM | RMUT | RMON | FIND | NAV | MUTQ | ITER | SIZE | ISIZE;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Ins(u128),
    Rem(u128),
    RMin,
    RMax,
    Monad,
    /// write a fresh value through a mutable query
    Mut(Q, u128),
    /// `count` insertions from `start` stepping by `step` (down when `down`)
    Fill { start: u128, step: u128, count: u32, down: bool },
    /// removals of the same shape
    Clear { start: u128, step: u128, count: u32, down: bool },
    DrainMin(u32),
    DrainMax(u32),
    /// replace the tree by its clone
    Dup,
}

pub type Model = BTreeMap<u128, u32>;

pub struct Runner<'a> {
    pub cfg: &'a Config,
    pub sys: Box<dyn Sys>,
    pub model: Model,
    pub stamp: u32,
    pub flags: u32,
    pub cx: &'a mut Ctx,
    zob: u64,
    salt: u64,
    dig: u64,
    steps: Vec<IterStep>,
    kvs: Vec<KV>,
    log: Vec<Op>,
    logging: bool,
}

#[inline]
fn dg(d: u64, r: Option<KV>) -> u64 {
    mix(d ^ r.map_or(1, |(k, v)| mix128(k) ^ ((v as u64) << 1)))
}
fn nth(m: &Model, k: u128, q: Q) -> Option<KV> {
    match q {
        Q::Find => m.get(&k).map(|v| (k, *v)),
        Q::Pred => m.range((Unbounded, Excluded(k))).next_back().map(|(k, v)| (*k, *v)),
        Q::Succ => m.range((Excluded(k), Unbounded)).next().map(|(k, v)| (*k, *v)),
        Q::Min => m.first_key_value().map(|(k, v)| (*k, *v)),
        Q::Max => m.last_key_value().map(|(k, v)| (*k, *v)),
    }
}

impl<'a> Runner<'a> {
    pub fn new(cfg: &'a Config, flags: u32, salt: u64, cx: &'a mut Ctx) -> Runner<'a> {
        if flags & LEDGER != 0 {
            crate::fault::reset();
        }
        Runner { cfg, sys: (cfg.mk)(), model: Model::new(), stamp: 0, flags, cx, zob: 0, salt, dig: salt, steps: vec![], kvs: vec![], log: vec![], logging: false }
    }
    /// Start over, keeping the allocations of the harness.
    pub fn reset(&mut self) {
        self.sys.clear();
        self.model.clear();
        self.stamp = 0;
        self.zob = 0;
        self.dig = self.salt;
        self.log.clear();
    }
    #[inline]
    fn d(&mut self, r: Option<KV>) {
        self.dig = dg(self.dig, r);
    }
    #[inline]
    fn state(&mut self) {
        let h = mix(self.salt ^ self.zob);
        self.cx.states.insert(h);
    }
    #[inline]
    fn fresh(&mut self) -> u32 {
        self.stamp += 1;
        if self.cfg.valued { self.stamp } else { 0 }
    }
    fn m_ins(&mut self, k: u128, v: u32) -> Option<KV> {
        let o = self.model.insert(k, v);
        if o.is_none() {
            self.zob ^= mix128(k);
        }
        o.map(|v| (k, v))
    }
    fn m_rem(&mut self, k: u128) -> Option<KV> {
        let o = self.model.remove(&k);
        if o.is_some() {
            self.zob ^= mix128(k);
        }
        o.map(|v| (k, v))
    }
    #[inline]
    fn ins(&mut self, k: u128) -> Res {
        let v = self.fresh();
        let want = self.m_ins(k, v);
        let got = self.sys.insert(k, v);
        self.d(got);
        if self.flags & RINS != 0 && got != want {
            fail!("insert({k:#x}, {v}) returned {got:x?}, expected {want:x?}");
        }
        Ok(())
    }
    fn rem(&mut self, k: u128) -> Res {
        if self.model.is_empty() {
            return Ok(());
        }
        let want = self.m_rem(k);
        let got = self.sys.remove(k).ok();
        self.d(got);
        if self.flags & RREM != 0 {
            if got != want {
                fail!("remove({k:#x}) returned {got:x?}, expected {want:x?}");
            }
            self.empt("remove")?;
        }
        Ok(())
    }
    fn empt(&mut self, what: &str) -> Res {
        if self.sys.is_empty() != self.model.is_empty() {
            fail!("{what} left {} tree, but {} entries remain", if self.sys.is_empty() { "no" } else { "a" }, self.model.len());
        }
        Ok(())
    }
    fn rmin(&mut self, max: bool) -> Res {
        if self.model.is_empty() {
            return Ok(());
        }
        let k = if max { *self.model.last_key_value().unwrap().0 } else { *self.model.first_key_value().unwrap().0 };
        let want = self.m_rem(k);
        let got = if max { self.sys.remove_max() } else { self.sys.remove_min() };
        self.d(got);
        if self.flags & RREM != 0 {
            if got != want {
                fail!("{} returned {got:x?}, expected {want:x?}", if max { "remove_max" } else { "remove_min" });
            }
            self.empt(if max { "remove_max" } else { "remove_min" })?;
        }
        Ok(())
    }
    pub fn op(&mut self, op: Op) -> Res {
        if self.logging {
            self.log.push(op);
        }
        self.cx.transitions += 1;
        let r = self.op1(op);
        self.state();
        if self.flags & LEDGER != 0 && r.is_ok() {
            return self.ledger(op);
        }
        r
    }
    fn ledger(&mut self, op: Op) -> Res {
        use crate::fault::*;
        if let Some(b) = bad() {
            fail!("{}: {b}", show_op(&op));
        }
        let (n, want) = (live(VALUES), self.model.len());
        if n != want {
            fail!("after {} {n} values are alive, but the tree holds {want} entries: {}", show_op(&op), if n > want { "values were leaked or duplicated" } else { "stored values were dropped" });
        }
        if sum(VALUES) != sum_of(self.model.values().copied()) {
            fail!("after {} the values alive are not the {want} that are stored", show_op(&op));
        }
        Ok(())
    }
    fn op1(&mut self, op: Op) -> Res {
        match op {
            Op::Ins(k) => self.ins(k),
            Op::Rem(k) => self.rem(k),
            Op::RMin => self.rmin(false),
            Op::RMax => self.rmin(true),
            Op::Monad => {
                if self.model.is_empty() {
                    return Ok(());
                }
                let want = if self.model.len() == 1 { nth(&self.model, 0, Q::Min) } else { None };
                if let Some((k, _)) = want {
                    self.m_rem(k);
                }
                let got = self.sys.into_monad().ok();
                self.d(got);
                if self.flags & RMON != 0 {
                    if got != want {
                        fail!("into_monad returned {got:x?}, expected {want:x?}");
                    }
                    self.empt("into_monad")?;
                }
                Ok(())
            }
            Op::Mut(q, k) => {
                if self.model.is_empty() {
                    return Ok(());
                }
                let w = self.fresh();
                let want = nth(&self.model, k, q);
                if let Some((k, _)) = want {
                    self.model.insert(k, w);
                }
                let got = self.sys.query_mut(q, k, Some(w));
                self.d(got);
                if self.flags & RMUT != 0 && got != want {
                    fail!("{q:?}_mut({k:#x}) returned {got:x?}, expected {want:x?}");
                }
                Ok(())
            }
            Op::Fill { start, step, count, down } => {
                for i in 0..count {
                    let i = if down { count - 1 - i } else { i };
                    self.ins(start + step * i as u128)?;
                    self.cx.transitions += 1;
                    if i & 255 == 0 {
                        self.cx.tick();
                        self.state();
                    }
                }
                Ok(())
            }
            Op::Clear { start, step, count, down } => {
                for i in 0..count {
                    let i = if down { count - 1 - i } else { i };
                    self.rem(start + step * i as u128)?;
                    self.cx.transitions += 1;
                    if i & 255 == 0 {
                        self.cx.tick();
                        self.state();
                    }
                }
                Ok(())
            }
            Op::DrainMin(n) | Op::DrainMax(n) => {
                for i in 0..n {
                    if self.model.is_empty() {
                        break;
                    }
                    self.rmin(matches!(op, Op::DrainMax(_)))?;
                    self.cx.transitions += 1;
                    if i & 255 == 0 {
                        self.cx.tick();
                        self.state();
                    }
                }
                Ok(())
            }
            Op::Dup => {
                if let Some(d) = self.sys.dup() {
                    self.sys = d;
                }
                Ok(())
            }
        }
    }

    pub fn query(&mut self, q: Q, k: u128) -> Res {
        let want = nth(&self.model, k, q);
        let got = self.sys.query(q, k);
        self.d(got);
        self.cx.transitions += 1;
        if got != want {
            fail!("{q:?}({k:#x}) returned {got:x?}, expected {want:x?}");
        }
        Ok(())
    }
    fn querym(&mut self, q: Q, k: u128) -> Res {
        let want = nth(&self.model, k, q);
        let got = self.sys.query_mut(q, k, None);
        self.d(got);
        self.cx.transitions += 1;
        if got != want {
            fail!("{q:?}_mut({k:#x}) returned {got:x?}, expected {want:x?}");
        }
        Ok(())
    }
    pub fn sizes(&mut self) -> Res {
        let n = self.model.len();
        let (lo, hi) = self.sys.len_hint();
        self.dig = mix(self.dig ^ lo as u64 ^ ((hi.unwrap_or(7) as u64) << 20));
        self.cx.transitions += 3;
        if lo > n || hi.is_some_and(|h| h < n) {
            fail!("len_hint is ({lo}, {hi:?}), the tree holds {n}");
        }
        if self.cfg.exact && n > 0 {
            let e = self.sys.exact();
            if e != Some(n) {
                fail!("len is {e:?}, the tree holds {n}");
            }
        }
        if self.sys.is_monad() != (n == 1) {
            fail!("is_monad is {}, the tree holds {n}", self.sys.is_monad());
        }
        Ok(())
    }
    pub fn passes(&mut self, sizes: bool) -> Res {
        let n = self.model.len();
        for back in [false, true] {
            let mut steps = std::mem::take(&mut self.kvs);
            self.sys.iter_all(back, n + 2, &mut steps);
            self.cx.transitions += steps.len() as u64 + 1;
            let ok = if back { steps.iter().copied().eq(self.model.iter().rev().map(|(k, v)| (*k, *v))) } else { steps.iter().copied().eq(self.model.iter().map(|(k, v)| (*k, *v))) };
            let s = format_unless(ok, &steps);
            self.kvs = steps;
            if !ok {
                fail!("iterating {} gave {s}, the tree holds {:x?}", if back { "backward" } else { "forward" }, Brief(&self.model));
            }
        }
        if sizes {
            if n <= 3 {
                return self.words(true, false);
            }
            // all forward, all backward, alternating from either end, one turn after one or two steps or
            // half way, from either end
            for w in 0..10u32 {
                let mut i = 0;
                self.word(n + 2, &mut || {
                    i += 1;
                    let b = match w / 2 { 0 => false, 1 => i % 2 == 0, 2 => i > 1, 3 => i > 2, _ => i > n / 2 };
                    b != (w % 2 == 1)
                }, true, false)?;
            }
        }
        Ok(())
    }
    /// One direction word, judged step by step.
    fn word(&mut self, len: usize, dir: &mut dyn FnMut() -> bool, sizes: bool, items: bool) -> Res {
        let mut dirs: Vec<bool> = Vec::with_capacity(len);
        for _ in 0..len {
            dirs.push(dir());
        }
        let mut steps = std::mem::take(&mut self.steps);
        self.sys.iter_script(&mut dirs.iter().copied(), &mut steps);
        self.cx.transitions += steps.len() as u64;
        let r = self.judge_word(&dirs, &steps, sizes, items);
        self.steps = steps;
        r
    }
    fn judge_word(&mut self, dirs: &[bool], steps: &[IterStep], sizes: bool, items: bool) -> Res {
        if self.model.is_empty() {
            return Ok(());
        }
        let n = self.model.len();
        let mut fwd = self.model.iter();
        let mut left = n;
        for (i, s) in steps.iter().enumerate() {
            if i > 0 {
                let back = dirs[i - 1];
                let want = if left == 0 { None } else if back { fwd.next_back() } else { fwd.next() }.map(|(k, v)| (*k, *v));
                left = left.saturating_sub(want.is_some() as usize);
                if items {
                    self.dig = dg(self.dig, s.item);
                    if s.item != want {
                        fail!("directions {}: step {} yielded {:x?}, expected {:x?}; the tree holds {:x?}", show(&dirs[..i]), i, s.item, want, Brief(&self.model));
                    }
                } else if s.item != want {
                    // wrong items make the remaining count meaningless; the iteration check reports them
                    return Ok(());
                }
            }
            if sizes {
                let (lo, hi) = s.hint;
                self.dig = mix(self.dig ^ lo as u64);
                if lo > left || hi.is_some_and(|h| h < left) {
                    fail!("directions {}: size_hint is ({lo}, {hi:?}) with {left} entries to come", show(&dirs[..i]));
                }
                if let Some(l) = s.len {
                    if l != left {
                        fail!("directions {}: exact length is {l} with {left} entries to come", show(&dirs[..i]));
                    }
                }
                if self.cfg.exact && s.hint != (left, Some(left)) {
                    fail!("directions {}: size_hint over a counted tree is {:?} with {left} entries to come", show(&dirs[..i]), s.hint);
                }
            }
        }
        Ok(())
    }
    /// Every direction word of length n+2.
    pub fn words(&mut self, sizes: bool, items: bool) -> Res {
        let n = self.model.len();
        let len = n + 2;
        if n > 12 {
            // too many words for large contents: every periodic pattern F^a B^b, a, b <= 3, and a front run
            // of every eighth of the contents before turning round
            for p in 0..24usize {
                let mut i = 0;
                self.word(len, &mut || {
                    i += 1;
                    if p < 16 {
                        let (a, b) = (p / 4, p % 4);
                        if a + b == 0 { false } else { (i - 1) % (a + b) >= a }
                    } else {
                        i > (p - 15) * n / 8
                    }
                }, sizes, items)?;
                self.cx.tick();
            }
            return Ok(());
        }
        for w in 0..1u64 << len {
            let mut i = 0;
            self.word(len, &mut || {
                i += 1;
                w >> (i - 1) & 1 == 1
            }, sizes, items)?;
            if w & 63 == 0 {
                self.cx.tick();
            }
        }
        Ok(())
    }
    /// Every prefix of up to three steps (short ones when there are many entries), then every other way of
    /// taking entries.
    fn takes(&mut self) -> Res {
        let n = self.model.len();
        let all: Vec<KV> = self.model.iter().map(|(k, v)| (*k, *v)).collect();
        let mut ways = vec![Take::Count, Take::Last, Take::Fold, Take::Rfold, Take::Collect, Take::CollectRev];
        if n <= 6 {
            for k in 0..=n {
                ways.extend([Take::Nth(k), Take::NthBack(k)]);
            }
        } else {
            for k in [0, 1, n / 2, n - 2, n] {
                ways.extend([Take::Nth(k), Take::NthBack(k)]);
            }
        }
        let mut got = std::mem::take(&mut self.kvs);
        for len in 0..=if n <= 6 { 3 } else { 2 } {
            for word in 0..1u32 << len {
                let mut rest = &all[..];
                for i in 0..len {
                    if !rest.is_empty() {
                        rest = if word >> i & 1 == 1 { &rest[..rest.len() - 1] } else { &rest[1..] };
                    }
                }
                for &w in &ways {
                    let c = self.sys.iter_take(word, len, w, n + 2, &mut got);
                    self.cx.transitions += 1;
                    let ok = match w {
                        Take::Count => c == Some(rest.len()),
                        Take::Last => got.iter().eq(rest.last()),
                        Take::Nth(k) => got.iter().eq(rest.iter().skip(k)),
                        Take::NthBack(k) => match rest.len().checked_sub(k + 1) {
                            Some(i) => got.first() == Some(&rest[i]) && got[1..] == rest[..i],
                            None => got.is_empty(),
                        },
                        Take::Fold | Take::Collect => got == rest,
                        Take::Rfold | Take::CollectRev => got.iter().eq(rest.iter().rev()),
                    };
                    if !ok {
                        let d: Vec<bool> = (0..len).map(|i| word >> i & 1 == 1).collect();
                        fail!("directions {:?} and then {w:?} gave {c:?} {}, the tree holds {:x?}", show(&d), format_unless(false, &got), Brief(&self.model));
                    }
                }
                self.cx.tick();
            }
        }
        self.kvs = got;
        Ok(())
    }
    pub fn writes(&mut self, probes: &[u128]) -> Res {
        for q in QS {
            for &p in probes {
                self.op1(Op::Mut(q, p))?;
                self.cx.transitions += 1;
                let want = nth(&self.model, p, q);
                // every entry, through the shared queries
                let mut it = std::mem::take(&mut self.kvs);
                self.sys.iter_all(false, self.model.len() + 2, &mut it);
                let ok = it.iter().copied().eq(self.model.iter().map(|(k, v)| (*k, *v)));
                let s = format_unless(ok, &it);
                self.kvs = it;
                if !ok {
                    fail!("after writing through {q:?}_mut({p:#x}) (entry {want:x?}) the tree holds {s}, expected {:x?}", Brief(&self.model));
                }
                if matches!(q, Q::Min | Q::Max) {
                    break;
                }
            }
        }
        Ok(())
    }
    pub fn observe(&mut self, flags: u32, probes: &[u128]) -> Res {
        if flags & FIND != 0 {
            for &p in probes {
                self.query(Q::Find, p)?;
            }
        }
        if flags & NAV != 0 {
            for &p in probes {
                self.query(Q::Pred, p)?;
                self.query(Q::Succ, p)?;
            }
            self.query(Q::Min, 0)?;
            self.query(Q::Max, 0)?;
        }
        if flags & AGAIN != 0 {
            if flags & ITER != 0 {
                self.passes(false)?;
            }
            for &p in probes {
                self.query(Q::Find, p)?;
                self.query(Q::Pred, p)?;
                self.query(Q::Succ, p)?;
            }
        }
        if flags & FINDM != 0 {
            for &p in probes {
                self.querym(Q::Find, p)?;
            }
        }
        if flags & NAVM != 0 {
            for &p in probes {
                self.querym(Q::Pred, p)?;
                self.querym(Q::Succ, p)?;
            }
            self.querym(Q::Min, 0)?;
            self.querym(Q::Max, 0)?;
        }
        if flags & SIZE != 0 {
            self.sizes()?;
        }
        if flags & (ITER | ISIZE) != 0 {
            self.passes(flags & ISIZE != 0)?;
        }
        if flags & ITERX != 0 && !self.model.is_empty() {
            self.words(flags & ISIZE != 0, true)?;
        }
        if flags & ITERT != 0 && !self.model.is_empty() {
            self.takes()?;
        }
        if flags & MUTW != 0 && !self.model.is_empty() {
            self.writes(probes)?;
        }
        if flags & (DRAINMIN | DRAINMAX | DRAINALT) != 0 {
            let mut up = flags & DRAINMAX != 0;
            while !self.model.is_empty() {
                self.rmin(up)?;
                self.cx.transitions += 1;
                if flags & DRAINALT != 0 {
                    up = !up;
                }
                if flags & FIND != 0 {
                    self.query(Q::Min, 0)?;
                    self.query(Q::Max, 0)?;
                }
            }
            if !self.sys.is_empty() {
                fail!("a tree is left after every entry has been removed");
            }
        }
        Ok(())
    }
    pub fn finish(&mut self) -> Res {
        if self.flags & LEDGER != 0 {
            use crate::fault::*;
            let n = self.model.len();
            self.sys.clear();
            if let Some(b) = bad() {
                fail!("dropping the tree of {n} entries: {b}");
            }
            for (c, w) in [(VALUES, "values"), (KEYS, "keys")] {
                if live(c) != 0 {
                    fail!("after dropping the tree of {n} entries {} {w} are still alive", live(c));
                }
            }
        }
        self.cx.traces += 1;
        self.cx.digest = self.cx.digest.wrapping_add(mix(self.dig));
        Ok(())
    }
    pub fn empty(&self) -> bool {
        self.model.is_empty()
    }
}
fn format_unless(ok: bool, v: &[KV]) -> String {
    if ok { String::new() } else if v.len() <= 24 { format!("{v:x?}") } else { format!("{} entries, {:x?}..{:x?}", v.len(), &v[..3], &v[v.len() - 3..]) }
}
struct Brief<'a>(&'a Model);
impl std::fmt::LowerHex for Brief<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(self, f) }
}
impl std::fmt::Debug for Brief<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.len() <= 24 { write!(f, "{:x?}", self.0) } else { write!(f, "{} entries", self.0.len()) }
    }
}
fn show(d: &[bool]) -> String {
    d.iter().map(|b| if *b { 'B' } else { 'F' }).collect()
}

/// Run a history, observing after the last operation (or after every one).
pub fn run_ops(cfg: &Config, ops: &[Op], flags: u32, obs: u32, probes: &[u128], each: bool, cx: &mut Ctx) -> Res {
    let mut r = Runner::new(cfg, flags, 0, cx);
    let l = ops.len();
    for (i, &op) in ops.iter().enumerate() {
        r.op(op)?;
        if each || i + 1 == l {
            r.observe(obs, probes)?;
        }
    }
    if flags & LEDGER != 0 {
        r.finish()?;
    }
    Ok(())
}

fn bare_ctx() -> Ctx {
    Ctx::bare()
}

/// Delta-debugging on an operation list: smallest sublist (and shortest) that still fails.
pub fn shrink_ops(cfg: &Config, mut ops: Vec<Op>, flags: u32, obs: u32, probes: &[u128], note: &str) -> Option<Fail> {
    let test = |ops: &[Op]| -> Option<Fail> {
        let mut cx = bare_ctx();
        guarded(|| run_ops(cfg, ops, flags, obs, probes, true, &mut cx)).err()
    };
    let mut f = test(&ops)?;
    loop {
        let before = ops.len();
        // cut the tail first, then single operations
        let mut n = ops.len() / 2;
        while n >= 1 {
            let mut i = 0;
            while i + n <= ops.len() {
                let mut t = ops.clone();
                t.drain(i..i + n);
                if !t.is_empty() {
                    if let Some(g) = test(&t) {
                        ops = t;
                        f = g;
                        continue;
                    }
                }
                i += n;
            }
            n /= 2;
        }
        if ops.len() == before {
            break;
        }
    }
    f.trace = trace_of(cfg, &ops, note);
    Some(f)
}
pub fn trace_of(cfg: &Config, ops: &[Op], note: &str) -> Vec<String> {
    let mut t = vec![format!("configuration {} ({} key bits, low half {} bits){}", cfg.name, cfg.bits, cfg.lo, note)];
    t.extend(ops.iter().map(show_op));
    t
}
pub fn show_op(o: &Op) -> String {
    match o {
        Op::Ins(k) => format!("insert {k:#x}"),
        Op::Rem(k) => format!("remove {k:#x}"),
        Op::RMin => "remove_min".into(),
        Op::RMax => "remove_max".into(),
        Op::Monad => "into_monad".into(),
        Op::Mut(q, k) => format!("write through {q:?}_mut {k:#x}"),
        Op::Fill { start, step, count, down } => format!("insert {count} keys from {start:#x} step {step:#x}{}", if *down { ", descending" } else { "" }),
        Op::Clear { start, step, count, down } => format!("remove {count} keys from {start:#x} step {step:#x}{}", if *down { ", descending" } else { "" }),
        Op::DrainMin(n) => format!("remove_min x{n}"),
        Op::DrainMax(n) => format!("remove_max x{n}"),
        Op::Dup => "replace by clone".into(),
    }
}

/// What to enumerate and judge.
#[derive(Clone)]
pub struct Plan {
    pub cfg: Config,
    pub univ: Vec<u128>,
    pub probes: Vec<u128>,
    pub alphabet: Vec<Op>,
    /// flags judged on every operation
    pub flags: u32,
    /// observation after the last operation
    pub obs: u32,
    /// also observe after every operation of a history
    pub each: bool,
}

pub fn alphabet(u: &[u128], kinds: &str) -> Vec<Op> {
    let mut a = vec![];
    for c in kinds.chars() {
        match c {
            'i' => a.extend(u.iter().map(|k| Op::Ins(*k))),
            'r' => a.extend(u.iter().map(|k| Op::Rem(*k))),
            'm' => a.extend([Op::RMin, Op::RMax]),
            '1' => a.push(Op::Monad),
            'w' => {
                a.extend(u.iter().map(|k| Op::Mut(Q::Find, *k)));
                a.extend(u.iter().map(|k| Op::Mut(Q::Pred, *k)));
                a.extend(u.iter().map(|k| Op::Mut(Q::Succ, *k)));
                a.extend([Op::Mut(Q::Min, 0), Op::Mut(Q::Max, 0)]);
            }
            'x' => a.extend([Op::Mut(Q::Min, 0), Op::Mut(Q::Max, 0)]),
            'd' => a.push(Op::Dup),
            _ => panic!("alphabet {kinds}"),
        }
    }
    a
}

fn salt(s: &str) -> u64 {
    s.bytes().fold(7, |h, b| mix(h ^ b as u64))
}

fn decode_history(a: &[Op], depth: u32, mut i: u64) -> Vec<Op> {
    let n = a.len() as u64;
    let mut v = vec![Op::RMin; depth as usize];
    for d in (0..depth as usize).rev() {
        v[d] = a[(i % n) as usize];
        i /= n;
    }
    v
}

fn sample(cx: &mut Ctx, cfg: &Config, ops: &[Op], end: &Model) {
    if cx.want_sample {
        cx.sample = Some(format!("{}: {} -> {:x?}", cfg.name, ops.iter().map(show_op).collect::<Vec<_>>().join("; "), Brief(end)));
        cx.want_sample = false;
    }
}

/// (H) Every history of exactly `depth` operations over the alphabet.
///
/// Case = all but the last operation; the last one is looped over. Histories whose next operation is not
/// an insertion while the tree is empty are the same as the shorter ones without it, and are left out.
pub fn histories(name: &str, p: &Plan, depth: u32) -> Phase {
    let p = p.clone();
    let p2 = p.clone();
    let n = (p.alphabet.len() as u64).pow(depth - 1);
    let s = salt(p.cfg.name);
    let nm = format!("{name}: all histories of {depth} ops over {} ops on {}", p.alphabet.len(), p.cfg.name);
    let mut ph = Phase::new(nm, n, 64, move |i, cx| {
        let pre = decode_history(&p.alphabet, depth - 1, i);
        let mut r = Runner::new(&p.cfg, p.flags, s, cx);
        for &last in &p.alphabet {
            r.reset();
            let mut live = true;
            for &op in &pre {
                if r.empty() && !matches!(op, Op::Ins(_)) {
                    live = false;
                    break;
                }
                r.op(op)?;
                if p.each {
                    r.observe(p.obs, &p.probes)?;
                }
            }
            if !live {
                break; // the same prefix for every last operation
            }
            if r.empty() && !matches!(last, Op::Ins(_)) {
                continue;
            }
            r.op(last)?;
            if r.cx.want_sample {
                let mut o = pre.clone();
                o.push(last);
                let m = r.model.clone();
                sample(r.cx, &p.cfg, &o, &m);
            }
            r.observe(p.obs, &p.probes)?;
            r.finish()?;
        }
        Ok(())
    });
    ph.shrink = Some(Box::new(move |i| {
        let pre = decode_history(&p2.alphabet, depth - 1, i);
        for &last in &p2.alphabet {
            let mut o = pre.clone();
            o.push(last);
            if let Some(f) = shrink_ops(&p2.cfg, o, p2.flags, p2.obs, &p2.probes, "") {
                return Some(f);
            }
        }
        None
    }));
    ph
}

/// (R) Every word of `depth` operations over the alphabet, repeated `reps` times on a tree that starts with the
/// whole universe, with an observation every few repetitions (ever rarer as the run gets longer) and at the end.
pub fn cycles(name: &str, p: &Plan, depth: u32, reps: u32) -> Phase {
    let n = (p.alphabet.len() as u64).pow(depth);
    let nm = format!("{name}: every word of {depth} out of {} operations, repeated {reps} times on a tree of {} keys of {}", p.alphabet.len(), p.univ.len(), p.cfg.name);
    let ops_of = {
        let p = p.clone();
        move |i: u64, reps: u32| -> Vec<Op> {
            let w = decode_history(&p.alphabet, depth, i);
            let mut v: Vec<Op> = p.univ.iter().map(|k| Op::Ins(*k)).collect();
            for _ in 0..reps {
                v.extend(&w);
            }
            v
        }
    };
    let (q, q2) = (p.clone(), p.clone());
    let mut ph = Phase::new(nm, n, 8, move |i, cx| {
        let w = decode_history(&q.alphabet, depth, i);
        let mut r = Runner::new(&q.cfg, q.flags, 0, cx);
        for &k in &q.univ {
            r.op(Op::Ins(k))?;
        }
        for rep in 1..=reps {
            for &op in &w {
                if r.empty() && !matches!(op, Op::Ins(_)) {
                    continue;
                }
                r.op(op)?;
            }
            if rep == reps || rep % (if rep <= 320 { 32 } else { 8192 }) == 0 || (rep & (rep + 1)) == 0 {
                r.observe(if rep == reps { q.obs } else { q.obs & !(DRAINMIN | DRAINMAX | DRAINALT) }, &q.probes)?;
                r.cx.tick();
            }
        }
        if r.cx.want_sample {
            r.cx.sample = Some(format!("{}: ({}) x {reps}", q.cfg.name, w.iter().map(show_op).collect::<Vec<_>>().join("; ")));
            r.cx.want_sample = false;
        }
        r.finish()?;
        Ok(())
    });
    // shortest number of repetitions that still fails, then its smallest sublist unless that would take too long
    ph.shrink = Some(Box::new(move |i| {
        let fails = |reps: u32| {
            let v = ops_of(i, reps);
            let mut cx = bare_ctx();
            guarded(|| run_ops(&q2.cfg, &v, q2.flags, q2.obs, &q2.probes, false, &mut cx)).err().map(|f| (v, f))
        };
        let (mut lo, mut hi) = (0, reps);
        let mut best = fails(hi)?;
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            match fails(m) {
                Some(b) => {
                    best = b;
                    hi = m;
                }
                None => lo = m,
            }
        }
        let (v, mut f) = best;
        if v.len() <= 40 {
            if let Some(g) = shrink_ops(&q2.cfg, v.clone(), q2.flags, q2.obs, &q2.probes, "") {
                return Some(g);
            }
        }
        f.trace = trace_of(&q2.cfg, &v, "");
        Some(f)
    }));
    ph
}

/// How a subset state is built.
pub fn build_order(u: &[u128], mask: u64, order: u32, out: &mut Vec<Op>) {
    let keys: Vec<u128> = u.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| *k).collect();
    let n = keys.len();
    match order {
        0 => out.extend(keys.iter().map(|k| Op::Ins(*k))),
        1 => out.extend(keys.iter().rev().map(|k| Op::Ins(*k))),
        2 => {
            // middle outwards
            let (mut l, mut h) = (n / 2, n / 2);
            let mut up = true;
            while h - l < n {
                if (up && h < n) || l == 0 {
                    out.push(Op::Ins(keys[h]));
                    h += 1;
                } else {
                    l -= 1;
                    out.push(Op::Ins(keys[l]));
                }
                up = !up;
            }
        }
        3 => {
            // ends inwards
            for i in 0..n.div_ceil(2) {
                out.push(Op::Ins(keys[i]));
                if n - 1 - i > i {
                    out.push(Op::Ins(keys[n - 1 - i]));
                }
            }
        }
        4 => {
            // the whole universe ascending, then remove the complement ascending
            out.extend(u.iter().map(|k| Op::Ins(*k)));
            out.extend(u.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, k)| Op::Rem(*k)));
        }
        5 => {
            // the whole universe descending, then remove the complement descending
            out.extend(u.iter().rev().map(|k| Op::Ins(*k)));
            out.extend(u.iter().enumerate().rev().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, k)| Op::Rem(*k)));
        }
        _ => {
            // odd positions descending, then even ascending
            out.extend(keys.iter().enumerate().rev().filter(|(i, _)| i % 2 == 1).map(|(_, k)| Op::Ins(*k)));
            out.extend(keys.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, k)| Op::Ins(*k)));
        }
    }
}

/// (S) Every subset of the universe, reached by every build order, then every suffix of `depth` operations.
pub fn subsets(name: &str, p: &Plan, orders: &[u32], depth: u32) -> Phase {
    let p = p.clone();
    let p2 = p.clone();
    let m = p.univ.len() as u32;
    let no = orders.len() as u64;
    let orders = orders.to_vec();
    let orders2 = orders.clone();
    let n = (1u64 << m) * no;
    let s = salt(p.cfg.name);
    let na = (p.alphabet.len() as u64).pow(depth);
    let nm = format!("{name}: {} subsets x {no} build orders x all suffixes of {depth} of {} ops on {}", 1u64 << m, p.alphabet.len(), p.cfg.name);
    let mut ph = Phase::new(nm, n, 4, move |i, cx| {
        let (mask, o) = (i / no, orders[(i % no) as usize]);
        let mut b = vec![];
        build_order(&p.univ, mask, o, &mut b);
        let flags = p.flags;
        let mut r = Runner::new(&p.cfg, flags, mix(s ^ o as u64), cx);
        if mask == 0 && depth > 0 && o < 4 {
            return Ok(());
        }
        for j in 0..na {
            r.reset();
            // the construction is judged once
            r.flags = if j == 0 { flags } else { 0 };
            for &op in &b {
                if r.empty() && !matches!(op, Op::Ins(_)) {
                    continue;
                }
                r.op1(op)?;
            }
            r.cx.transitions += b.len() as u64;
            r.state();
            r.flags = flags;
            let suf = decode_history(&p.alphabet, depth, j);
            let mut live = true;
            for &op in &suf {
                if r.empty() && !matches!(op, Op::Ins(_)) {
                    live = false;
                    break;
                }
                r.op(op)?;
            }
            if !live {
                continue;
            }
            r.observe(p.obs, &p.probes)?;
            r.finish()?;
            r.cx.tick();
            if r.cx.want_sample && j + 1 == na {
                let mut o = b.clone();
                o.extend(suf);
                let m = r.model.clone();
                sample(r.cx, &p.cfg, &o, &m);
            }
        }
        Ok(())
    });
    ph.shrink = Some(Box::new(move |i| {
        let (mask, o) = (i / no, orders2[(i % no) as usize]);
        let mut b = vec![];
        build_order(&p2.univ, mask, o, &mut b);
        for j in 0..na {
            let mut ops = b.clone();
            ops.extend(decode_history(&p2.alphabet, depth, j));
            if let Some(f) = shrink_ops(&p2.cfg, ops, p2.flags, p2.obs, &p2.probes, "") {
                return Some(f);
            }
        }
        None
    }));
    ph
}

/// (E) One tree per case, never rebuilt: an Euler-like walk that takes every operation of the alphabet in
/// every subset state reachable over the universe (for configurations that are expensive to create).
/// Case = first operation block; each case walks the part of the (state, operation) graph it starts in.
pub fn walk(name: &str, p: &Plan, starts: u64) -> Phase {
    let p = p.clone();
    let p2 = p.clone();
    let s = salt(p.cfg.name);
    let nm = format!("{name}: {starts} walks covering every (subset, op) edge over {} keys, {} ops on {}", p.univ.len(), p.alphabet.len(), p.cfg.name);
    let mut ph = Phase::new(nm, starts, 1, move |i, cx| {
        let ops = walk_ops(&p, i, starts);
        let mut r = Runner::new(&p.cfg, p.flags, s, cx);
        for (j, &op) in ops.iter().enumerate() {
            r.op(op)?;
            r.observe(p.obs, &p.probes)?;
            if j & 15 == 0 {
                r.cx.tick();
            }
        }
        if r.cx.want_sample {
            let m = r.model.clone();
            sample(r.cx, &p.cfg, &ops[..ops.len().min(40)], &m);
        }
        r.finish()?;
        Ok(())
    });
    ph.shrink = Some(Box::new(move |i| {
        let ops = walk_ops(&p2, i, starts);
        let mut cx = bare_ctx();
        // cut at the first failure before shrinking
        let mut r = Runner::new(&p2.cfg, p2.flags, 0, &mut cx);
        let mut n = ops.len();
        for (j, &op) in ops.iter().enumerate() {
            if guarded(|| r.op(op).and_then(|_| r.observe(p2.obs, &p2.probes))).is_err() {
                n = j + 1;
                break;
            }
        }
        let from = n.saturating_sub(120);
        shrink_ops(&p2.cfg, ops[from..n].to_vec(), p2.flags, p2.obs, &p2.probes, "").or_else(|| shrink_ops(&p2.cfg, ops[..n].to_vec(), p2.flags, p2.obs, &p2.probes, ""))
    }));
    ph
}

/// The operation list of walk `i` of `starts`: in every subset state, the operations whose number is
/// congruent to `i`; consecutive uncovered edges are joined by shortest paths.
fn walk_ops(p: &Plan, i: u64, starts: u64) -> Vec<Op> {
    let m = p.univ.len();
    let ns = 1usize << m;
    let na = p.alphabet.len();
    let step = |st: usize, op: Op| -> usize {
        match op {
            Op::Ins(k) => st | 1 << p.univ.iter().position(|x| *x == k).unwrap(),
            Op::Rem(k) => st & !(1 << p.univ.iter().position(|x| *x == k).unwrap()),
            Op::RMin => st & st.wrapping_sub(1),
            Op::RMax => if st == 0 { 0 } else { st & !(1 << (usize::BITS - 1 - st.leading_zeros())) },
            Op::Monad => if st.count_ones() == 1 { 0 } else { st },
            _ => st,
        }
    };
    let mut todo = vec![vec![]; ns];
    let mut left = 0usize;
    for (st, t) in todo.iter_mut().enumerate() {
        for a in (0..na).rev() {
            if (st * 31 + a) as u64 % starts == i && (st != 0 || matches!(p.alphabet[a], Op::Ins(_))) {
                t.push(a);
                left += 1;
            }
        }
    }
    let mut out = vec![];
    let mut st = 0;
    while left > 0 {
        if let Some(a) = todo[st].pop() {
            out.push(p.alphabet[a]);
            st = step(st, p.alphabet[a]);
            left -= 1;
            continue;
        }
        // breadth-first to the nearest state with work
        let mut prev = vec![usize::MAX; ns];
        let mut via = vec![0u16; ns];
        let mut q = std::collections::VecDeque::from([st]);
        prev[st] = st;
        let mut goal = None;
        while let Some(x) = q.pop_front() {
            if !todo[x].is_empty() {
                goal = Some(x);
                break;
            }
            for a in 0..na {
                if x == 0 && !matches!(p.alphabet[a], Op::Ins(_)) {
                    continue;
                }
                let y = step(x, p.alphabet[a]);
                if prev[y] == usize::MAX {
                    prev[y] = x;
                    via[y] = a as u16;
                    q.push_back(y);
                }
            }
        }
        let g = goal.expect("every state is reachable");
        let mut path = vec![];
        let mut x = g;
        while x != st {
            path.push(via[x] as usize);
            x = prev[x];
        }
        for a in path.into_iter().rev() {
            out.push(p.alphabet[a]);
        }
        st = g;
    }
    out
}

/// A fixed list of long histories, observed after every operation (or macro-operation).
pub fn scripts(name: &str, cfg: &Config, list: Vec<Vec<Op>>, flags: u32, obs: u32, probes: Vec<u128>) -> Phase {
    let nm = format!("{name}: {} long histories on {}", list.len(), cfg.name);
    let cfg = cfg.clone();
    let s = salt(cfg.name);
    let l2 = list.clone();
    let c2 = cfg.clone();
    let p2 = probes.clone();
    let mut ph = Phase::new(nm, list.len() as u64, 1, move |i, cx| {
        let mut r = Runner::new(&cfg, flags, s, cx);
        for &op in &list[i as usize] {
            r.op(op)?;
            r.observe(obs & !(DRAINMIN | DRAINMAX | DRAINALT), &probes)?;
            r.cx.tick();
        }
        if r.cx.want_sample {
            let m = r.model.clone();
            sample(r.cx, &cfg, &list[i as usize], &m);
        }
        if obs & (DRAINMIN | DRAINMAX | DRAINALT) != 0 {
            r.observe(obs & (DRAINMIN | DRAINMAX | DRAINALT), &probes)?;
        }
        r.finish()?;
        Ok(())
    });
    ph.shrink = Some(Box::new(move |i| shrink_ops(&c2, l2[i as usize].clone(), flags, obs & !(DRAINMIN | DRAINMAX | DRAINALT), &p2, "")));
    ph
}
