use hashbrown::{DefaultHashBuilder, HashMap};
use mc::engine::*;
use mc::fail;
use mc::keys::*;
use mc::parts::*;
use mc::sys::*;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use typenum::{U256, U4 as N4, U16 as N16};
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::collection::array::ArrayTreeCollection;
use veb_tree::collection::TreeCollection;
use veb_tree::key::{U2, U4};
use veb_tree::{SizedVebTree, VebTree};

#[global_allocator]
static GUARD: mc::alloc_meter::Meter = mc::alloc_meter::Meter;

/// What a removal callback does with the tree it is given.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cb {
    /// remove this low key (the must-exist removal is only given one that is there)
    Rem(u128),
    Min,
    Max,
    /// give back another tree in its place, and a made-up entry
    Swap(u128),
    /// give nothing back although entries remain
    Take,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Ins(u128, u128),
    Rem(u128, Cb),
    Maybe(u128, Cb),
    /// write every value through get_mut
    Write(u128),
}
fn show(o: &Op) -> String {
    match o {
        Op::Ins(h, l) => format!("insert_key {h:#x}, ({l:#x}, fresh)"),
        Op::Rem(h, c) => format!("remove_key {h:#x}, {c:x?}"),
        Op::Maybe(h, c) => format!("maybe_remove_key {h:#x}, {c:x?}"),
        Op::Write(h) => format!("write through get_mut {h:#x}"),
    }
}
type Tm = BTreeMap<u128, u32>;
type M = BTreeMap<u128, Tm>;

trait Coll {
    fn present(&self) -> bool;
    fn get(&self, h: u128) -> Option<Vec<KV>>;
    fn write(&mut self, h: u128, from: u32) -> bool;
    /// Ok(hi): a new tree; Err((hi, replaced))
    fn ins(&mut self, h: u128, l: u128, v: u32) -> Result<u128, (u128, Option<KV>)>;
    /// (what is left: None or Some(tree removed?), removed entry)
    fn rem(&mut self, h: u128, c: Cb, fresh: u32, by_ref: bool) -> (Option<bool>, KV);
    fn maybe(&mut self, h: u128, c: Cb, fresh: u32, by_ref: bool) -> Option<(Option<bool>, KV)>;
    fn clear(&mut self);
}
struct Im<C>(Option<C>);
fn content<T: VebTree>(t: &T) -> Vec<KV>
where
    T::Key: KeyCode,
    T::Value: Val,
{
    let mut v = vec![];
    let (k, x) = t.min_val();
    v.push(((*k).enc(), x.get()));
    let mut k = (*k).clone();
    while let Some((n, x)) = t.successor(&k) {
        v.push(((*n).enc(), x.get()));
        k = (*n).clone();
        if v.len() > 4000 {
            break;
        }
    }
    v
}
fn callback<T: VebTree>(t: T, c: Cb, fresh: u32) -> Result<(Option<T>, (T::Key, T::Value)), T>
where
    T::Key: KeyCode,
    T::Value: Val,
{
    match c {
        Cb::Rem(l) => t.remove(T::Key::dec(l)),
        Cb::Min => Ok(t.remove_min()),
        Cb::Max => Ok(t.remove_max()),
        Cb::Swap(l) => Ok((Some(T::from_monad(T::Key::dec(l), T::Value::mk(fresh))), (T::Key::dec(l), T::Value::mk(fresh + 1)))),
        Cb::Take => Ok((None, (T::Key::dec(0), T::Value::mk(fresh)))),
    }
}
impl<C> Coll for Im<C>
where
    C: TreeCollection,
    C::Hi: KeyCode,
    <C::Tree as VebTree>::Key: KeyCode,
    <C::Tree as VebTree>::Value: Val,
{
    fn present(&self) -> bool {
        self.0.is_some()
    }
    fn get(&self, h: u128) -> Option<Vec<KV>> {
        self.0.as_ref()?.get(&C::Hi::dec(h)).map(content)
    }
    fn write(&mut self, h: u128, from: u32) -> bool {
        let Some(t) = self.0.as_mut().and_then(|c| c.get_mut(&C::Hi::dec(h))) else { return false };
        let mut f = from;
        let ks: Vec<u128> = content(t).iter().map(|x| x.0).collect();
        for k in ks {
            let (_, v) = t.find_mut(<C::Tree as VebTree>::Key::dec(k)).unwrap();
            v.set(f);
            f += 1;
        }
        true
    }
    fn ins(&mut self, h: u128, l: u128, v: u32) -> Result<u128, (u128, Option<KV>)> {
        let (hk, lk, vv) = (C::Hi::dec(h), <C::Tree as VebTree>::Key::dec(l), <C::Tree as VebTree>::Value::mk(v));
        match &mut self.0 {
            None => {
                self.0 = Some(C::create(&hk, C::Tree::from_monad(lk, vv)));
                Ok(h)
            }
            Some(c) => match c.insert_key(hk, (lk, vv)) {
                Ok(h) => Ok(h.enc()),
                Err((h, o)) => Err((h.enc(), o.map(|(k, v)| (k.enc(), v.get())))),
            },
        }
    }
    fn rem(&mut self, h: u128, c: Cb, fresh: u32, by_ref: bool) -> (Option<bool>, KV) {
        let t = self.0.take().expect("collection");
        let hk = C::Hi::dec(h);
        let f = |t: C::Tree| callback(t, c, fresh).ok().expect("callback");
        let (t, (k, v)) = if by_ref { t.remove_key(&hk, f) } else { t.remove_key(hk, f) };
        let (t, r) = match t {
            None => (None, None),
            Some((t, b)) => (Some(t), Some(b)),
        };
        self.0 = t;
        (r, (k.enc(), v.get()))
    }
    fn maybe(&mut self, h: u128, c: Cb, fresh: u32, by_ref: bool) -> Option<(Option<bool>, KV)> {
        let t = self.0.take().expect("collection");
        let hk = C::Hi::dec(h);
        let f = |t: C::Tree| callback(t, c, fresh);
        let r = if by_ref { t.maybe_remove_key(&hk, f) } else { t.maybe_remove_key(hk, f) };
        match r {
            Err(t) => {
                self.0 = Some(t);
                None
            }
            Ok((t, (k, v))) => {
                let (t, r) = match t {
                    None => (None, None),
                    Some((t, b)) => (Some(t), Some(b)),
                };
                self.0 = t;
                Some((r, (k.enc(), v.get())))
            }
        }
    }
    fn clear(&mut self) {
        self.0 = None;
    }
}

#[derive(Clone)]
struct Cfg {
    name: &'static str,
    mk: fn() -> Box<dyn Coll>,
    hbits: u32,
    valued: bool,
}
fn mkc<C>() -> Box<dyn Coll>
where
    C: TreeCollection + 'static,
    C::Hi: KeyCode,
    <C::Tree as VebTree>::Key: KeyCode,
    <C::Tree as VebTree>::Value: Val,
{
    Box::new(Im::<C>(None))
}
type L8 = ByteMap<VecDeque<u32>>;
type Bt = BTreeMap<u8, u32>;
type Bx<T> = Box<[Option<T>]>;
type Ga<T, N> = generic_array::GenericArray<Option<T>, N>;
fn cfgs() -> Vec<Cfg> {
    let mut v = vec![];
    macro_rules! c {
        ($n:expr, $t:ty, $b:expr) => { c!($n, $t, $b, true) };
        ($n:expr, $t:ty, $b:expr, $v:expr) => { v.push(Cfg { name: $n, mk: mkc::<$t>, hbits: $b, valued: $v }) };
    }
    c!("boxed array, u8 -> byte map", ArrayTreeCollection<u8, Bx<L8>>, 8);
    c!("boxed array, i8 -> BTreeMap", ArrayTreeCollection<i8, Bx<Bt>>, 8);
    c!("boxed array, u8 -> byte set", ArrayTreeCollection<u8, Bx<ByteSet>>, 8, false);
    c!("boxed array, U4 -> byte map", ArrayTreeCollection<U4, Bx<L8>>, 4);
    c!("boxed array, U2 -> BTreeMap", ArrayTreeCollection<U2, Bx<Bt>>, 2);
    c!("boxed array, () -> BTreeMap", ArrayTreeCollection<(), Bx<Bt>>, 0);
    c!("boxed array, u8 -> caller's leaf", ArrayTreeCollection<u8, Bx<VecLeaf<u8, u32>>>, 8);
    c!("inline array, u8 -> byte map", Box<ArrayTreeCollection<u8, Ga<L8, U256>>>, 8);
    c!("inline array, i8 -> BTreeMap", Box<ArrayTreeCollection<i8, Ga<Bt, U256>>>, 8);
    c!("inline array, U4 -> byte set", ArrayTreeCollection<U4, Ga<ByteSet, N16>>, 4, false);
    c!("inline array, U2 -> byte map", ArrayTreeCollection<U2, Ga<L8, N4>>, 2);
    c!("hash map, u8 -> byte map", HashMap<u8, L8, DefaultHashBuilder>, 8);
    c!("hash map, i16 -> BTreeMap", HashMap<i16, Bt, DefaultHashBuilder>, 16);
    c!("hash map, [String; 2] -> BTreeMap", HashMap<[String; 2], Bt, DefaultHashBuilder>, 16);
    c!("hash map, u64 -> counted byte map", HashMap<u64, SizedVebTree<L8>, DefaultHashBuilder>, 64);
    c!("hash map colliding everywhere, u8 -> byte map", HashMap<u8, L8, ConstHash>, 8);
    c!("hash map with two collision classes, u16 -> byte set", HashMap<u16, ByteSet, ParityHash>, 16, false);
    c!("byte list -> byte map", ByteMap<VecDeque<L8>>, 8);
    c!("byte list -> BTreeMap", ByteMap<VecDeque<Bt>>, 8);
    c!("byte list -> byte set", ByteMap<VecDeque<ByteSet>>, 8, false);
    c!("byte list -> boxed counted tree", ByteMap<VecDeque<Box<SizedVebTree<L8>>>>, 8);
    c!("byte list on a caller's list -> BTreeMap", ByteMap<VecTreeList<Bt>>, 8);
    c!("boxed boxed-array, u8 -> byte map", Box<ArrayTreeCollection<u8, Bx<L8>>>, 8);
    c!("boxed hash map, u8 -> byte map", Box<HashMap<u8, L8, DefaultHashBuilder>>, 8);
    c!("boxed byte list -> byte map", Box<ByteMap<VecDeque<L8>>>, 8);
    c!("twice boxed byte list -> BTreeMap", Box<Box<ByteMap<VecDeque<Bt>>>>, 8);
    v
}
fn big_cfgs() -> Vec<Cfg> {
    let mut v = vec![];
    v.push(Cfg { name: "boxed array, u16 -> BTreeMap", mk: mkc::<ArrayTreeCollection<u16, Bx<Bt>>>, hbits: 16, valued: true });
    v.push(Cfg { name: "boxed array, i16 -> byte set", mk: mkc::<ArrayTreeCollection<i16, Bx<ByteSet>>>, hbits: 16, valued: false });
    v.push(Cfg { name: "hash map, i32 -> BTreeMap", mk: mkc::<HashMap<i32, Bt, DefaultHashBuilder>>, hbits: 32, valued: true });
    v
}

struct Run<'a> {
    cfg: &'a Cfg,
    c: Box<dyn Coll>,
    m: M,
    stamp: u32,
    salt: u64,
    dig: u64,
    flip: bool,
    cx: &'a mut Ctx,
}
impl<'a> Run<'a> {
    fn new(cfg: &'a Cfg, cx: &'a mut Ctx) -> Run<'a> {
        let salt = cfg.name.bytes().fold(5, |h, b| mix(h ^ b as u64));
        Run { cfg, c: (cfg.mk)(), m: M::new(), stamp: 0, salt, dig: salt, flip: false, cx }
    }
    fn reset(&mut self) {
        self.c.clear();
        self.m.clear();
        self.stamp = 0;
        self.flip = false;
        self.dig = self.salt;
    }
    fn fresh(&mut self) -> u32 {
        self.stamp += 10;
        if self.cfg.valued { self.stamp } else { 0 }
    }
    fn m_cb(t: &mut Tm, c: Cb, fresh: u32, valued: bool) -> Option<KV> {
        match c {
            Cb::Rem(l) => t.remove(&l).map(|v| (l, v)),
            Cb::Min => t.pop_first(),
            Cb::Max => t.pop_last(),
            Cb::Swap(l) => {
                *t = Tm::from([(l, fresh)]);
                Some((l, if valued { fresh + 1 } else { 0 }))
            }
            Cb::Take => {
                t.clear();
                Some((0, fresh))
            }
        }
    }
    /// false: the operation is outside its precondition here and was left out
    fn op(&mut self, op: Op) -> Result<bool, Fail> {
        self.cx.transitions += 1;
        match op {
            Op::Ins(h, l) => {
                let v = self.fresh();
                let had = self.m.contains_key(&h);
                let old = self.m.entry(h).or_default().insert(l, v);
                let want = if had { Err((h, old.map(|o| (l, o)))) } else { Ok(h) };
                let got = self.c.ins(h, l, v);
                self.dig = mix(self.dig ^ got.is_ok() as u64);
                if got != want {
                    fail!("insert_key({h:#x}, ({l:#x}, {v})) returned {got:x?}, expected {want:x?}");
                }
            }
            Op::Rem(h, cb) => {
                let Some(t) = self.m.get(&h) else { return Ok(false) };
                if let Cb::Rem(l) = cb {
                    if !t.contains_key(&l) {
                        return Ok(false);
                    }
                }
                let f = self.fresh();
                let t = self.m.get_mut(&h).unwrap();
                let kv = Self::m_cb(t, cb, f, self.cfg.valued).unwrap();
                let gone = t.is_empty();
                if gone {
                    BTreeMap::remove(&mut self.m, &h);
                }
                let want = (if self.m.is_empty() { None } else { Some(gone) }, kv);
                self.flip = !self.flip;
                let got = self.c.rem(h, cb, f, self.flip);
                self.dig = mix(self.dig ^ mix128(got.1 .0) ^ got.1 .1 as u64);
                if got != want {
                    fail!("remove_key({h:#x}, {cb:x?}) returned {got:x?}, expected {want:x?} (what is left: None or Some(tree disappeared), removed entry)");
                }
            }
            Op::Maybe(h, cb) => {
                if self.m.is_empty() {
                    return Ok(false);
                }
                let f = self.fresh();
                let kv = self.m.get_mut(&h).and_then(|t| Self::m_cb(t, cb, f, self.cfg.valued));
                let gone = self.m.get(&h).is_some_and(|t| t.is_empty());
                if gone {
                    BTreeMap::remove(&mut self.m, &h);
                }
                let want = kv.map(|kv| (if self.m.is_empty() { None } else { Some(gone) }, kv));
                self.flip = !self.flip;
                let got = self.c.maybe(h, cb, f, self.flip);
                self.dig = mix(self.dig ^ got.map_or(3, |x| mix128(x.1 .0) ^ x.1 .1 as u64));
                if got != want {
                    fail!("maybe_remove_key({h:#x}, {cb:x?}) returned {got:x?}, expected {want:x?} (None: handed back; what is left: None or Some(tree disappeared), removed entry)");
                }
            }
            Op::Write(h) => {
                if self.m.is_empty() {
                    return Ok(false);
                }
                let f = self.fresh();
                let want = self.m.contains_key(&h);
                if let Some(t) = self.m.get_mut(&h) {
                    for (i, v) in t.values_mut().enumerate() {
                        *v = if self.cfg.valued { f + i as u32 } else { 0 };
                    }
                }
                let got = self.c.write(h, f);
                if got != want {
                    fail!("get_mut({h:#x}) found {got}, expected {want}");
                }
            }
        }
        if self.c.present() == self.m.is_empty() {
            fail!("after {} the collection is {}, but {} trees remain", show(&op), if self.c.present() { "there" } else { "gone" }, self.m.len());
        }
        if self.m.len() <= 256 {
            let mut h = self.salt;
            for (k, t) in &self.m {
                h = mix(h ^ mix128(*k));
                for l in t.keys() {
                    h = mix(h ^ mix128(*l) ^ 1);
                }
            }
            self.cx.states.insert(h);
        }
        Ok(true)
    }
    fn look(&mut self, hs: &[u128]) -> Res {
        for &h in hs {
            let got = self.c.get(h);
            self.cx.transitions += 1;
            let want = self.m.get(&h);
            let ok = match (&got, want) {
                (None, None) => true,
                (Some(g), Some(w)) => g.iter().copied().eq(w.iter().map(|(k, v)| (*k, *v))),
                _ => false,
            };
            if !ok {
                fail!("get({h:#x}) holds {got:x?}, expected {want:x?}");
            }
        }
        Ok(())
    }
    /// The must-exist removal of a key that holds no tree must panic; consumes the collection.
    fn must_panic(&mut self, h: u128) -> Res {
        debug_assert!(!self.m.contains_key(&h));
        if self.m.is_empty() {
            return Ok(());
        }
        self.cx.transitions += 1;
        let c = &mut self.c;
        let r = catch_unwind(AssertUnwindSafe(|| c.rem(h, Cb::Min, 1, true)));
        self.m.clear();
        self.c.clear();
        match r {
            Err(_) => Ok(()),
            Ok(x) => fail!("remove_key({h:#x}) of a key that holds no tree returned {x:x?} instead of panicking"),
        }
    }
}

fn universe(c: &Cfg) -> (Vec<u128>, Vec<u128>) {
    let m = if c.hbits >= 128 { u128::MAX } else { (1u128 << c.hbits) - 1 };
    let hs = match c.hbits {
        0 => vec![0],
        2 => vec![0, 1, 2, 3],
        4 => vec![0, 7, 8, 15],
        _ => vec![0, m / 2, m / 2 + 1, m],
    };
    (hs, vec![1, 128, 200])
}
fn alphabet(hs: &[u128], ls: &[u128], all: bool) -> Vec<Op> {
    let mut a = vec![];
    for &h in hs {
        for &l in ls {
            a.push(Op::Ins(h, l));
        }
    }
    for &h in hs {
        for &l in ls {
            a.push(Op::Maybe(h, Cb::Rem(l)));
            if all {
                a.push(Op::Rem(h, Cb::Rem(l)));
            }
        }
        a.push(Op::Rem(h, Cb::Min));
        a.push(Op::Maybe(h, Cb::Max));
        a.push(Op::Maybe(h, Cb::Swap(ls[0])));
        a.push(Op::Rem(h, Cb::Swap(ls[ls.len() - 1])));
        if all {
            a.push(Op::Rem(h, Cb::Max));
            a.push(Op::Maybe(h, Cb::Min));
            a.push(Op::Write(h));
            a.push(Op::Maybe(h, Cb::Take));
            a.push(Op::Rem(h, Cb::Take));
        }
    }
    a
}
fn probes(hs: &[u128], hbits: u32) -> Vec<u128> {
    let m = if hbits >= 128 { u128::MAX } else { (1u128 << hbits) - 1 };
    let mut p = vec![];
    for &h in hs {
        p.extend([h, h.saturating_sub(1), (h + 1).min(m)]);
    }
    p.sort();
    p.dedup();
    p
}
fn play(c: &Cfg, ops: &[Op], p: &[u128], end_panics: bool, cx: &mut Ctx) -> Result<bool, Fail> {
    let mut r = Run::new(c, cx);
    let go = |r: &mut Run| -> Result<bool, Fail> {
        for (i, &op) in ops.iter().enumerate() {
            let done = r.op(op)?;
            if i + 1 == ops.len() {
                if !done {
                    return Ok(false);
                }
                r.look(p)?;
            }
        }
        if end_panics {
            // every key without a tree, each on a collection of its own
            let absent: Vec<u128> = p.iter().copied().filter(|h| !r.m.contains_key(h)).collect();
            for h in absent {
                r.reset();
                for &op in ops {
                    r.op(op)?;
                }
                r.must_panic(h)?;
            }
        }
        r.cx.traces += 1;
        r.cx.digest = r.cx.digest.wrapping_add(mix(r.dig));
        Ok(true)
    };
    match guarded(|| go(&mut r)) {
        Ok(b) => Ok(b),
        Err(mut f) => {
            f.trace = vec![c.name.to_string()];
            f.trace.extend(ops.iter().map(show));
            Err(f)
        }
    }
}
fn sample(cx: &mut Ctx, c: &Cfg, ops: &[Op]) {
    if cx.want_sample {
        cx.sample = Some(format!("{}: {}", c.name, ops.iter().map(show).collect::<Vec<_>>().join("; ")));
        cx.want_sample = false;
    }
}

/// All histories over a reduced alphabet.
fn histories(c: &Cfg, depth: u32, nh: usize, nl: usize, all: bool) -> Phase {
    let c = c.clone();
    let (mut hs, mut ls) = universe(&c);
    if hs.len() > nh {
        hs = (0..nh).map(|i| hs[i * (hs.len() - 1) / (nh - 1).max(1)]).collect();
    }
    ls.truncate(nl);
    let p = probes(&hs, c.hbits);
    let a = alphabet(&hs, &ls, all);
    let n = (a.len() as u64).pow(depth);
    Phase::new(format!("H: all histories of {depth} of {} ops over {} high and {} low keys on {}", a.len(), hs.len(), ls.len(), c.name), n, 64, move |i, cx| {
        let mut ops = vec![a[0]; depth as usize];
        let mut x = i;
        for d in (0..depth as usize).rev() {
            ops[d] = a[(x % a.len() as u64) as usize];
            x /= a.len() as u64;
        }
        if !matches!(ops[0], Op::Ins(..)) {
            return Ok(());
        }
        sample(cx, &c, &ops);
        play(&c, &ops, &p, false, cx).map(|_| ())
    })
}
/// Every content over the universe, in several build orders, then every operation (and every must-panic removal).
fn subsets(c: &Cfg, nl: usize) -> Phase {
    let c = c.clone();
    let (hs, mut ls) = universe(&c);
    ls.truncate(nl);
    let p = probes(&hs, c.hbits);
    let a = alphabet(&hs, &ls, true);
    let pairs: Vec<(u128, u128)> = hs.iter().flat_map(|h| ls.iter().map(move |l| (*h, *l))).collect();
    let m = pairs.len() as u32;
    let no = 4u64;
    Phase::new(format!("S: {} contents x {no} build orders x {} ops and all must-panic removals on {}", 1u64 << m, a.len(), c.name), (1u64 << m) * no, 8, move |i, cx| {
        let (mask, o) = (i / no, i % no);
        if mask == 0 {
            return Ok(());
        }
        let has = |j: usize| mask >> j & 1 == 1;
        let mut b: Vec<Op> = vec![];
        match o {
            0 => b.extend((0..pairs.len()).filter(|j| has(*j)).map(|j| Op::Ins(pairs[j].0, pairs[j].1))),
            1 => b.extend((0..pairs.len()).rev().filter(|j| has(*j)).map(|j| Op::Ins(pairs[j].0, pairs[j].1))),
            2 => {
                // fill everything, then take the rest out
                b.extend(pairs.iter().map(|(h, l)| Op::Ins(*h, *l)));
                b.extend((0..pairs.len()).filter(|j| !has(*j)).map(|j| Op::Maybe(pairs[j].0, Cb::Rem(pairs[j].1))));
            }
            _ => {
                // low-key major
                let n = ls.len();
                for l in 0..n {
                    for h in (0..hs.len()).rev() {
                        if has(h * n + l) {
                            b.push(Op::Ins(hs[h], ls[l]));
                        }
                    }
                }
            }
        }
        play(&c, &b, &p, o == 0 || o == 2, cx)?;
        for &op in &a {
            b.push(op);
            play(&c, &b, &p, false, cx)?;
            if cx.want_sample {
                sample(cx, &c, &b);
            }
            b.pop();
        }
        cx.tick();
        Ok(())
    })
}
/// Every pair of high keys of a byte-wide collection.
fn pairs(c: &Cfg) -> Phase {
    let c = c.clone();
    let n = 1u64 << c.hbits.min(8);
    let all: Vec<u128> = (0..n as u128).collect();
    Phase::new(format!("W: all pairs of {n} high keys, all high keys queried, on {}", c.name), n * n, 64, move |i, cx| {
        let (a, b) = ((i / n) as u128, (i % n) as u128);
        let ops = [Op::Ins(a, 1), Op::Ins(b, 128), Op::Maybe((a + 1) % n as u128, Cb::Rem(7)), Op::Ins(a, 128), Op::Rem(a, Cb::Max), Op::Write(b)];
        play(&c, &ops, &all, i % 17 == 0 && a != b, cx)?;
        let ops = [Op::Ins(a, 1), Op::Ins(b, 200), Op::Ins((a ^ b) % n as u128, 1), Op::Rem(a, Cb::Min)];
        play(&c, &ops, &all, false, cx)?;
        sample(cx, &c, &ops);
        Ok(())
    })
}
/// A collection with a tree under every high key, taken apart again in several orders.
fn full(c: &Cfg) -> Phase {
    let c = c.clone();
    let n = 1u128 << c.hbits.min(16);
    let stride = if c.hbits > 16 { (1u128 << (c.hbits - 16)) + 1 } else { 1 };
    let m = if c.hbits >= 128 { u128::MAX } else { (1u128 << c.hbits) - 1 };
    Phase::new(format!("F: {n} high keys filled and emptied in six orders on {}", c.name), 6, 1, move |o, cx| {
        let key = |i: u128| (i * stride) & m;
        let ord = |i: u128| match o % 3 {
            0 => i,
            1 => n - 1 - i,
            _ => (i * 5 + 3) % n, // 5 is coprime to any power of two
        };
        let mut r = Run::new(&c, cx);
        let all: Vec<u128> = (0..n).map(key).collect();
        let some: Vec<u128> = all.iter().copied().step_by(((n / 61) as usize).max(1)).collect();
        for i in 0..n {
            r.op(Op::Ins(key(ord(i)), 9))?;
            if i % 1024 == 0 {
                r.look(&some)?;
                r.cx.tick();
            }
        }
        r.look(&all)?;
        // trees come and go, grow and shrink while every place is taken
        for i in (0..n).step_by((n / 16).max(1) as usize) {
            let h = key(ord(i));
            for op in [Op::Ins(h, 10), Op::Maybe(h, Cb::Rem(9)), Op::Rem(h, Cb::Swap(9)), Op::Maybe(h, Cb::Rem(9)), Op::Ins(h, 9), Op::Ins(h, 10), Op::Rem(h, Cb::Max)] {
                r.op(op)?;
                r.look(&some)?;
            }
        }
        for i in 0..n {
            let h = key(if o < 3 { ord(i) } else { ord(n - 1 - i) });
            let op = match i % 4 {
                0 => Op::Maybe(h, Cb::Rem(9)),
                1 => Op::Rem(h, Cb::Min),
                2 => Op::Maybe(h, Cb::Max),
                _ => Op::Rem(h, Cb::Rem(9)),
            };
            if i % 3 == 0 {
                r.op(Op::Maybe(h, Cb::Rem(10)))?;
            }
            r.op(op)?;
            if i + 1 < n {
                r.op(Op::Maybe(h, Cb::Min))?;
            }
            if i % 1024 == 0 {
                r.look(&some)?;
                r.cx.tick();
            }
        }
        r.cx.traces += 1;
        Ok(())
    })
}

fn phases(t: Tier) -> Vec<Phase> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    for c in cfgs() {
        v.push(histories(&c, if q { 5 } else { 6 }, 2, 2, false));
        v.push(histories(&c, if q { 4 } else { 5 }, 3, 2, true));
        v.push(subsets(&c, if q { 2 } else { 3 }));
        if c.hbits <= 8 {
            v.push(pairs(&c));
            v.push(full(&c));
        }
    }
    for c in big_cfgs() {
        v.push(full(&c));
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C09",
        level: "model_checking",
        rule: "Every provided child collection (and caller-written leaves and lists inside them) against a map from high key to map: all histories to a depth, all contents over a small universe by four build orders with every operation and every must-panic removal, all pairs of byte-wide high keys, completely full collections taken apart in six orders; removal callbacks that remove a key, the minimum, the maximum, swap the tree for another or take all of it. Both builds. A state is a distinct (collection, contents); a trace one judged execution.",
        assumptions: &["bounded: universes and depths are those listed in coverage.phases", "hashers and key equality are lawful"],
        compare_builds: true,
        phases,
    })
}
