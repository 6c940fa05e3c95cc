// features: trk
use mc::cfg::*;
use mc::engine::*;
use mc::explore::*;
use mc::fail;
use mc::fault::{self, *};
use mc::keys::*;
use mc::parts::*;
use mc::sys::*;
use mc::tracked::*;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use veb_tree::bitset::ByteMap;
use veb_tree::collection::array::ArrayTreeCollection;
use veb_tree::collection::TreeCollection;
use veb_tree::{SizedVebTree, VebTree};

#[global_allocator]
static GUARD: mc::alloc_meter::Meter = mc::alloc_meter::Meter;

/// An operation that caller-supplied code may interrupt.
#[derive(Clone, Copy, Debug)]
enum F {
    Op(Op),
    Q(Q, u128),
    Qm(Q, u128),
    Iter(bool),
    Sizes,
    /// clone the tree and drop the clone
    Clone,
}
fn show_f(f: &F) -> String {
    match f {
        F::Op(o) => show_op(o),
        F::Q(q, k) => format!("{q:?} {k:#x}"),
        F::Qm(q, k) => format!("{q:?}_mut {k:#x}"),
        F::Iter(b) => format!("iterate {}", if *b { "backward" } else { "forward" }),
        F::Sizes => "sizes".into(),
        F::Clone => "clone".into(),
    }
}
fn exec(s: &mut dyn Sys, f: F, stamp: u32) {
    match f {
        F::Op(Op::Ins(k)) => {
            s.insert(k, stamp);
        }
        F::Op(Op::Rem(k)) => {
            let _ = s.remove(k);
        }
        F::Op(Op::RMin) => {
            s.remove_min();
        }
        F::Op(Op::RMax) => {
            s.remove_max();
        }
        F::Op(Op::Monad) => {
            let _ = s.into_monad();
        }
        F::Op(Op::Mut(q, k)) => {
            s.query_mut(q, k, Some(stamp));
        }
        F::Op(_) => unreachable!(),
        F::Q(q, k) => {
            s.query(q, k);
        }
        F::Qm(q, k) => {
            s.query_mut(q, k, None);
        }
        F::Iter(b) => {
            let mut v = vec![];
            s.iter_all(b, 40, &mut v);
        }
        F::Sizes => {
            s.is_monad();
            s.len_hint();
            s.exact();
        }
        F::Clone => {
            s.dup();
        }
    }
}
/// Ok(interrupted?)
fn quiet(s: &mut dyn Sys, f: F, stamp: u32, arm: u64) -> bool {
    fault::arm(arm);
    let r = catch_unwind(AssertUnwindSafe(|| exec(s, f, stamp))).is_err();
    fault::disarm();
    r
}
fn sound(when: &str) -> Res {
    match bad() {
        Some(b) => Err(Fail::new(format!("{when}: {b}"))),
        None => Ok(()),
    }
}
/// Everything can still be asked; an answer may be wrong, but never a dead value and (straight after the
/// injected panic) never another panic.
fn ask(s: &mut dyn Sys, probes: &[u128], strict: bool) -> Res {
    if s.is_empty() {
        return Ok(());
    }
    let mut one = |f: F| -> Res {
        if quiet(s, f, 0, 0) && strict {
            fail!("{} of the tree that outlived the panic panics itself", show_f(&f));
        }
        Ok(())
    };
    for &p in probes {
        for q in [Q::Find, Q::Pred, Q::Succ] {
            one(F::Q(q, p))?;
            one(F::Qm(q, p))?;
        }
    }
    for f in [F::Q(Q::Min, 0), F::Qm(Q::Min, 0), F::Q(Q::Max, 0), F::Qm(Q::Max, 0), F::Iter(false), F::Iter(true), F::Sizes] {
        one(f)?;
    }
    sound("querying the tree that outlived the panic")
}
fn gone() -> Res {
    sound("dropping what was left")?;
    for (c, w) in [(VALUES, "values"), (KEYS, "key parts")] {
        let n = live(c);
        if n != 0 {
            fail!("{n} {w} are still alive after everything that was left has been dropped");
        }
    }
    Ok(())
}

fn universe_of(c: &Config) -> Vec<u128> {
    match c.bits {
        3 => vec![0, 1, 3, 4, 7],
        6 => vec![0, 1, 0o22, 0o23, 0o27, 0o70],
        9 => vec![0, 0o001, 0o221, 0o222, 0o227, 0o250, 0o700],
        _ => vec![0, 0o0001, 0o2221, 0o2222, 0o2227, 0o2250, 0o7000],
    }
}
fn alphabet_of(c: &Config, u: &[u128]) -> Vec<F> {
    let mut a: Vec<F> = vec![];
    a.extend(u.iter().map(|k| F::Op(Op::Ins(*k))));
    a.extend(u.iter().map(|k| F::Op(Op::Rem(*k))));
    a.extend([F::Op(Op::RMin), F::Op(Op::RMax), F::Op(Op::Monad)]);
    a.extend(u.iter().map(|k| F::Op(Op::Mut(Q::Find, *k))));
    for &k in u {
        for q in [Q::Find, Q::Pred, Q::Succ] {
            a.extend([F::Q(q, k), F::Qm(q, k)]);
        }
    }
    a.extend([F::Q(Q::Min, 0), F::Qm(Q::Min, 0), F::Q(Q::Max, 0), F::Qm(Q::Max, 0), F::Iter(false), F::Iter(true), F::Sizes]);
    if c.clones {
        a.push(F::Clone);
    }
    a
}
fn changes(f: &F) -> bool {
    matches!(f, F::Op(_))
}

/// Every state over the universe, every operation, every point of it; then, on the tree that is left,
/// every query and either nothing or every changing operation (interrupted at every point when `twice`).
fn interrupts(c: &Config, nkeys: usize, orders: &[u32], follow: bool, twice: bool) -> Phase {
    let c = c.clone();
    let mut u = universe_of(&c);
    while u.len() > nkeys {
        u.remove(u.len() / 2);
    }
    let probes: Vec<u128> = probes(&c, &u);
    let fs = alphabet_of(&c, &u);
    let follows: Vec<F> = fs.iter().copied().filter(changes).collect();
    let orders = orders.to_vec();
    let no = orders.len() as u64;
    let nf = fs.len() as u64;
    let n = (1u64 << u.len()) * no * nf;
    let salt = c.name.bytes().fold(11u64, |h, b| mix(h ^ b as u64));
    let nm = format!(
        "I: {} contents x {no} build orders x {nf} operations x every fault point{} on {}",
        (1u64 << u.len()) - 1,
        if twice { " x every following operation x every fault point of it" } else if follow { " x every following operation" } else { "" },
        c.name
    );
    Phase::new(nm, n, 4, move |i, cx| {
        let (f, i2) = (fs[(i % nf) as usize], i / nf);
        let (mask, o) = (i2 / no, orders[(i2 % no) as usize]);
        if mask == 0 {
            return Ok(());
        }
        let mut b = vec![];
        build_order(&u, mask, o, &mut b);
        let shape = mix(salt ^ i);
        let make = |cx: &mut Ctx| -> Box<dyn Sys> {
            fault::reset();
            let mut s = (c.mk)();
            for (j, op) in b.iter().enumerate() {
                if s.is_empty() && !matches!(op, Op::Ins(_)) {
                    continue;
                }
                exec(&mut *s, F::Op(*op), j as u32 + 1);
            }
            cx.traces += 1;
            s
        };
        let label = |n: u64, g: Option<(F, u64)>, e: Fail| -> Fail {
            let mut t = vec![format!("configuration {}", c.name)];
            t.extend(b.iter().map(show_op));
            t.push(format!("{}, interrupted at fault point {n} ({})", show_f(&f), fired()));
            if let Some((g, m)) = g {
                t.push(if m == 0 { show_f(&g) } else { format!("{}, interrupted at fault point {m}", show_f(&g)) });
            }
            Fail { msg: e.msg, trace: t }
        };
        // uninterrupted: how many points there are
        let total = {
            let mut s = make(cx);
            fault::arm(0);
            let r = catch_unwind(AssertUnwindSafe(|| exec(&mut *s, f, 1000)));
            let n = fault::disarm();
            if r.is_err() {
                return Ok(()); // a panic nobody injected is for C17
            }
            drop(s);
            gone().map_err(|e| label(0, None, e))?;
            n
        };
        for n in 1..=total {
            let mut s = make(cx);
            let stored = live(VALUES);
            quiet(&mut *s, f, 1000, n);
            cx.transitions += 1;
            if !fault::hit() {
                continue; // fewer points this time (a hasher seeded at random)
            }
            cx.distinct.insert(mix(shape ^ n << 40));
            sound("during the operation").map_err(|e| label(n, None, e))?;
            if !changes(&f) && live(VALUES) != stored {
                return Err(label(n, None, Fail::new(format!("{stored} values were stored, {} are alive after a query that panicked", live(VALUES)))));
            }
            ask(&mut *s, &probes, true).map_err(|e| label(n, None, e))?;
            let left = !s.is_empty();
            drop(s);
            gone().map_err(|e| label(n, None, e))?;
            if !(left && follow && changes(&f)) {
                continue;
            }
            for &g in &follows {
                let mut m = 0;
                loop {
                    let mut s = make(cx);
                    quiet(&mut *s, f, 1000, n);
                    quiet(&mut *s, g, 2000, m);
                    cx.transitions += 1;
                    let hit = m == 0 || fault::hit();
                    if hit {
                        cx.distinct.insert(mix(shape ^ n << 40 ^ mix(m)));
                        sound("during the operation after the panic").map_err(|e| label(n, Some((g, m)), e))?;
                        ask(&mut *s, &probes, false).map_err(|e| label(n, Some((g, m)), e))?;
                    }
                    // take it apart
                    for _ in 0..u.len() + 1 {
                        if s.is_empty() || quiet(&mut *s, F::Op(Op::RMin), 0, 0) {
                            break;
                        }
                    }
                    drop(s);
                    gone().map_err(|e| label(n, Some((g, m)), e))?;
                    if !twice || !hit {
                        break;
                    }
                    m += 1;
                }
            }
        }
        if cx.want_sample && total > 1 {
            cx.sample = Some(format!("{}: {}; {} interrupted at each of {total} fault points", c.name, b.iter().map(show_op).collect::<Vec<_>>().join("; "), show_f(&f)));
            cx.want_sample = false;
        }
        cx.tick();
        Ok(())
    })
}

// ---- collections, where the removal callback itself is the caller's -----------------------------------

#[derive(Clone, Copy, Debug)]
enum Cb {
    /// panics holding the tree
    Now,
    /// takes the minimum out, then panics holding the entry and the rest
    Later,
    /// takes the tree apart, then panics
    Last,
    Min,
    Rem(u128),
    Take,
    /// hands another tree back
    Swap,
}
#[derive(Clone, Copy, Debug)]
enum Co {
    Ins(u128, u128),
    Rem(u128, Cb),
    Maybe(u128, Cb),
    Get(u128),
    GetMut(u128),
    Create(u128),
}
trait Coll {
    fn exec(&mut self, o: Co, stamp: u32);
    fn there(&self) -> bool;
    fn ask(&mut self, hs: &[u128]);
    fn clear(&mut self);
}
struct Im<C>(Option<C>);
fn read<T: VebTree>(t: &T, cap: usize)
where
    T::Key: KeyCode,
    T::Value: Val,
{
    let (k, v) = t.min_val();
    v.get();
    let mut k = T::Key::dec((*k).enc());
    for _ in 0..cap {
        let Some((n, v)) = t.successor(&k) else { break };
        v.get();
        k = T::Key::dec((*n).enc());
    }
    t.max_val().1.get();
}
impl<C> Im<C>
where
    C: TreeCollection,
    C::Hi: KeyCode,
    <C::Tree as VebTree>::Key: KeyCode,
    <C::Tree as VebTree>::Value: Val,
{
    fn callback(t: C::Tree, c: Cb, stamp: u32) -> Result<(Option<C::Tree>, (<C::Tree as VebTree>::Key, <C::Tree as VebTree>::Value)), C::Tree> {
        point("removal callback");
        let k = <C::Tree as VebTree>::Key::dec;
        let v = <C::Tree as VebTree>::Value::mk;
        let r = match c {
            Cb::Now => panic!("injected panic in the removal callback"),
            Cb::Later => {
                let _r = t.remove_min();
                panic!("injected panic in the removal callback")
            }
            Cb::Last => {
                drop(t);
                panic!("injected panic in the removal callback")
            }
            Cb::Min => Ok(t.remove_min()),
            Cb::Rem(l) => t.remove(k(l)),
            Cb::Take => Ok((None, (k(0), v(stamp)))),
            Cb::Swap => Ok((Some(C::Tree::from_monad(k(0), v(stamp))), (k(0), v(stamp + 1)))),
        };
        point("removal callback");
        r
    }
}
impl<C> Coll for Im<C>
where
    C: TreeCollection,
    C::Hi: KeyCode,
    <C::Tree as VebTree>::Key: KeyCode,
    <C::Tree as VebTree>::Value: Val,
{
    fn exec(&mut self, o: Co, stamp: u32) {
        let k = <C::Tree as VebTree>::Key::dec;
        let v = <C::Tree as VebTree>::Value::mk;
        match o {
            Co::Ins(h, l) => match &mut self.0 {
                None => {
                    let c = C::create(&C::Hi::dec(h), C::Tree::from_monad(k(l), v(stamp)));
                    self.0 = Some(c);
                }
                Some(c) => {
                    let _ = c.insert_key(C::Hi::dec(h), (k(l), v(stamp)));
                }
            },
            Co::Create(h) => {
                C::create(&C::Hi::dec(h), C::Tree::from_monad(k(0), v(stamp)));
            }
            Co::Rem(h, cb) => {
                let Some(c) = self.0.take() else { return };
                self.0 = c.remove_key(C::Hi::dec(h), |t| Self::callback(t, cb, stamp).ok().expect("injected: not there")).0.map(|x| x.0);
            }
            Co::Maybe(h, cb) => {
                let Some(c) = self.0.take() else { return };
                self.0 = match c.maybe_remove_key(&C::Hi::dec(h), |t| Self::callback(t, cb, stamp)) {
                    Err(c) => Some(c),
                    Ok((c, _)) => c.map(|x| x.0),
                };
            }
            Co::Get(h) => {
                if let Some(t) = self.0.as_ref().and_then(|c| c.get(&C::Hi::dec(h))) {
                    read(t, 6)
                }
            }
            Co::GetMut(h) => {
                if let Some(t) = self.0.as_mut().and_then(|c| c.get_mut(&C::Hi::dec(h))) {
                    t.max_val_mut().1.set(stamp)
                }
            }
        }
    }
    fn there(&self) -> bool {
        self.0.is_some()
    }
    fn ask(&mut self, hs: &[u128]) {
        for &h in hs {
            let _ = catch_unwind(AssertUnwindSafe(|| self.exec(Co::Get(h), 0)));
            let _ = catch_unwind(AssertUnwindSafe(|| self.exec(Co::GetMut(h), 3000)));
        }
    }
    fn clear(&mut self) {
        self.0 = None;
    }
}
#[derive(Clone)]
struct Ccfg {
    name: &'static str,
    mk: fn() -> Box<dyn Coll>,
}
fn mkc<C>() -> Box<dyn Coll>
where
    C: TreeCollection + 'static,
    C::Hi: KeyCode,
    <C::Tree as VebTree>::Key: KeyCode,
    <C::Tree as VebTree>::Value: Val,
{
    Box::new(Im::<C>(None))
}
type BtF = BTreeMap<Fk, Trk>;
type L8 = ByteMap<VecDeque<Trk>>;
type Bx<T> = Box<[Option<T>]>;
type Ga<T> = generic_array::GenericArray<Option<T>, typenum::U8>;
type Hm<K, T, S> = hashbrown::HashMap<K, T, S>;
fn colls() -> Vec<Ccfg> {
    let mut v = vec![];
    macro_rules! c { ($n:expr, $t:ty) => { v.push(Ccfg { name: $n, mk: mkc::<$t> }) } }
    c!("boxed array, Fk -> BTreeMap", ArrayTreeCollection<Fk, Bx<BtF>>);
    c!("boxed array, Fk -> byte map", ArrayTreeCollection<Fk, Bx<L8>>);
    c!("inline array, Fk -> BTreeMap", ArrayTreeCollection<Fk, Ga<BtF>>);
    c!("inline array, Fk -> byte map", ArrayTreeCollection<Fk, Ga<L8>>);
    c!("hash map, Fk -> BTreeMap", Hm<Fk, BtF, FaultHash>);
    c!("hash map, Fk -> byte map, colliding", Hm<Fk, L8, ConstHash>);
    c!("hash map, Fk -> own leaf", Hm<Fk, VecLeaf<Fk, Trk>, FaultHash>);
    c!("byte list -> BTreeMap", ByteMap<VecDeque<BtF>>);
    c!("byte list -> byte map", ByteMap<VecDeque<L8>>);
    c!("byte list -> own leaf", ByteMap<VecDeque<VecLeaf<Fk, Trk>>>);
    c!("byte list on own list -> BTreeMap", ByteMap<VecTreeList<BtF>>);
    c!("byte list -> boxed counted BTreeMap", ByteMap<VecDeque<Box<SizedVebTree<BtF>>>>);
    c!("boxed hash map, Fk -> BTreeMap", Box<Hm<Fk, BtF, FaultHash>>);
    c!("boxed byte list -> BTreeMap", Box<ByteMap<VecDeque<BtF>>>);
    c!("boxed array in a box, Fk -> BTreeMap", Box<ArrayTreeCollection<Fk, Bx<BtF>>>);
    v
}
fn quietc(s: &mut dyn Coll, o: Co, stamp: u32, arm: u64) -> bool {
    fault::arm(arm);
    let r = catch_unwind(AssertUnwindSafe(|| s.exec(o, stamp))).is_err();
    fault::disarm();
    r
}
fn callbacks(c: &Ccfg, pairs: &[(u128, u128)], follow: bool) -> Phase {
    let c = c.clone();
    let pairs = pairs.to_vec();
    let mut hs: Vec<u128> = pairs.iter().map(|p| p.0).collect();
    hs.sort();
    hs.dedup();
    let mut ls: Vec<u128> = pairs.iter().map(|p| p.1).collect();
    ls.sort();
    ls.dedup();
    let cbs: Vec<Cb> = [Cb::Now, Cb::Later, Cb::Last, Cb::Min, Cb::Take, Cb::Swap].into_iter().chain(ls.iter().map(|l| Cb::Rem(*l))).collect();
    let mut ops = vec![];
    for &h in &hs {
        for &l in &ls {
            ops.push(Co::Ins(h, l));
        }
        for &cb in &cbs {
            ops.push(Co::Rem(h, cb));
            ops.push(Co::Maybe(h, cb));
        }
        ops.extend([Co::Get(h), Co::GetMut(h), Co::Create(h)]);
    }
    let nf = ops.len() as u64;
    let n = (1u64 << pairs.len()) * 2 * nf;
    let salt = c.name.bytes().fold(13u64, |h, b| mix(h ^ b as u64));
    Phase::new(format!("C: {} contents x 2 build orders x {nf} operations x every fault point and panicking callback{} on {}", 1u64 << pairs.len(), if follow { " x every following operation" } else { "" }, c.name), n, 8, move |i, cx| {
        let (f, i2) = (ops[(i % nf) as usize], i / nf);
        let (mask, rev) = (i2 / 2, i2 % 2 == 1);
        if mask == 0 && !matches!(f, Co::Create(_)) {
            return Ok(());
        }
        let mut b: Vec<Co> = (0..pairs.len()).filter(|j| mask >> j & 1 == 1).map(|j| Co::Ins(pairs[j].0, pairs[j].1)).collect();
        if rev {
            b.reverse();
        }
        let shape = mix(salt ^ i);
        let make = |cx: &mut Ctx| -> Box<dyn Coll> {
            fault::reset();
            let mut s = (c.mk)();
            for (j, op) in b.iter().enumerate() {
                s.exec(*op, j as u32 + 1);
            }
            cx.traces += 1;
            s
        };
        let label = |n: u64, g: Option<Co>, e: Fail| -> Fail {
            let mut t = vec![format!("collection {}", c.name)];
            t.extend(b.iter().map(|o| format!("{o:?}")));
            t.push(if n == 0 { format!("{f:?}") } else { format!("{f:?}, interrupted at fault point {n} ({})", fired()) });
            t.extend(g.map(|g| format!("{g:?}")));
            Fail { msg: e.msg, trace: t }
        };
        let mut n = 0;
        let mut total = 0;
        loop {
            let mut s = make(cx);
            let p = quietc(&mut *s, f, 1000, n);
            cx.transitions += 1;
            if n == 0 {
                total = fault::disarm();
            } else if !fault::hit() {
                break;
            }
            if p {
                cx.distinct.insert(mix(shape ^ n << 40));
            }
            sound("during the operation").map_err(|e| label(n, None, e))?;
            s.ask(&hs);
            sound("querying the collection that is left").map_err(|e| label(n, None, e))?;
            let left = s.there();
            s.clear();
            drop(s);
            gone().map_err(|e| label(n, None, e))?;
            if left && p && follow {
                for &g in &ops {
                    let mut s = make(cx);
                    quietc(&mut *s, f, 1000, n);
                    quietc(&mut *s, g, 2000, 0);
                    cx.transitions += 1;
                    s.ask(&hs);
                    sound("after the operation that followed").map_err(|e| label(n, Some(g), e))?;
                    s.clear();
                    drop(s);
                    gone().map_err(|e| label(n, Some(g), e))?;
                }
            }
            n += 1;
            if n > total {
                break;
            }
        }
        if cx.want_sample && total > 1 {
            cx.sample = Some(format!("{}: {b:?}; {f:?} interrupted at each of {total} fault points", c.name));
            cx.want_sample = false;
        }
        cx.tick();
        Ok(())
    })
}

fn phases(t: Tier) -> Vec<Phase> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    for c in colls() {
        v.push(callbacks(&c, &[(0, 0), (0, 5), (2, 1), (2, 2), (2, 6), (7, 3)], true));
        if !q {
            v.push(callbacks(&c, &[(0, 0), (0, 5), (1, 1), (2, 1), (2, 2), (2, 6), (3, 0), (7, 3)], true));
        }
    }
    for c in faulty() {
        v.push(interrupts(&c, if q { 6 } else { 7 }, if q { &[0, 5] } else { &[0, 1, 2, 4, 5] }, false, false));
        v.push(interrupts(&c, if q { 5 } else { 6 }, if q { &[0] } else { &[0, 4] }, true, false));
        if !q {
            v.push(interrupts(&c, 4, &[0], true, true));
        }
    }
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C13",
        level: "fault_enumeration",
        rule: "Every call of caller-supplied code (key comparison, equality, clone, split, split by reference, join, index and hash, every part of the hasher, value clone, caller-written leaves, lists and collections, removal callbacks) is a numbered point. From every content of a small universe by several build orders, every operation is interrupted by a panic at every point it passes; the tree that is left is then asked everything, and given every changing operation (in the thorough tier again interrupted at every point), and dropped. Values and key parts carry identities whose birth and death are on record: nothing may be dropped twice, no query may reach something dead, and nothing may be alive at the end. A case is non-trivial when the panic really happened; distinct cases differ in configuration, content, build order, operation or point. Both builds.",
        assumptions: &["bounded: universes, build orders and configurations are those listed in coverage.phases", "drops of keys and values do not panic themselves", "what a query on a tree that outlived a panic answers is not judged, only that it answers and reaches nothing dead; further changes of such a tree may panic, but must not break memory either"],
        compare_builds: false,
        phases,
    })
}
