//! Values and key parts whose every life is on record, and the points at which caller-supplied code can
//! be made to panic.
use crate::keys::{Elem, KeyCode};
use crate::sys::Val;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef};

// ---- the ledger -------------------------------------------------------------------------------------

#[derive(Default)]
struct Led {
    /// ids below this belong to earlier cases
    base: u64,
    dead: Vec<bool>,
    live: usize,
    sum: u64,
    bad: Option<String>,
}
const NEW: Led = Led { base: 1, dead: Vec::new(), live: 0, sum: 0, bad: None };
thread_local! {
    static LED: [RefCell<Led>; 2] = const { [RefCell::new(NEW), RefCell::new(NEW)] };
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static ARM: Cell<u64> = const { Cell::new(0) };
    static WHAT: Cell<&'static str> = const { Cell::new("") };
}
pub const VALUES: usize = 0;
pub const KEYS: usize = 1;
const NAMES: [&str; 2] = ["value", "key"];

#[inline]
fn weight(s: u32) -> u64 {
    crate::engine::mix(s as u64 ^ 0x77)
}
/// Forget everything recorded; what is still alive is no longer followed.
pub fn reset() {
    LED.with(|l| {
        for l in l {
            let mut l = l.borrow_mut();
            l.base += l.dead.len() as u64;
            l.dead.clear();
            l.live = 0;
            l.sum = 0;
            l.bad = None;
        }
    });
    disarm();
}
fn born(class: usize, s: u32) -> u64 {
    LED.with(|l| {
        let mut l = l[class].borrow_mut();
        l.dead.push(false);
        l.live += 1;
        l.sum = l.sum.wrapping_add(weight(s));
        l.base + l.dead.len() as u64 - 1
    })
}
fn died(class: usize, id: u64, s: u32) {
    let _ = LED.try_with(|l| {
        let mut l = l[class].borrow_mut();
        if id < l.base {
            return;
        }
        let i = (id - l.base) as usize;
        match l.dead.get(i) {
            None => l.bad = Some(format!("something that was never a {} was dropped as one", NAMES[class])),
            Some(true) => l.bad = Some(format!("{} {s} was dropped twice", NAMES[class])),
            Some(false) => {
                l.dead[i] = true;
                l.live -= 1;
                l.sum = l.sum.wrapping_sub(weight(s));
            }
        }
    });
}
fn used(class: usize, id: u64, s: u32) {
    LED.with(|l| {
        let mut l = l[class].borrow_mut();
        if id < l.base {
            return;
        }
        let i = (id - l.base) as usize;
        if l.dead.get(i).copied().unwrap_or(true) {
            l.bad = Some(format!("{} {s} was reached after it had been dropped", NAMES[class]));
        }
    });
}
pub fn live(class: usize) -> usize {
    LED.with(|l| l[class].borrow().live)
}
/// Order-independent sum over the stamps of everything alive.
pub fn sum(class: usize) -> u64 {
    LED.with(|l| l[class].borrow().sum)
}
pub fn sum_of(it: impl Iterator<Item = u32>) -> u64 {
    it.fold(0u64, |a, s| a.wrapping_add(weight(s)))
}
pub fn bad() -> Option<String> {
    LED.with(|l| l[0].borrow().bad.clone().or_else(|| l[1].borrow().bad.clone()))
}

// ---- fault points -----------------------------------------------------------------------------------

/// Start counting; panic at the `n`-th point from here on (0: only count).
pub fn arm(n: u64) {
    ON.set(true);
    COUNT.set(0);
    ARM.set(n);
}
/// Stop; the number of points passed.
pub fn disarm() -> u64 {
    ON.set(false);
    COUNT.get()
}
/// The kind of point that fired last.
pub fn fired() -> &'static str {
    WHAT.get()
}
#[inline]
pub fn point(what: &'static str) {
    if ON.get() {
        let c = COUNT.get() + 1;
        COUNT.set(c);
        if c == ARM.get() {
            WHAT.set(what);
            panic!("injected panic in {what}");
        }
    }
}
/// Whether the armed point has been reached.
pub fn hit() -> bool {
    ARM.get() != 0 && COUNT.get() >= ARM.get()
}

// ---- the value --------------------------------------------------------------------------------------

pub struct Trk {
    id: u64,
    s: u32,
}
impl Val for Trk {
    fn mk(s: u32) -> Self {
        Trk { id: born(VALUES, s), s }
    }
    fn get(&self) -> u32 {
        used(VALUES, self.id, self.s);
        self.s
    }
    fn set(&mut self, s: u32) {
        used(VALUES, self.id, self.s);
        *self = Trk::mk(s);
    }
}
impl Clone for Trk {
    fn clone(&self) -> Self {
        point("value clone");
        used(VALUES, self.id, self.s);
        Trk::mk(self.s)
    }
}
impl Drop for Trk {
    fn drop(&mut self) {
        died(VALUES, self.id, self.s);
    }
}

// ---- the key part: eight values, everything a caller can supply for a key can panic ---------------------

pub struct Fk {
    id: u64,
    k: u8,
}
impl Fk {
    pub fn new(k: u8) -> Fk {
        Fk { id: born(KEYS, k as u32), k }
    }
    #[inline]
    fn k(&self) -> u8 {
        used(KEYS, self.id, self.k as u32);
        self.k
    }
}
impl Drop for Fk {
    fn drop(&mut self) {
        died(KEYS, self.id, self.k as u32);
    }
}
impl Clone for Fk {
    fn clone(&self) -> Self {
        point("key clone");
        Fk::new(self.k())
    }
}
impl PartialEq for Fk {
    fn eq(&self, o: &Fk) -> bool {
        point("key eq");
        self.k() == o.k()
    }
}
impl Eq for Fk {}
impl Ord for Fk {
    fn cmp(&self, o: &Fk) -> Ordering {
        point("key cmp");
        self.k().cmp(&o.k())
    }
}
impl PartialOrd for Fk {
    fn partial_cmp(&self, o: &Fk) -> Option<Ordering> {
        point("key partial_cmp");
        Some(self.k().cmp(&o.k()))
    }
}
impl Hash for Fk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        point("key hash");
        h.write_u8(self.k())
    }
}
impl SizedVebKey for Fk {
    const CARDINALITY: usize = 8;
    type Cardinality = typenum::U8;
    fn index(&self) -> usize {
        point("key index");
        self.k() as usize
    }
}
impl Elem for Fk {
    const BITS: u32 = 3;
    fn e(&self) -> u128 {
        self.k() as u128
    }
    fn d(c: u128) -> Self {
        Fk::new(c as u8)
    }
}
impl KeyCode for Fk {
    fn enc(&self) -> u128 {
        self.k() as u128
    }
    fn dec(c: u128) -> Self {
        Fk::new(c as u8)
    }
}

/// A caller's composite key whose split and join can panic too.
macro_rules! pair { ($name:ident, $hi:ty, $lo:ty, $lobits:expr, $himask:expr) => {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $name(pub $hi, pub $lo);
    impl VebKey for $name {
        type Hi = $hi;
        type Lo = $lo;
        fn split_val(self) -> ($hi, $lo) {
            point("key split");
            (self.0, self.1)
        }
        fn join<'a>(hi: MaybeBorrowed<'a, $hi>, lo: MaybeBorrowed<'a, $lo>) -> Self {
            point("key join");
            $name(hi.into_or_clone(), lo.into_or_clone())
        }
    }
    impl VebKeyRef<$hi, $lo> for $name {
        fn split_ref<F, R>(&self, f: F) -> R where F: FnOnce(&$hi, &$lo) -> R {
            point("key split_ref");
            f(&self.0, &self.1)
        }
    }
    impl KeyCode for $name {
        fn enc(&self) -> u128 { self.0.enc() << $lobits | self.1.enc() }
        fn dec(c: u128) -> Self { $name(<$hi as KeyCode>::dec(c >> $lobits & $himask), <$lo as KeyCode>::dec(c & ((1 << $lobits) - 1))) }
    }
}}
// 3 | 3 bits in every mixture of tracked parts and bytes
pair!(FF, Fk, Fk, 3, 7);
pair!(BF, u8, Fk, 3, 7);
pair!(FB, Fk, u8, 3, 7);
pair!(BB, u8, u8, 3, 7);
// 3 | 6 and 6 | 3
pair!(FdLo, Fk, FF, 6, 7);
pair!(FdHi, FF, Fk, 3, 63);
pair!(BdLo, u8, BF, 6, 7);
// 3 | (3 | (3 | 3))
pair!(Fd4, Fk, FdLo, 9, 7);
// (3 | 3) | (3 | 3)
pair!(Fdd, FF, FF, 6, 63);
impl SizedVebKey for FF {
    const CARDINALITY: usize = 64;
    type Cardinality = typenum::U64;
    fn index(&self) -> usize {
        self.0.index() * 8 + self.1.index()
    }
}

/// A hasher in two collision classes, every part of which can panic.
pub struct FaultHash;
pub struct FaultHasher(u64);
impl Default for FaultHash {
    fn default() -> Self {
        point("hasher default");
        FaultHash
    }
}
impl Clone for FaultHash {
    fn clone(&self) -> Self {
        point("hasher clone");
        FaultHash
    }
}
impl std::hash::BuildHasher for FaultHash {
    type Hasher = FaultHasher;
    fn build_hasher(&self) -> FaultHasher {
        point("build_hasher");
        FaultHasher(0)
    }
}
impl Hasher for FaultHasher {
    fn finish(&self) -> u64 {
        point("hasher finish");
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= (*x as u64 & 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
    }
}
