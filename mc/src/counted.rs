//! Keys, leaves, lists and child collections that count every step taken through them.
use crate::cfg::*;
use crate::engine::Fx;
use crate::keys::KeyCode;
use crate::sys::*;
use crate::tree_config as c;
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::num::NonZeroUsize;
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::collection::*;
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef};
use veb_tree::markers::*;
use veb_tree::tree::{TreeMarker, VebTreeMarker};
use veb_tree::{MaybeRemoveResult, RemoveResult, SizedVebTree, VebTree};

thread_local! { static STEPS: Cell<u64> = const { Cell::new(0) }; }
#[inline]
pub fn step() {
    STEPS.set(STEPS.get() + 1);
}
pub fn steps() -> u64 {
    STEPS.get()
}

macro_rules! ckey { ($name:ident, $hi:ty, $lo:ty, $bits:expr, $lobits:expr) => {
    #[derive(Clone, Copy, Debug)]
    pub struct $name(pub u128);
    impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { step(); self.0 == o.0 } }
    impl Eq for $name {}
    impl PartialOrd for $name { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { step(); self.0.partial_cmp(&o.0) } }
    impl Ord for $name { fn cmp(&self, o: &Self) -> Ordering { step(); self.0.cmp(&o.0) } }
    impl Hash for $name { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.0 as u64); h.write_u64((self.0 >> 64) as u64) } }
    impl VebKey for $name {
        type Hi = $hi;
        type Lo = $lo;
        fn split_val(self) -> ($hi, $lo) {
            step();
            (<$hi as KeyCode>::dec(self.0 >> $lobits), <$lo as KeyCode>::dec(self.0 & ((1 << $lobits) - 1)))
        }
        fn join<'a>(hi: MaybeBorrowed<'a, $hi>, lo: MaybeBorrowed<'a, $lo>) -> Self {
            step();
            $name(hi.enc() << $lobits | lo.enc())
        }
    }
    impl VebKeyRef<$hi, $lo> for $name {
        fn split_ref<F, R>(&self, f: F) -> R where F: FnOnce(&$hi, &$lo) -> R {
            let (h, l) = self.split_val();
            f(&h, &l)
        }
    }
    impl KeyCode for $name {
        fn enc(&self) -> u128 { self.0 }
        fn dec(c: u128) -> Self { $name(c) }
    }
}}
// halves of halves
ckey!(K16, u8, u8, 16, 8);
ckey!(K32, K16, K16, 32, 16);
ckey!(K64, K32, K32, 64, 32);
ckey!(K128, K64, K64, 128, 64);
// one two-bit digit at a time, the rest in the low half
ckey!(L1, u8, u8, 4, 2);
ckey!(L2, u8, L1, 6, 4);
ckey!(L3, u8, L2, 8, 6);
ckey!(L4, u8, L3, 10, 8);
ckey!(L5, u8, L4, 12, 10);
ckey!(L6, u8, L5, 14, 12);
ckey!(L7, u8, L6, 16, 14);
ckey!(L8, u8, L7, 18, 16);
ckey!(L9, u8, L8, 20, 18);
ckey!(L10, u8, L9, 22, 20);
ckey!(L11, u8, L10, 24, 22);
// the rest in the high half
ckey!(H1, u8, u8, 4, 2);
ckey!(H2, H1, u8, 6, 2);
ckey!(H3, H2, u8, 8, 2);
ckey!(H4, H3, u8, 10, 2);
ckey!(H5, H4, u8, 12, 2);
ckey!(H6, H5, u8, 14, 2);
ckey!(H7, H6, u8, 16, 2);
ckey!(H8, H7, u8, 18, 2);
ckey!(H9, H8, u8, 20, 2);
ckey!(H10, H9, u8, 22, 2);
ckey!(H11, H10, u8, 24, 2);
// the rest alternately in the high and the low half
ckey!(Z1, u8, u8, 4, 2);
ckey!(Z2, Z1, u8, 6, 2);
ckey!(Z3, u8, Z2, 8, 6);
ckey!(Z4, Z3, u8, 10, 2);
ckey!(Z5, u8, Z4, 12, 10);
ckey!(Z6, Z5, u8, 14, 2);
ckey!(Z7, u8, Z6, 16, 14);
// two-bit digits, halves of halves: everything small, five levels
ckey!(B4, u8, u8, 4, 2);
ckey!(B8, B4, B4, 8, 4);
ckey!(B16, B8, B8, 16, 8);
ckey!(B32, B16, B16, 32, 16);
ckey!(B64, B32, B32, 64, 32);
// one-bit digits, halves of halves: eight levels, every split in the middle
ckey!(C2, u8, u8, 2, 1);
ckey!(C4, C2, C2, 4, 2);
ckey!(C8, C4, C4, 8, 4);
ckey!(C16, C8, C8, 16, 8);
ckey!(C32, C16, C16, 32, 16);
ckey!(C64, C32, C32, 64, 32);
ckey!(C128, C64, C64, 128, 64);
impl SizedVebKey for B4 {
    const CARDINALITY: usize = 16;
    type Cardinality = typenum::U16;
    fn index(&self) -> usize { self.0 as usize }
}
impl SizedVebKey for B8 {
    const CARDINALITY: usize = 256;
    type Cardinality = typenum::U256;
    fn index(&self) -> usize { self.0 as usize }
}

/// A leaf (or any tree) that counts how often it is used.
pub struct CLeaf<T>(T);
pub struct Cl<M>(std::marker::PhantomData<M>);
impl<K, V, M: VebTreeMarker<K, V>> VebTreeMarker<K, V> for Cl<M> {
    type Tree = CLeaf<M::Tree>;
}
type Ent<'a, T> = (MaybeBorrowed<'a, <T as VebTree>::Key>, &'a <T as VebTree>::Value);
type EntM<'a, T> = (MaybeBorrowed<'a, <T as VebTree>::Key>, &'a mut <T as VebTree>::Value);
impl<T: VebTree> VebTree for CLeaf<T> {
    type Key = T::Key;
    type Value = T::Value;
    fn from_monad(k: T::Key, v: T::Value) -> Self { step(); CLeaf(T::from_monad(k, v)) }
    fn is_monad(&self) -> bool { step(); self.0.is_monad() }
    fn into_monad(self) -> Result<(T::Key, T::Value), Self> { step(); self.0.into_monad().map_err(CLeaf) }
    fn len_hint(&self) -> (usize, Option<usize>) { step(); self.0.len_hint() }
    fn min_val(&self) -> Ent<'_, T> { step(); self.0.min_val() }
    fn min_val_mut(&mut self) -> EntM<'_, T> { step(); self.0.min_val_mut() }
    fn max_val(&self) -> Ent<'_, T> { step(); self.0.max_val() }
    fn max_val_mut(&mut self) -> EntM<'_, T> { step(); self.0.max_val_mut() }
    fn find<Q: Borrow<T::Key>>(&self, k: Q) -> Option<Ent<'_, T>> { step(); self.0.find(k) }
    fn find_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<EntM<'_, T>> { step(); self.0.find_mut(k) }
    fn predecessor<Q: Borrow<T::Key>>(&self, k: Q) -> Option<Ent<'_, T>> { step(); self.0.predecessor(k) }
    fn predecessor_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<EntM<'_, T>> { step(); self.0.predecessor_mut(k) }
    fn successor<Q: Borrow<T::Key>>(&self, k: Q) -> Option<Ent<'_, T>> { step(); self.0.successor(k) }
    fn successor_mut<Q: Borrow<T::Key>>(&mut self, k: Q) -> Option<EntM<'_, T>> { step(); self.0.successor_mut(k) }
    fn insert(&mut self, k: T::Key, v: T::Value) -> Option<(T::Key, T::Value)> { step(); self.0.insert(k, v) }
    fn remove<Q: Borrow<T::Key>>(self, k: Q) -> MaybeRemoveResult<Self> {
        step();
        match self.0.remove(k) {
            Ok((t, r)) => Ok((t.map(CLeaf), r)),
            Err(t) => Err(CLeaf(t)),
        }
    }
    fn remove_min(self) -> RemoveResult<Self> {
        step();
        let (t, r) = self.0.remove_min();
        (t.map(CLeaf), r)
    }
    fn remove_max(self) -> RemoveResult<Self> {
        step();
        let (t, r) = self.0.remove_max();
        (t.map(CLeaf), r)
    }
}

/// A child collection that counts how often it is used.
pub struct CColl<C>(C);
pub struct Cc<M>(std::marker::PhantomData<M>);
impl<K: VebKey, V, M: VebTreeCollectionMarker<K, V>> VebTreeCollectionMarker<K, V> for Cc<M> {
    type TreeCollection = CColl<<M::TreeCollection as SuperTreeCollection<K, V>>::TC>;
}
impl<C: TreeCollection> TreeCollection for CColl<C> {
    type Hi = C::Hi;
    type Tree = C::Tree;
    fn create(h: &C::Hi, t: C::Tree) -> Self { step(); CColl(C::create(h, t)) }
    fn get(&self, h: &C::Hi) -> Option<&C::Tree> { step(); self.0.get(h) }
    fn get_mut(&mut self, h: &C::Hi) -> Option<&mut C::Tree> { step(); self.0.get_mut(h) }
    fn insert_key(&mut self, h: C::Hi, lv: CollectionKV<Self>) -> TreeInsertResult<Self> { step(); self.0.insert_key(h, lv) }
    fn remove_key<Q, R>(self, h: Q, r: R) -> TreeRemoveResult<Self>
    where
        Q: Borrow<C::Hi>,
        R: FnOnce(C::Tree) -> RemoveResult<C::Tree>,
    {
        step();
        let (c, kv) = self.0.remove_key(h, r);
        (c.map(|(c, b)| (CColl(c), b)), kv)
    }
    fn maybe_remove_key<Q, R>(self, h: Q, r: R) -> TreeMaybeRemoveResult<Self>
    where
        Q: Borrow<C::Hi>,
        R: FnOnce(C::Tree) -> MaybeRemoveResult<C::Tree>,
    {
        step();
        match self.0.maybe_remove_key(h, r) {
            Ok((c, kv)) => Ok((c.map(|(c, b)| (CColl(c), b)), kv)),
            Err(c) => Err(CColl(c)),
        }
    }
}

/// A list behind a byte map that counts how often it is used.
pub struct CList<L>(L);
pub struct Cv;
impl<T: VebTree> TreeListMarker<T> for Cv {
    type List = CList<<VecDequeMarker as TreeListMarker<T>>::List>;
}
impl<V> ListMarker<V> for Cv {
    type List = CList<<VecDequeMarker as ListMarker<V>>::List>;
}
type Rr<L> = (Option<(L, bool)>, (<<L as TreeList>::Tree as VebTree>::Key, <<L as TreeList>::Tree as VebTree>::Value));
impl<L: TreeList> TreeList for CList<L> {
    type Tree = L::Tree;
    fn from_monad(v: L::Tree) -> Self { step(); CList(L::from_monad(v)) }
    fn len(&self) -> NonZeroUsize { self.0.len() }
    fn get(&self, i: usize) -> &L::Tree { step(); self.0.get(i) }
    fn get_mut(&mut self, i: usize) -> &mut L::Tree { step(); self.0.get_mut(i) }
    fn insert_tree(&mut self, i: usize, v: L::Tree) { step(); self.0.insert_tree(i, v) }
    fn remove_key<F: FnOnce(L::Tree) -> RemoveResult<L::Tree>>(self, i: usize, f: F) -> Rr<Self> {
        step();
        let (c, kv) = self.0.remove_key(i, f);
        (c.map(|(c, b)| (CList(c), b)), kv)
    }
    fn maybe_remove_key<F: FnOnce(L::Tree) -> MaybeRemoveResult<L::Tree>>(self, i: usize, f: F) -> Result<Rr<Self>, Self> {
        step();
        match self.0.maybe_remove_key(i, f) {
            Ok((c, kv)) => Ok((c.map(|(c, b)| (CList(c), b)), kv)),
            Err(c) => Err(CList(c)),
        }
    }
}
impl<L: List> List for CList<L> {
    type Value = L::Value;
    fn from_monad(v: L::Value) -> Self { step(); CList(L::from_monad(v)) }
    fn len(&self) -> usize { self.0.len() }
    fn get(&self, i: usize) -> &L::Value { step(); self.0.get(i) }
    fn get_mut(&mut self, i: usize) -> &mut L::Value { step(); self.0.get_mut(i) }
    fn insert_value(&mut self, i: usize, v: L::Value) { step(); self.0.insert_value(i, v) }
    fn remove_value(self, i: usize) -> (Option<Self>, L::Value) {
        step();
        let (l, v) = self.0.remove_value(i);
        (l.map(CList), v)
    }
}

/// The slots of an array collection, counting how often one is looked at.
pub struct CArr<A>(A);
pub struct Cs<M>(std::marker::PhantomData<M>);
impl<K: SizedVebKey, V, M: ArrayMarker<K, V>> ArrayMarker<K, V> for Cs<M> {
    type Array = CArr<M::Array>;
}
impl<N, A: OptionArray<N>> OptionArray<N> for CArr<A> {
    type V = A::V;
    fn create() -> Self { step(); CArr(A::create()) }
    fn get(&self, i: usize) -> &Option<A::V> { step(); self.0.get(i) }
    fn get_mut(&mut self, i: usize) -> &mut Option<A::V> { step(); self.0.get_mut(i) }
}

// summaries and leaves
type S = Cl<ByteSetMarker>;
type V8 = Cl<ByteTreeMarker<Cv>>;
type Hs = BuildHasherDefault<Fx>;
type Ha<M> = Cc<HashMapMarker<M, Hs>>;
type By<M> = Cc<ByteCollectionMarker<Cv, M>>;
type Ar<M> = Cc<ArrayTreeCollectionMarker<Cs<BoxMarker<M>>>>;
type Bx<M> = Cc<crate::parts::Boxed<M>>;
type T<A, B> = TreeMarker<A, B>;
type Tr<K, M> = VebTreeType<K, u32, M>;

// halves of halves: summaries of each width and trees of each width
type S16 = T<S, By<S>>;
type S32 = T<S16, Ha<S16>>;
type S64 = T<S32, Ha<S32>>;
type T16 = T<S, By<V8>>;
type T32 = T<S16, Ha<T16>>;
type T64 = T<S32, Ha<T32>>;
type T128 = T<S64, Ha<T64>>;
type A16 = T<S, Ar<V8>>;
// digits
type DL1 = T<S, By<V8>>;
type DL2 = T<S, By<DL1>>;
type DL3 = T<S, Ha<DL2>>;
type DL4 = T<S, By<DL3>>;
type DL5 = T<S, Ha<DL4>>;
type DL6 = T<S, Bx<ByteCollectionMarker<Cv, DL5>>>;
type DL7 = T<S, By<DL6>>;
type DL8 = T<S, Ha<DL7>>;
type DL9 = T<S, By<DL8>>;
type DL10 = T<S, By<DL9>>;
type DL11 = T<S, Ha<DL10>>;
type SH1 = T<S, By<S>>;
type SH2 = T<SH1, Ha<S>>;
type SH3 = T<SH2, Ha<S>>;
type SH4 = T<SH3, Ha<S>>;
type SH5 = T<SH4, Ha<S>>;
type SH6 = T<SH5, Ha<S>>;
type SH7 = T<SH6, Ha<S>>;
type SH8 = T<SH7, Ha<S>>;
type SH9 = T<SH8, Ha<S>>;
type SH10 = T<SH9, Ha<S>>;
type DH11 = T<SH10, Ha<V8>>;
type SZ1 = T<S, By<S>>;
type SZ2 = T<SZ1, Ha<S>>;
type SZ3 = T<S, By<SZ2>>;
type SZ4 = T<SZ3, Ha<S>>;
type SZ5 = T<S, By<SZ4>>;
type DZ6 = T<SZ5, Ha<V8>>;
type DZ7 = T<S, By<DZ6>>;
// small digits, halves of halves, arrays where the crate can have them
type SB4 = T<S, By<S>>;
type SB8 = T<SB4, Ar<SB4>>;
type SB16 = T<SB8, Ar<SB8>>;
type SB32 = T<SB16, Ha<SB16>>;
type DB4 = T<S, By<V8>>;
type DB8 = T<SB4, Ar<DB4>>;
type DB16 = T<SB8, Ha<DB8>>;
type DB32 = T<SB16, Ha<DB16>>;
type DB64 = T<SB32, Ha<DB32>>;

type SC2 = T<S, By<S>>;
type SC4 = T<SC2, Ha<SC2>>;
type SC8 = T<SC4, Ha<SC4>>;
type SC16 = T<SC8, Ha<SC8>>;
type SC32 = T<SC16, Ha<SC16>>;
type SC64 = T<SC32, Ha<SC32>>;
type DC2 = T<S, By<V8>>;
type DC4 = T<SC2, Ha<DC2>>;
type DC8 = T<SC4, Ha<DC4>>;
type DC16 = T<SC8, Ha<DC8>>;
type DC32 = T<SC16, Ha<DC16>>;
type DC64 = T<SC32, Ha<DC32>>;
type DC128 = T<SC64, Ha<DC64>>;

/// How a key is split, down to its digits.
#[derive(Clone)]
pub enum Shape {
    Digit(u32),
    Node(Box<Shape>, Box<Shape>),
}
use Shape::*;
impl Shape {
    pub fn bits(&self) -> u32 {
        match self {
            Digit(b) => *b,
            Node(h, l) => h.bits() + l.bits(),
        }
    }
    fn halves(bits: u32, digit: u32) -> Shape {
        if bits == digit { Digit(digit) } else { Node(Box::new(Shape::halves(bits / 2, digit)), Box::new(Shape::halves(bits / 2, digit))) }
    }
    /// A chain of digits; for each level below the top one, whether the rest is in the low half.
    fn chain(digit: u32, lows: &[bool]) -> Shape {
        let mut s = Node(Box::new(Digit(digit)), Box::new(Digit(digit)));
        for &low in lows {
            s = if low { Node(Box::new(Digit(digit)), Box::new(s)) } else { Node(Box::new(s), Box::new(Digit(digit))) };
        }
        s
    }
    /// Contents that make a search for `k` go on in both the summary and the child of every node below.
    pub fn around(&self, k: u128) -> Vec<u128> {
        let mut v = match self {
            Digit(b) => {
                let m = (1u128 << b) - 1;
                vec![k.saturating_sub(1), k, (k + 1).min(m)]
            }
            Node(h, l) => {
                let lb = l.bits();
                let lm = (1u128 << lb) - 1;
                let (kh, kl) = (k >> lb, k & lm);
                let mut v: Vec<u128> = h.around(kh).iter().map(|x| x << lb | lm / 2).collect();
                v.extend(l.around(kl).iter().map(|x| kh << lb | x));
                // the least and the greatest key of a node do not reach its children
                let b = self.bits();
                v.extend([0, if b >= 128 { u128::MAX } else { (1 << b) - 1 }]);
                v
            }
        };
        v.sort();
        v.dedup();
        v
    }
}

/// Configuration, recursion levels, and the bits of one digit of its worst-case key products.
pub struct Counting {
    pub cfg: Config,
    pub levels: u32,
    pub digit: u32,
    pub shape: Shape,
}
pub fn counted() -> Vec<Counting> {
    let mut v: Vec<Config> = vec![];
    let mut l: Vec<(u32, u32)> = vec![];
    macro_rules! k { ($n:expr, $t:ty, $x:ty, $bits:expr, $lo:expr, $levels:expr, $digit:expr) => { c!(v, $n, $t, $x, $bits, $lo); l.push(($levels, $digit)); } }
    k!("K16/bytelist", Tr<K16, T16>, Plain, 16, 8, 2, 8);
    k!("K16/array", Tr<K16, A16>, Plain, 16, 8, 2, 8);
    k!("K32", Tr<K32, T32>, Plain, 32, 16, 3, 8);
    k!("K64", Tr<K64, T64>, Plain, 64, 32, 4, 8);
    k!("K128", Tr<K128, T128>, Plain, 128, 64, 5, 8);
    k!("Sized<Box<K128>>", SizedVebTree<Box<Tr<K128, T128>>>, Counted, 128, 64, 5, 8);
    k!("twelve digits, low", Tr<L11, DL11>, Plain, 24, 22, 12, 2);
    k!("twelve digits, high", Tr<H11, DH11>, Plain, 24, 2, 12, 2);
    k!("eight digits, alternating", Tr<Z7, DZ7>, Plain, 16, 14, 8, 2);
    k!("32 digits, halves", Tr<B64, DB64>, Plain, 64, 32, 6, 2);
    k!("Box<32 digits, halves>", Box<Tr<B64, DB64>>, Plain, 64, 32, 6, 2);
    k!("128 digits, halves", Tr<C128, DC128>, Plain, 128, 64, 8, 1);
    v.into_iter().zip(l).map(|(mut c, l)| {
        c.exact = c.name.starts_with("Sized");
        let shape = match c.name {
            "twelve digits, low" => Shape::chain(2, &[true; 10]),
            "twelve digits, high" => Shape::chain(2, &[false; 10]),
            "eight digits, alternating" => Shape::chain(2, &[false, true, false, true, false, true]),
            _ => Shape::halves(c.bits, l.1),
        };
        assert_eq!(shape.bits(), c.bits);
        Counting { cfg: c, levels: l.0, digit: l.1, shape }
    }).collect()
}
