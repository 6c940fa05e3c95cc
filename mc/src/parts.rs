//! Caller-supplied parts: hashers, a leaf, a collection and a list written without looking at the crate's own.
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hasher};
use std::num::NonZeroUsize;
use veb_tree::bitset::{List, ListMarker, TreeList, TreeListMarker};
use veb_tree::collection::{CollectionKV, SuperTreeCollection, TreeCollection, TreeInsertResult, TreeMaybeRemoveResult, TreeRemoveResult, VebTreeCollectionMarker};
use typenum::Unsigned;
use veb_tree::collection::array::{ArrayMarker, OptionArray};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey};
use veb_tree::tree::VebTreeMarker;
use veb_tree::SizedVebTree;
use crate::fault::point;
use std::collections::BTreeMap;
use veb_tree::{MaybeRemoveResult, RemoveResult, VebTree};

/// Caller-supplied leaf: the crate's VebTree for BTreeMap, for any ordered key.
pub struct Bt;
impl<K: Ord, V> VebTreeMarker<K, V> for Bt {
    type Tree = BTreeMap<K, V>;
}
/// Caller-supplied marker for a boxed child collection (exercises TreeCollection for Box).
pub struct Boxed<M>(std::marker::PhantomData<M>);
impl<K: VebKey, V, M> VebTreeCollectionMarker<K, V> for Boxed<M>
where
    M: VebTreeCollectionMarker<K, V>,
{
    type TreeCollection = Box<<M::TreeCollection as SuperTreeCollection<K, V>>::TC>;
}
/// Caller-supplied marker for a size-tracking child tree.
pub struct SizedM<M>(std::marker::PhantomData<M>);
impl<K, V, M: VebTreeMarker<K, V>> VebTreeMarker<K, V> for SizedM<M> {
    type Tree = SizedVebTree<M::Tree>;
}

/// Every key collides.
#[derive(Default, Clone)]
pub struct ConstHash;
pub struct ConstHasher(u64);
impl Hasher for ConstHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for ConstHash {
    type Hasher = ConstHasher;
    fn build_hasher(&self) -> ConstHasher { ConstHasher(0x5a5a) }
}
/// Only the low bit of the bytes written survives: two big collision classes.
#[derive(Default, Clone)]
pub struct ParityHash;
pub struct ParityHasher(u64);
impl Hasher for ParityHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for x in b { self.0 ^= (*x as u64 & 1).wrapping_mul(0x9e37_79b9_7f4a_7c15); }
    }
}
impl BuildHasher for ParityHash {
    type Hasher = ParityHasher;
    fn build_hasher(&self) -> ParityHasher { ParityHasher(0) }
}

/// A leaf kept as a vector sorted downwards.
#[derive(Clone)]
pub struct VecLeaf<K, V>(Vec<(K, V)>);
pub struct VecLeafM;
impl<K: Ord, V> VebTreeMarker<K, V> for VecLeafM {
    type Tree = VecLeaf<K, V>;
}
impl<K: Ord, V> VecLeaf<K, V> {
    fn at(&self, k: &K) -> Result<usize, usize> {
        self.0.binary_search_by(|(x, _)| k.cmp(x))
    }
    fn out(mut self, i: usize) -> (Option<Self>, (K, V)) {
        let r = self.0.remove(i);
        ((!self.0.is_empty()).then_some(self), r)
    }
}
type Ent<'a, K, V> = (MaybeBorrowed<'a, K>, &'a V);
type EntM<'a, K, V> = (MaybeBorrowed<'a, K>, &'a mut V);
impl<K: Ord, V> VebTree for VecLeaf<K, V> {
    type Key = K;
    type Value = V;
    fn from_monad(k: K, v: V) -> Self { point("own leaf");
        VecLeaf(vec![(k, v)])
    }
    fn is_monad(&self) -> bool { point("own leaf");
        self.0.len() == 1
    }
    /// True, and as vague as the contract allows.
    fn len_hint(&self) -> (usize, Option<usize>) { point("own leaf");
        let n = self.0.len();
        (n / 3, (n % 2 == 0).then_some(2 * n + 3))
    }
    fn into_monad(mut self) -> Result<(K, V), Self> { point("own leaf");
        if self.0.len() == 1 { Ok(self.0.pop().unwrap()) } else { Err(self) }
    }
    fn min_val(&self) -> Ent<'_, K, V> { point("own leaf");
        let (k, v) = self.0.last().unwrap();
        (MaybeBorrowed::Borrowed(k), v)
    }
    fn min_val_mut(&mut self) -> EntM<'_, K, V> { point("own leaf");
        let (k, v) = self.0.last_mut().unwrap();
        (MaybeBorrowed::Borrowed(k), v)
    }
    fn max_val(&self) -> Ent<'_, K, V> { point("own leaf");
        let (k, v) = &self.0[0];
        (MaybeBorrowed::Borrowed(k), v)
    }
    fn max_val_mut(&mut self) -> EntM<'_, K, V> { point("own leaf");
        let (k, v) = &mut self.0[0];
        (MaybeBorrowed::Borrowed(k), v)
    }
    fn find<Q: Borrow<K>>(&self, k: Q) -> Option<Ent<'_, K, V>> { point("own leaf");
        let i = self.at(k.borrow()).ok()?;
        Some((MaybeBorrowed::Borrowed(&self.0[i].0), &self.0[i].1))
    }
    fn find_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<EntM<'_, K, V>> { point("own leaf");
        let i = self.at(k.borrow()).ok()?;
        let (k, v) = &mut self.0[i];
        Some((MaybeBorrowed::Borrowed(k), v))
    }
    fn predecessor<Q: Borrow<K>>(&self, k: Q) -> Option<Ent<'_, K, V>> { point("own leaf");
        let i = match self.at(k.borrow()) { Ok(i) => i + 1, Err(i) => i };
        self.0.get(i).map(|(k, v)| (MaybeBorrowed::Borrowed(k), v))
    }
    fn predecessor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<EntM<'_, K, V>> { point("own leaf");
        let i = match self.at(k.borrow()) { Ok(i) => i + 1, Err(i) => i };
        self.0.get_mut(i).map(|(k, v)| (MaybeBorrowed::Borrowed(&*k), v))
    }
    fn successor<Q: Borrow<K>>(&self, k: Q) -> Option<Ent<'_, K, V>> { point("own leaf");
        let i = match self.at(k.borrow()) { Ok(i) => i, Err(i) => i };
        self.0.get(i.checked_sub(1)?).map(|(k, v)| (MaybeBorrowed::Borrowed(k), v))
    }
    fn successor_mut<Q: Borrow<K>>(&mut self, k: Q) -> Option<EntM<'_, K, V>> { point("own leaf");
        let i = match self.at(k.borrow()) { Ok(i) => i, Err(i) => i };
        self.0.get_mut(i.checked_sub(1)?).map(|(k, v)| (MaybeBorrowed::Borrowed(&*k), v))
    }
    fn insert(&mut self, k: K, v: V) -> Option<(K, V)> { point("own leaf");
        match self.at(&k) {
            Ok(i) => Some(std::mem::replace(&mut self.0[i], (k, v))),
            Err(i) => {
                self.0.insert(i, (k, v));
                None
            }
        }
    }
    fn remove<Q: Borrow<K>>(self, k: Q) -> MaybeRemoveResult<Self> { point("own leaf");
        match self.at(k.borrow()) {
            Ok(i) => Ok(self.out(i)),
            Err(_) => Err(self),
        }
    }
    fn remove_min(self) -> RemoveResult<Self> { point("own leaf");
        let i = self.0.len() - 1;
        self.out(i)
    }
    fn remove_max(self) -> RemoveResult<Self> { point("own leaf");
        self.out(0)
    }
}

/// The slots of an array collection, of which only those ever written to exist.
pub struct OwnSlots<V>(Vec<(usize, Option<V>)>, Option<V>);
pub struct OwnSlotsM<M>(std::marker::PhantomData<M>);
impl<K: SizedVebKey, V, M: VebTreeMarker<K, V>> ArrayMarker<K, V> for OwnSlotsM<M> {
    type Array = OwnSlots<M::Tree>;
}
impl<V: VebTree, N: Unsigned> OptionArray<N> for OwnSlots<V> {
    type V = V;
    fn create() -> Self { point("own slots");
        OwnSlots(vec![], None)
    }
    fn get(&self, i: usize) -> &Option<V> { point("own slots");
        assert!(i < N::USIZE, "slot {i} of {}", N::USIZE);
        self.0.iter().find(|x| x.0 == i).map_or(&self.1, |x| &x.1)
    }
    fn get_mut(&mut self, i: usize) -> &mut Option<V> { point("own slots");
        assert!(i < N::USIZE, "slot {i} of {}", N::USIZE);
        let j = self.0.iter().position(|x| x.0 == i).unwrap_or_else(|| {
            self.0.push((i, None));
            self.0.len() - 1
        });
        &mut self.0[j].1
    }
}

/// An association list from high key to tree, newest first.
#[derive(Clone)]
pub struct AssocColl<H, T>(Vec<(H, T)>);
pub struct AssocM<M>(std::marker::PhantomData<M>);
impl<K: VebKey, V, M> VebTreeCollectionMarker<K, V> for AssocM<M>
where
    K::Hi: Clone,
    M: VebTreeMarker<K::Lo, V>,
    AssocColl<K::Hi, M::Tree>: SuperTreeCollection<K, V>,
{
    type TreeCollection = AssocColl<K::Hi, M::Tree>;
}
impl<H: Clone + PartialEq, T: VebTree> TreeCollection for AssocColl<H, T> {
    type Hi = H;
    type Tree = T;
    fn create(h: &H, t: T) -> Self { point("own collection");
        AssocColl(vec![(h.clone(), t)])
    }
    fn get(&self, h: &H) -> Option<&T> { point("own collection");
        self.0.iter().find(|(x, _)| x == h).map(|(_, t)| t)
    }
    fn get_mut(&mut self, h: &H) -> Option<&mut T> { point("own collection");
        self.0.iter_mut().find(|(x, _)| x == h).map(|(_, t)| t)
    }
    fn insert_key(&mut self, h: H, (l, v): CollectionKV<Self>) -> TreeInsertResult<Self> { point("own collection");
        match self.0.iter_mut().find(|(x, _)| *x == h) {
            Some((_, t)) => {
                let r = t.insert(l, v);
                Err((h, r))
            }
            None => {
                self.0.insert(0, (h.clone(), T::from_monad(l, v)));
                Ok(h)
            }
        }
    }
    fn remove_key<Q, R>(mut self, h: Q, r: R) -> TreeRemoveResult<Self>
    where
        Q: Borrow<H>,
        R: FnOnce(T) -> RemoveResult<T>,
    {
        point("own collection");
        let i = self.0.iter().position(|(x, _)| x == h.borrow()).expect("a tree under the key");
        let (hk, t) = self.0.remove(i);
        let (t, kv) = r(t);
        let gone = t.is_none();
        if let Some(t) = t {
            self.0.insert(i, (hk, t));
        }
        if self.0.is_empty() { (None, kv) } else { (Some((self, gone)), kv) }
    }
    fn maybe_remove_key<Q, R>(mut self, h: Q, r: R) -> TreeMaybeRemoveResult<Self>
    where
        Q: Borrow<H>,
        R: FnOnce(T) -> MaybeRemoveResult<T>,
    {
        point("own collection");
        let Some(i) = self.0.iter().position(|(x, _)| x == h.borrow()) else { return Err(self) };
        let (hk, t) = self.0.remove(i);
        match r(t) {
            Err(t) => {
                self.0.insert(i, (hk, t));
                Err(self)
            }
            Ok((t, kv)) => {
                let gone = t.is_none();
                if let Some(t) = t {
                    self.0.insert(i, (hk, t));
                }
                Ok(if self.0.is_empty() { (None, kv) } else { (Some((self, gone)), kv) })
            }
        }
    }
}

/// A plain vector as the list behind a byte map.
#[derive(Clone)]
pub struct VecTreeList<T>(Vec<T>);
pub struct VecListM;
impl<T: VebTree> TreeListMarker<T> for VecListM {
    type List = VecTreeList<T>;
}
impl<T: VebTree> TreeList for VecTreeList<T> {
    type Tree = T;
    fn from_monad(v: T) -> Self { point("own list"); VecTreeList(vec![v]) }
    fn len(&self) -> NonZeroUsize { point("own list"); NonZeroUsize::new(self.0.len()).unwrap() }
    fn get(&self, i: usize) -> &T { point("own list"); &self.0[i] }
    fn get_mut(&mut self, i: usize) -> &mut T { point("own list"); &mut self.0[i] }
    fn insert_tree(&mut self, i: usize, v: T) { point("own list"); self.0.insert(i, v) }
    fn remove_key<F: FnOnce(T) -> RemoveResult<T>>(mut self, i: usize, f: F) -> (Option<(Self, bool)>, (T::Key, T::Value)) { point("own list");
        let (t, kv) = f(self.0.remove(i));
        let gone = t.is_none();
        if let Some(t) = t { self.0.insert(i, t) }
        if self.0.is_empty() { (None, kv) } else { (Some((self, gone)), kv) }
    }
    fn maybe_remove_key<F: FnOnce(T) -> MaybeRemoveResult<T>>(mut self, i: usize, f: F) -> Result<(Option<(Self, bool)>, (T::Key, T::Value)), Self> { point("own list");
        match f(self.0.remove(i)) {
            Err(t) => {
                self.0.insert(i, t);
                Err(self)
            }
            Ok((t, kv)) => {
                let gone = t.is_none();
                if let Some(t) = t { self.0.insert(i, t) }
                Ok(if self.0.is_empty() { (None, kv) } else { (Some((self, gone)), kv) })
            }
        }
    }
}
#[derive(Clone)]
pub struct VecValList<V>(Vec<V>);
impl<V> ListMarker<V> for VecListM {
    type List = VecValList<V>;
}
impl<V> List for VecValList<V> {
    type Value = V;
    fn from_monad(v: V) -> Self { point("own list"); VecValList(vec![v]) }
    fn len(&self) -> usize { point("own list"); self.0.len() }
    fn get(&self, i: usize) -> &V { point("own list"); &self.0[i] }
    fn get_mut(&mut self, i: usize) -> &mut V { point("own list"); &mut self.0[i] }
    fn insert_value(&mut self, i: usize, v: V) { point("own list"); self.0.insert(i, v) }
    fn remove_value(mut self, i: usize) -> (Option<Self>, V) { point("own list");
        let v = self.0.remove(i);
        ((!self.0.is_empty()).then_some(self), v)
    }
}
