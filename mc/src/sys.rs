//! Object-safe facade over any VebTree: keys as integer codes, values as u32 stamps.
use crate::keys::KeyCode;
use std::marker::PhantomData;
use veb_tree::{key::MaybeBorrowed, Iter, SizedVebTree, VebTree};

pub type KV = (u128, u32);

pub trait Val {
    const VALUED: bool = true;
    fn mk(s: u32) -> Self;
    fn get(&self) -> u32;
    fn set(&mut self, s: u32);
}
impl Val for u32 {
    fn mk(s: u32) -> Self { s }
    fn get(&self) -> u32 { *self }
    fn set(&mut self, s: u32) { *self = s }
}
impl Val for () {
    const VALUED: bool = false;
    fn mk(_: u32) -> Self {}
    fn get(&self) -> u32 { 0 }
    fn set(&mut self, _: u32) {}
}
impl Val for Box<u64> {
    fn mk(s: u32) -> Self { Box::new(s as u64) }
    fn get(&self) -> u32 { **self as u32 }
    fn set(&mut self, s: u32) { **self = s as u64 }
}
impl Val for String {
    fn mk(s: u32) -> Self { s.to_string() }
    fn get(&self) -> u32 { self.parse().unwrap() }
    fn set(&mut self, s: u32) { *self = s.to_string() }
}

/// What only some of the types can do.
pub trait Ext<T: VebTree> {
    const CLONES: bool = false;
    fn exact(_: &T) -> Option<usize> { None }
    fn iter_len(_: &Iter<'_, T>) -> Option<usize> { None }
    fn dup(_: &T) -> Option<T> { None }
    fn assign(_: &mut T, _: &T) -> bool { false }
}
pub struct Plain;
impl<T: VebTree> Ext<T> for Plain {}
pub struct Counted;
impl<V: VebTree> Ext<SizedVebTree<V>> for Counted
where
    V::Key: Clone,
{
    fn exact(t: &SizedVebTree<V>) -> Option<usize> { Some(t.len().get()) }
    fn iter_len(it: &Iter<'_, SizedVebTree<V>>) -> Option<usize> { Some(ExactSizeIterator::len(it)) }
}
pub struct BoxCounted;
impl<V: VebTree> Ext<Box<SizedVebTree<V>>> for BoxCounted {
    fn exact(t: &Box<SizedVebTree<V>>) -> Option<usize> { Some(t.len().get()) }
}
pub struct Clo;
impl<T: VebTree + Clone> Ext<T> for Clo {
    const CLONES: bool = true;
    fn dup(t: &T) -> Option<T> { Some(t.clone()) }
    fn assign(d: &mut T, s: &T) -> bool {
        d.clone_from(s);
        true
    }
}

/// The other ways to take from an iterator.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Take {
    Count,
    Last,
    Nth(usize),
    NthBack(usize),
    Fold,
    Rfold,
    Collect,
    CollectRev,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IterStep {
    pub item: Option<KV>,
    pub hint: (usize, Option<usize>),
    pub len: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Q {
    Find,
    Pred,
    Succ,
    Min,
    Max,
}
pub const QS: [Q; 5] = [Q::Find, Q::Pred, Q::Succ, Q::Min, Q::Max];

/// A tree that may be empty (`None`). Every method that needs a tree returns None/Err on empty.
pub trait Sys {
    fn is_empty(&self) -> bool;
    fn insert(&mut self, k: u128, v: u32) -> Option<KV>;
    fn remove(&mut self, k: u128) -> Result<KV, ()>;
    fn remove_min(&mut self) -> Option<KV>;
    fn remove_max(&mut self) -> Option<KV>;
    /// Ok(kv): dismantled, now empty. Err: handed back.
    fn into_monad(&mut self) -> Result<KV, ()>;
    fn query(&self, q: Q, k: u128) -> Option<KV>;
    fn query_mut(&mut self, q: Q, k: u128, write: Option<u32>) -> Option<KV>;
    fn is_monad(&self) -> bool;
    fn len_hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> Option<usize>;
    /// Runs the directions (true = back); out[0] is the state before the first step (item None).
    fn iter_script(&self, dirs: &mut dyn Iterator<Item = bool>, out: &mut Vec<IterStep>);
    /// A complete forward (or backward) pass, at most `cap` items.
    fn iter_all(&self, back: bool, cap: usize, out: &mut Vec<KV>);
    /// Steps in the directions of the bits of `word` (true = back), then one other way of taking entries;
    /// what it gave, and for nth whatever a forward pass still yields afterwards. Returns count() for Count.
    fn iter_take(&self, word: u32, len: u32, t: Take, cap: usize, out: &mut Vec<KV>) -> Option<usize>;
    fn dup(&self) -> Option<Box<dyn Sys>>;
    /// clone_from: false when the type cannot, or when either side is empty
    fn assign(&mut self, src: &dyn Sys) -> bool;
    fn any(&self) -> &dyn std::any::Any;
    fn clear(&mut self);
}

pub struct SysImpl<T, X> {
    t: Option<T>,
    _x: PhantomData<X>,
}
impl<T, X> SysImpl<T, X> {
    pub fn new() -> Self {
        SysImpl { t: None, _x: PhantomData }
    }
}

#[inline]
fn kv<K: KeyCode, V: Val>((k, v): (K, V)) -> KV {
    (k.enc(), v.get())
}
#[inline]
fn mkv<K: KeyCode, V: Val>((k, v): (MaybeBorrowed<'_, K>, &V)) -> KV {
    let c = (*k).enc();
    debug_assert!(c == k.clone().into_or_clone().enc());
    (c, v.get())
}

impl<T, X> Sys for SysImpl<T, X>
where
    T: VebTree + 'static,
    T::Key: KeyCode,
    T::Value: Val,
    X: Ext<T> + 'static,
{
    fn is_empty(&self) -> bool {
        self.t.is_none()
    }
    fn insert(&mut self, k: u128, v: u32) -> Option<KV> {
        let (k, v) = (T::Key::dec(k), T::Value::mk(v));
        match &mut self.t {
            None => {
                self.t = Some(T::from_monad(k, v));
                None
            }
            Some(t) => t.insert(k, v).map(kv),
        }
    }
    fn remove(&mut self, k: u128) -> Result<KV, ()> {
        let t = self.t.take().ok_or(())?;
        let k = T::Key::dec(k);
        match t.remove(&k) {
            Ok((t, r)) => {
                self.t = t;
                Ok(kv(r))
            }
            Err(t) => {
                self.t = Some(t);
                Err(())
            }
        }
    }
    fn remove_min(&mut self) -> Option<KV> {
        let (t, r) = self.t.take()?.remove_min();
        self.t = t;
        Some(kv(r))
    }
    fn remove_max(&mut self) -> Option<KV> {
        let (t, r) = self.t.take()?.remove_max();
        self.t = t;
        Some(kv(r))
    }
    fn into_monad(&mut self) -> Result<KV, ()> {
        match self.t.take().ok_or(())?.into_monad() {
            Ok(r) => Ok(kv(r)),
            Err(t) => {
                self.t = Some(t);
                Err(())
            }
        }
    }
    fn query(&self, q: Q, k: u128) -> Option<KV> {
        let t = self.t.as_ref()?;
        match q {
            Q::Find => t.find(&T::Key::dec(k)).map(mkv),
            Q::Pred => t.predecessor(T::Key::dec(k)).map(mkv),
            Q::Succ => t.successor(MaybeBorrowed::Owned(T::Key::dec(k))).map(mkv),
            Q::Min => Some(mkv(t.min_val())),
            Q::Max => Some(mkv(t.max_val())),
        }
    }
    fn query_mut(&mut self, q: Q, k: u128, write: Option<u32>) -> Option<KV> {
        let t = self.t.as_mut()?;
        let (k, v) = match q {
            Q::Find => t.find_mut(T::Key::dec(k))?,
            Q::Pred => t.predecessor_mut(&T::Key::dec(k))?,
            Q::Succ => t.successor_mut(&T::Key::dec(k))?,
            Q::Min => t.min_val_mut(),
            Q::Max => t.max_val_mut(),
        };
        let r = ((*k).enc(), v.get());
        if let Some(w) = write {
            v.set(w);
        }
        Some(r)
    }
    fn is_monad(&self) -> bool {
        self.t.as_ref().is_some_and(|t| t.is_monad())
    }
    fn len_hint(&self) -> (usize, Option<usize>) {
        self.t.as_ref().map_or((0, Some(0)), |t| t.len_hint())
    }
    fn exact(&self) -> Option<usize> {
        self.t.as_ref().and_then(|t| X::exact(t))
    }
    fn iter_script(&self, dirs: &mut dyn Iterator<Item = bool>, out: &mut Vec<IterStep>) {
        out.clear();
        let Some(t) = self.t.as_ref() else { return };
        let mut it = Iter::from(t);
        out.push(IterStep { item: None, hint: it.size_hint(), len: X::iter_len(&it) });
        for back in dirs {
            let item = if back { it.next_back() } else { it.next() };
            let item = item.map(mkv);
            out.push(IterStep { item, hint: it.size_hint(), len: X::iter_len(&it) });
        }
    }
    fn iter_all(&self, back: bool, cap: usize, out: &mut Vec<KV>) {
        out.clear();
        let Some(t) = self.t.as_ref() else { return };
        let it = Iter::from(t);
        if back {
            out.extend(it.rev().take(cap).map(mkv));
        } else {
            out.extend(it.take(cap).map(mkv));
        }
    }
    fn iter_take(&self, word: u32, len: u32, t: Take, cap: usize, out: &mut Vec<KV>) -> Option<usize> {
        out.clear();
        let tree = self.t.as_ref()?;
        let mut it = Iter::from(tree);
        for i in 0..len {
            if word >> i & 1 == 1 { it.next_back() } else { it.next() };
        }
        match t {
            Take::Count => return Some(it.count()),
            Take::Last => out.extend(it.last().map(mkv)),
            Take::Nth(n) => {
                out.extend(it.nth(n).map(mkv));
                out.extend(it.take(cap).map(mkv));
            }
            Take::NthBack(n) => {
                out.extend(it.nth_back(n).map(mkv));
                out.extend(it.take(cap).map(mkv));
            }
            Take::Fold => it.fold((), |_, x| out.push(mkv(x))),
            Take::Rfold => it.rfold((), |_, x| out.push(mkv(x))),
            Take::Collect => *out = it.map(mkv).collect(),
            Take::CollectRev => *out = it.rev().map(mkv).collect(),
        }
        None
    }
    fn assign(&mut self, src: &dyn Sys) -> bool {
        let (Some(d), Some(s)) = (&mut self.t, src.any().downcast_ref::<Self>()) else { return false };
        s.t.as_ref().is_some_and(|s| X::assign(d, s))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn dup(&self) -> Option<Box<dyn Sys>> {
        match &self.t {
            None => Some(Box::new(SysImpl::<T, X>::new())),
            Some(t) => {
                let t = X::dup(t)?;
                Some(Box::new(SysImpl::<T, X> { t: Some(t), _x: PhantomData }))
            }
        }
    }
    fn clear(&mut self) {
        self.t = None;
    }
}
