//! Configurations that hold tracked values under tracked, faulty keys.
use crate::cfg::*;
use crate::fault::*;
use crate::parts::*;
use crate::sys::*;
use crate::tree_config as c;
use std::collections::BTreeMap;
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::markers::*;
use veb_tree::tree::TreeMarker;
use veb_tree::SizedVebTree;

type T<K, V, M> = VebTreeType<K, V, M>;
type Arr<L> = ArrayTreeCollectionMarker<BoxMarker<L>>;
type Inl<L> = ArrayTreeCollectionMarker<GenericArrayMarker<L>>;
type ByteC<L> = ByteCollectionMarker<VecDequeMarker, L>;
type H<L> = HashMapMarker<L, FaultHash>;
type Ff<C> = TreeMarker<Bt, C>;
type Bf<C> = TreeMarker<ByteSetMarker, C>;

/// Keys whose parts are on record and can panic: at most 6, 9 or 12 bits.
pub fn faulty() -> Vec<Config> {
    let mut v = Vec::new();
    c!(v, "BTreeMap of Fk", BTreeMap<Fk, Trk>, Clo, 3, 0);
    c!(v, "FF/array(BTreeMap)", T<FF, Trk, Ff<Arr<Bt>>>, Plain, 6, 3);
    c!(v, "FF/inline(BTreeMap)", T<FF, Trk, Ff<Inl<Bt>>>, Plain, 6, 3);
    c!(v, "FF/hash(BTreeMap)", T<FF, Trk, Ff<H<Bt>>>, Clo, 6, 3);
    c!(v, "FF/hash(own leaf)", T<FF, Trk, TreeMarker<VecLeafM, H<VecLeafM>>>, Clo, 6, 3);
    c!(v, "[Fk;2]/array(BTreeMap)", T<[Fk; 2], Trk, Ff<Arr<Bt>>>, Plain, 6, 3);
    c!(v, "[Fk;2]/hash(BTreeMap)", T<[Fk; 2], Trk, Ff<H<Bt>>>, Clo, 6, 3);
    c!(v, "FF/box(hash(box))", T<FF, Trk, TreeMarker<BoxMarker<Bt>, Boxed<H<BoxMarker<Bt>>>>>, Plain, 6, 3);
    c!(v, "Sized<FF/hash>", SizedVebTree<T<FF, Trk, Ff<H<Bt>>>>, Counted, 6, 3, exact);
    c!(v, "Box<FF/hash(Sized)>", Box<T<FF, Trk, TreeMarker<SizedM<Bt>, H<SizedM<Bt>>>>>, Plain, 6, 3);
    c!(v, "BF/bytelist(BTreeMap)", T<BF, Trk, Bf<ByteC<Bt>>>, Plain, 6, 3);
    c!(v, "BF/hash(BTreeMap)", T<BF, Trk, Bf<H<Bt>>>, Clo, 6, 3);
    c!(v, "FB/hash(Marker8)", T<FB, Trk, Ff<H<Marker8>>>, Plain, 6, 3);
    c!(v, "BB/bytelist(Marker8)", T<BB, Trk, Bf<ByteC<Marker8>>>, Plain, 6, 3);
    c!(v, "BB/hash(Marker8)", T<BB, Trk, Bf<H<Marker8>>>, Plain, 6, 3);
    c!(v, "F(FF)/hash(array)", T<FdLo, Trk, Ff<H<Ff<Arr<Bt>>>>>, Plain, 9, 6);
    c!(v, "(FF)(FF)/array(array)", T<Fdd, Trk, TreeMarker<Ff<Arr<Bt>>, Arr<Ff<Arr<Bt>>>>>, Plain, 12, 6);
    c!(v, "F(FF)/hash(hash)", T<FdLo, Trk, Ff<H<Ff<H<Bt>>>>>, Clo, 9, 6);
    c!(v, "(FF)F/hash(BTreeMap)", T<FdHi, Trk, TreeMarker<Ff<H<Bt>>, H<Bt>>>, Clo, 9, 3);
    c!(v, "B(BF)/bytelist(bytelist)", T<BdLo, Trk, Bf<ByteC<Bf<ByteC<Bt>>>>>, Plain, 9, 6);
    c!(v, "[Fk;3]/hash(hash)", T<[Fk; 3], Trk, Ff<H<Ff<H<Bt>>>>>, Clo, 9, 6);
    c!(v, "F(F(FF))/hash(hash(array))", T<Fd4, Trk, Ff<H<Ff<H<Ff<Arr<Bt>>>>>>>, Plain, 12, 9);
    c!(v, "BF/own list(BTreeMap)", T<BF, Trk, Bf<ByteCollectionMarker<VecListM, Bt>>>, Plain, 6, 3);
    c!(v, "FF/own collection(own leaf)", T<FF, Trk, TreeMarker<VecLeafM, AssocM<VecLeafM>>>, Clo, 6, 3);
    c!(v, "Sized<BF/box(bytelist(Box))>", SizedVebTree<T<BF, Trk, TreeMarker<BoxMarker<ByteSetMarker>, Boxed<ByteC<BoxMarker<Bt>>>>>>, Counted, 6, 3, exact);
    v
}
/// The crate's own presets and parts with ordinary keys.
pub fn tracked() -> Vec<Config> {
    let mut v = Vec::new();
    c!(v, "u8/Marker8 of Trk", T<u8, Trk, Marker8>, Plain, 8, 0);
    c!(v, "u16/Marker16 of Trk", T<u16, Trk, Marker16>, Plain, 16, 8);
    c!(v, "i16/Marker16 of Trk", T<i16, Trk, Marker16>, Plain, 16, 8);
    c!(v, "u32/Marker32 of Trk", T<u32, Trk, Marker32>, Plain, 32, 16, heavy);
    c!(v, "u64/Marker64 of Trk", T<u64, Trk, Marker64>, Plain, 64, 32, heavy);
    c!(v, "u32/BTreeMap of Trk", BTreeMap<u32, Trk>, Clo, 32, 16);
    c!(v, "Sized<u16/Marker16> of Trk", SizedVebTree<T<u16, Trk, Marker16>>, Counted, 16, 8, exact);
    c!(v, "Box<u16/Marker16> of Trk", Box<T<u16, Trk, Marker16>>, Plain, 16, 8);
    c!(v, "u16/hash(Marker8) of Trk", T<u16, Trk, Bf<HashMapMarker<Marker8>>>, Plain, 16, 8);
    c!(v, "u16/hash(BTreeMap) of Trk", T<u16, Trk, Bf<HashMapMarker<Bt>>>, Clo, 16, 8);
    c!(v, "u16/consthash(Marker8) of Trk", T<u16, Trk, Bf<HashMapMarker<Marker8, ConstHash>>>, Plain, 16, 8);
    c!(v, "u16/bytelist(Marker8) of Trk", T<u16, Trk, Bf<ByteC<Marker8>>>, Plain, 16, 8);
    c!(v, "u16/inline(Marker8) of Trk", Box<T<u16, Trk, Bf<Inl<Marker8>>>>, Plain, 16, 8);
    c!(v, "u16/box(bytelist(Box)) of Trk", T<u16, Trk, TreeMarker<BoxMarker<ByteSetMarker>, Boxed<ByteC<BoxMarker<Marker8>>>>>, Plain, 16, 8);
    c!(v, "u16/box(array(Sized)) of Trk", T<u16, Trk, TreeMarker<SizedM<ByteSetMarker>, Boxed<Arr<SizedM<Marker8>>>>>, Plain, 16, 8);
    c!(v, "u32/hash(bytelist) of Trk", T<u32, Trk, TreeMarker<Bf<HashMapMarker<ByteSetMarker>>, HashMapMarker<Bf<ByteC<Marker8>>>>>, Plain, 32, 16);
    c!(v, "[u8;3]/bytelist(hash) of Trk", T<[u8; 3], Trk, Bf<ByteC<Bf<HashMapMarker<Marker8>>>>>, Plain, 24, 16);
    v
}
