//! Every tree configuration the explorer drives.
pub use crate::cfg::*;
use crate::tree_config as c;
use crate::keys::*;
use crate::parts::*;
use crate::sys::*;
use std::collections::BTreeMap;
use veb_tree::bitset::*;
use veb_tree::collection::array::*;
use veb_tree::collection::hash::HashMapMarker;
use veb_tree::key::{U2, U4};
use veb_tree::markers::*;
use veb_tree::tree::TreeMarker;
use veb_tree::SizedVebTree;

type H16<L> = TreeMarker<ByteSetMarker, HashMapMarker<L>>;
type H16c<L> = TreeMarker<ByteSetMarker, HashMapMarker<L, ConstHash>>;
type H16p<L> = TreeMarker<ByteSetMarker, HashMapMarker<L, ParityHash>>;
type T<K, V, M> = VebTreeType<K, V, M>;
type Arr<L> = ArrayTreeCollectionMarker<BoxMarker<L>>;
type Inl<L> = ArrayTreeCollectionMarker<GenericArrayMarker<L>>;
type ByteC<L> = ByteCollectionMarker<VecDequeMarker, L>;
// cheap 32-bit tree: hash children at both levels
type H32 = TreeMarker<H16<ByteSetMarker>, HashMapMarker<H16<Marker8>>>;

pub fn presets() -> Vec<Config> {
    let mut v = Vec::new();
    c!(v, "u8/Marker8", T<u8, u32, Marker8>, Plain, 8, 0, core);
    c!(v, "u8/Marker8Empty", T<u8, (), Marker8Empty>, Clo, 8, 0, core);
    c!(v, "u16/Marker16", T<u16, u32, Marker16>, Plain, 16, 8, core);
    c!(v, "u16/Marker16Empty", T<u16, (), Marker16Empty>, Plain, 16, 8, core);
    c!(v, "i16/Marker16", T<i16, u32, Marker16>, Plain, 16, 8, core);
    c!(v, "[u8;2]/Marker16", T<[u8; 2], u32, Marker16>, Plain, 16, 8, core);
    c!(v, "u32/Marker32", T<u32, u32, Marker32>, Plain, 32, 16, core, heavy);
    c!(v, "u32/Marker32Empty", T<u32, (), Marker32Empty>, Plain, 32, 16, core, heavy);
    c!(v, "i32/Marker32", T<i32, u32, Marker32>, Plain, 32, 16, core, heavy);
    c!(v, "u64/Marker64", T<u64, u32, Marker64>, Plain, 64, 32, core, heavy);
    c!(v, "u64/Marker64Empty", T<u64, (), Marker64Empty>, Plain, 64, 32, core, heavy);
    c!(v, "i64/Marker64", T<i64, u32, Marker64>, Plain, 64, 32, core, heavy);
    c!(v, "u32/BTreeMap", BTreeMap<u32, u32>, Clo, 32, 16, core);
    v
}

pub fn wrappers() -> Vec<Config> {
    let mut v = Vec::new();
    c!(v, "Sized<u16/Marker16>", SizedVebTree<T<u16, u32, Marker16>>, Counted, 16, 8, core, exact);
    c!(v, "Sized<u16/Marker16Empty>", SizedVebTree<T<u16, (), Marker16Empty>>, Counted, 16, 8, core, exact);
    c!(v, "Box<u16/Marker16>", Box<T<u16, u32, Marker16>>, Plain, 16, 8, core);
    c!(v, "Sized<Box<u16/Marker16>>", SizedVebTree<Box<T<u16, u32, Marker16>>>, Counted, 16, 8, core, exact);
    c!(v, "Box<Sized<u16/Marker16>>", Box<SizedVebTree<T<u16, u32, Marker16>>>, BoxCounted, 16, 8, core, exact);
    c!(v, "Sized<u8/Marker8>", SizedVebTree<T<u8, u32, Marker8>>, Counted, 8, 0, core, exact);
    c!(v, "Sized<u8/Marker8Empty>", SizedVebTree<T<u8, (), Marker8Empty>>, Counted, 8, 0, core, exact);
    c!(v, "Sized<u32/BTreeMap>", SizedVebTree<BTreeMap<u32, u32>>, Counted, 32, 16, core, exact);
    c!(v, "Sized<u32/Marker32>", SizedVebTree<T<u32, u32, Marker32>>, Counted, 32, 16, core, exact, heavy);
    // whole trees of the caller's, with bounds of their own making
    c!(v, "u8/own tree", VecLeaf<u8, u32>, Clo, 8, 0, core);
    c!(v, "Box<u8/own tree>", Box<VecLeaf<u8, u32>>, Clo, 8, 0, core);
    c!(v, "Sized<Box<u8/own tree>>", SizedVebTree<Box<VecLeaf<u8, u32>>>, Counted, 8, 0, core, exact);
    c!(v, "Box<u8/Marker8>", Box<T<u8, u32, Marker8>>, Plain, 8, 0, core);
    v
}

pub fn composed() -> Vec<Config> {
    let mut v = Vec::new();
    c!(v, "u16/hash(Marker8)", T<u16, u32, H16<Marker8>>, Plain, 16, 8);
    c!(v, "u16/hash(Marker8Empty)", T<u16, (), H16<ByteSetMarker>>, Clo, 16, 8);
    c!(v, "u16/hash(BTreeMap)", T<u16, u32, H16<Bt>>, Clo, 16, 8);
    c!(v, "u16/consthash(Marker8)", T<u16, u32, H16c<Marker8>>, Plain, 16, 8);
    c!(v, "u16/parityhash(BTreeMap)", T<u16, u32, H16p<Bt>>, Clo, 16, 8);
    c!(v, "u16/bytelist(Marker8)", T<u16, u32, TreeMarker<ByteSetMarker, ByteC<Marker8>>>, Plain, 16, 8);
    c!(v, "i16/bytelist(Marker8Empty)", T<i16, (), TreeMarker<ByteSetMarker, ByteC<ByteSetMarker>>>, Plain, 16, 8);
    c!(v, "u16/inline(Marker8)", Box<T<u16, u32, TreeMarker<ByteSetMarker, Inl<Marker8>>>>, Plain, 16, 8);
    c!(v, "u16/inline(Marker8Empty)", Box<T<u16, (), TreeMarker<ByteSetMarker, Inl<ByteSetMarker>>>>, Plain, 16, 8);
    c!(v, "u16/box(array(Marker8))", T<u16, u32, TreeMarker<ByteSetMarker, Boxed<Arr<Marker8>>>>, Plain, 16, 8);
    c!(v, "u16/box(hash(Sized(Marker8)))", T<u16, u32, TreeMarker<SizedM<ByteSetMarker>, Boxed<HashMapMarker<SizedM<Marker8>>>>>, Plain, 16, 8);
    c!(v, "u16/box(bytelist(Box))", T<u16, u32, TreeMarker<BoxMarker<ByteSetMarker>, Boxed<ByteC<BoxMarker<Marker8>>>>>, Plain, 16, 8);
    c!(v, "u8/array16(BTreeMap)", T<u8, u32, TreeMarker<Bt, Arr<Bt>>>, Plain, 8, 4);
    c!(v, "i8/array16(BTreeMap)", T<i8, u32, TreeMarker<Bt, Arr<Bt>>>, Plain, 8, 4);
    c!(v, "i8/inline16(BTreeMap)", T<i8, u32, TreeMarker<Bt, Inl<Bt>>>, Plain, 8, 4);
    c!(v, "u8/U4/U2/bool", T<u8, u32, TreeMarker<
        TreeMarker<TreeMarker<Bt, HashMapMarker<Bt>>, HashMapMarker<TreeMarker<Bt, HashMapMarker<Bt>>>>,
        Arr<TreeMarker<TreeMarker<Bt, HashMapMarker<Bt>>, Arr<TreeMarker<Bt, HashMapMarker<Bt>>>>>>>, Plain, 8, 4);
    c!(v, "U4/array4(BTreeMap)", T<U4, u32, TreeMarker<Bt, Arr<Bt>>>, Plain, 4, 2);
    c!(v, "U2/hash(BTreeMap)", T<U2, u32, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 2, 1);
    c!(v, "()/hash(BTreeMap)", T<(), u32, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 0, 0);
    c!(v, "()/array1(BTreeMap)", T<(), u32, TreeMarker<Bt, Arr<Bt>>>, Plain, 0, 0);
    c!(v, "[i8;2]/array256(BTreeMap)", T<[i8; 2], u32, TreeMarker<Bt, Arr<Bt>>>, Plain, 16, 8);
    c!(v, "[i8;2]/inline256(tree)", Box<T<[i8; 2], u32, TreeMarker<TreeMarker<Bt, Arr<Bt>>, Inl<TreeMarker<Bt, Arr<Bt>>>>>>, Plain, 16, 8);
    c!(v, "[i16;2]/array65536(BTreeMap)", T<[i16; 2], u32, TreeMarker<Bt, Arr<Bt>>>, Plain, 32, 16, heavy);
    c!(v, "u32/hash(hash)", T<u32, u32, H32>, Plain, 32, 16);
    c!(v, "i32/hash(hash)", T<i32, u32, H32>, Plain, 32, 16);
    c!(v, "u32/hash(hash(BTreeMap)) clone", T<u32, u32, TreeMarker<H16<ByteSetMarker>, HashMapMarker<H16<Bt>>>>, Clo, 32, 16);
    c!(v, "u64/hash(hash(hash))", T<u64, u32, TreeMarker<TreeMarker<H16<ByteSetMarker>, HashMapMarker<H16<ByteSetMarker>>>, HashMapMarker<H32>>>, Plain, 64, 32);
    c!(v, "i64/hash(BTreeMap)", T<i64, u32, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 64, 32);
    c!(v, "u128/hash(u64 hash)", T<u128, u32, TreeMarker<TreeMarker<Bt, HashMapMarker<Bt>>, HashMapMarker<TreeMarker<TreeMarker<H16<ByteSetMarker>, HashMapMarker<H16<ByteSetMarker>>>, HashMapMarker<H32>>>>>, Plain, 128, 64);
    c!(v, "i128/hash(BTreeMap)", T<i128, u32, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 128, 64);
    c!(v, "[u8;3]/bytelist(hash)", T<[u8; 3], u32, TreeMarker<ByteSetMarker, ByteC<H16<Marker8>>>>, Plain, 24, 16);
    c!(v, "[u8;4]/hash(Marker16)", T<[u8; 4], u32, TreeMarker<Marker16Empty, HashMapMarker<Marker16>>>, Plain, 32, 16);
    c!(v, "[u8;5]/hash", T<[u8; 5], u32, TreeMarker<H16<ByteSetMarker>, HashMapMarker<TreeMarker<ByteSetMarker, ByteC<H16<Marker8>>>>>>, Plain, 40, 24);
    c!(v, "[u8;6]/hash(BTreeMap)", T<[u8; 6], u32, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 48, 24);
    c!(v, "[u8;7]/hash(BTreeMap)", T<[u8; 7], u32, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 56, 32);
    c!(v, "[u8;8]/hash(BTreeMap)", T<[u8; 8], u32, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 64, 32);
    c!(v, "[u8;16]/hash([u8;8]/hash)", T<[u8; 16], u32, TreeMarker<Bt, HashMapMarker<TreeMarker<Bt, HashMapMarker<Bt>>>>>, Clo, 128, 64);
    c!(v, "[u16;2]/hash(Marker16)", T<[u16; 2], u32, TreeMarker<Marker16Empty, HashMapMarker<Marker16>>>, Plain, 32, 16);
    c!(v, "[String;2]/hash(BTreeMap)", T<[String; 2], String, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 16, 8);
    c!(v, "[String;3]/hash(tree)", T<[String; 3], Box<u64>, TreeMarker<Bt, HashMapMarker<TreeMarker<Bt, HashMapMarker<Bt>>>>>, Clo, 24, 16);
    c!(v, "u16/own leaf, collection", T<u16, u32, TreeMarker<VecLeafM, AssocM<VecLeafM>>>, Clo, 16, 8);
    c!(v, "i32/own collection(own list)", T<i32, u32, TreeMarker<H16<ByteSetMarker>, AssocM<TreeMarker<ByteSetMarker, ByteCollectionMarker<VecListM, VecLeafM>>>>>, Plain, 32, 16);
    c!(v, "u8/array16(own leaf)", T<u8, u32, TreeMarker<VecLeafM, Arr<VecLeafM>>>, Plain, 8, 4);
    c!(v, "u16/own slots(own leaf)", T<u16, u32, TreeMarker<VecLeafM, ArrayTreeCollectionMarker<OwnSlotsM<VecLeafM>>>>, Plain, 16, 8);
    c!(v, "[i32;2]/own slots(own leaf)", T<[i32; 2], u32, TreeMarker<Bt, ArrayTreeCollectionMarker<OwnSlotsM<VecLeafM>>>>, Plain, 64, 32);
    c!(v, "u16/box(bytelist(own leaf))", SizedVebTree<T<u16, u32, TreeMarker<VecLeafM, Boxed<ByteC<VecLeafM>>>>>, Counted, 16, 8, exact);
    c!(v, "u16/Marker16 of Box<u64>", T<u16, Box<u64>, Marker16>, Plain, 16, 8);
    v
}

/// Custom splits of a 4-bit (or smaller) key universe: the whole universe can be explored.
pub fn splits() -> Vec<Config> {
    let mut v = Vec::new();
    c!(v, "4=0|4 hash(Marker8)", T<Sp<4, 0>, u32, H16<Marker8>>, Plain, 4, 4);
    c!(v, "4=1|3 hash(Marker8)", T<Sp<4, 1>, u32, H16<Marker8>>, Plain, 4, 3);
    c!(v, "4=2|2 hash(Marker8)", T<Sp<4, 2>, u32, H16<Marker8>>, Plain, 4, 2);
    c!(v, "4=3|1 hash(Marker8)", T<Sp<4, 3>, u32, H16<Marker8>>, Plain, 4, 1);
    c!(v, "4=4|0 hash(Marker8)", T<Sp<4, 4>, u32, H16<Marker8>>, Plain, 4, 0);
    c!(v, "4=2|2 bytelist(Marker8)", T<Sp<4, 2>, u32, TreeMarker<ByteSetMarker, ByteC<Marker8>>>, Plain, 4, 2);
    c!(v, "4=2|2 array(Marker8)", T<Sp<4, 2>, u32, TreeMarker<ByteSetMarker, Arr<Marker8>>>, Plain, 4, 2);
    c!(v, "4=2|2 BTreeMap parts", T<Sp<4, 2>, u32, TreeMarker<Bt, HashMapMarker<Bt>>>, Clo, 4, 2);
    c!(v, "4=2|2 own leaf, collection", T<Sp<4, 2>, u32, TreeMarker<VecLeafM, AssocM<VecLeafM>>>, Clo, 4, 2);
    c!(v, "4=3|1 own list", T<Sp<4, 3>, u32, TreeMarker<VecLeafM, ByteCollectionMarker<VecListM, VecLeafM>>>, Plain, 4, 1);
    c!(v, "4=1|3 own collection", T<Sp<4, 1>, u32, TreeMarker<VecLeafM, AssocM<Marker8>>>, Plain, 4, 3);
    c!(v, "4=1|(1|(1|1)) own leaf, collection", T<NeDeep, u32, TreeMarker<VecLeafM, AssocM<TreeMarker<VecLeafM, AssocM<TreeMarker<VecLeafM, AssocM<VecLeafM>>>>>>>, Clo, 4, 3);
    c!(v, "4=4|() hash(BTreeMap)", T<UnitLo, u32, TreeMarker<ByteSetMarker, HashMapMarker<Bt>>>, Clo, 4, 0);
    c!(v, "4=4|() bytelist(own leaf)", T<UnitLo, u32, TreeMarker<ByteSetMarker, ByteC<VecLeafM>>>, Plain, 4, 0);
    c!(v, "4=()|4 hash(Marker8)", T<UnitHi, u32, TreeMarker<Bt, HashMapMarker<Marker8>>>, Plain, 4, 4);
    c!(v, "4=()|4 own collection", T<UnitHi, u32, TreeMarker<VecLeafM, AssocM<Bt>>>, Clo, 4, 4);
    c!(v, "4=(4|())|()", T<UnitDeep, u32, TreeMarker<TreeMarker<ByteSetMarker, HashMapMarker<Bt>>, HashMapMarker<Bt>>>, Plain, 4, 0);
    c!(v, "4=3|bool hash(BTreeMap)", T<BoolLo, u32, TreeMarker<ByteSetMarker, HashMapMarker<Bt>>>, Clo, 4, 1);
    c!(v, "4=bool|3 hash(Marker8)", T<BoolHi, u32, TreeMarker<Bt, HashMapMarker<Marker8>>>, Plain, 4, 3);
    c!(v, "4=1|(2|1)", T<NeLo, u32, TreeMarker<ByteSetMarker, ByteC<TreeMarker<ByteSetMarker, ByteC<Marker8>>>>>, Plain, 4, 3);
    c!(v, "4=(1|2)|1", T<NeHi, u32, TreeMarker<TreeMarker<ByteSetMarker, ByteC<ByteSetMarker>>, HashMapMarker<Marker8>>>, Plain, 4, 1);
    c!(v, "4=1|(1|(1|1))", T<NeDeep, u32, TreeMarker<ByteSetMarker, ByteC<TreeMarker<ByteSetMarker, HashMapMarker<TreeMarker<ByteSetMarker, ByteC<Marker8>>>>>>>, Plain, 4, 3);
    c!(v, "4=(1|1)|(1|1)", T<NeBoth, u32, TreeMarker<TreeMarker<ByteSetMarker, ByteC<ByteSetMarker>>, HashMapMarker<TreeMarker<ByteSetMarker, HashMapMarker<Marker8>>>>>, Plain, 4, 2);
    c!(v, "6=(2|1)|(1|2)", T<Ne6, u32, TreeMarker<TreeMarker<ByteSetMarker, HashMapMarker<ByteSetMarker>>, HashMapMarker<TreeMarker<ByteSetMarker, ByteC<Marker8>>>>>, Plain, 6, 3);
    v
}

pub fn all() -> Vec<Config> {
    let mut v = presets();
    v.extend(wrappers());
    v.extend(composed());
    v.extend(splits());
    v
}

pub fn by_name(n: &str) -> Option<Config> {
    all().into_iter().find(|c| c.name == n)
}

