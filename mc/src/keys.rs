//! Keys used by the explorer and their order-preserving encoding as integers 0..2^bits.
use veb_tree::key::{MaybeBorrowed, VebKey, VebKeyRef, U2, U4};

pub trait KeyCode: Clone + Ord {
    fn enc(&self) -> u128;
    fn dec(c: u128) -> Self;
}

macro_rules! unsigned { ($($t:ty),*) => {$(
    impl KeyCode for $t {
        #[inline] fn enc(&self) -> u128 { *self as u128 }
        #[inline] fn dec(c: u128) -> Self { c as $t }
    }
)*}}
unsigned!(u8, u16, u32, u64, u128);
macro_rules! signed { ($($t:ty, $u:ty);*) => {$(
    impl KeyCode for $t {
        // flip the sign bit: order-preserving, and independent of how the crate does it
        #[inline] fn enc(&self) -> u128 { ((*self as $u) ^ (1 as $u).rotate_right(1)) as u128 }
        #[inline] fn dec(c: u128) -> Self { ((c as $u) ^ (1 as $u).rotate_right(1)) as $t }
    }
)*}}
signed!(i8, u8; i16, u16; i32, u32; i64, u64; i128, u128);

impl KeyCode for U4 {
    fn enc(&self) -> u128 { u8::from(*self) as u128 }
    fn dec(c: u128) -> Self { U4::from(c as u8) }
}
impl KeyCode for U2 {
    fn enc(&self) -> u128 { u8::from(U4::from(*self)) as u128 }
    fn dec(c: u128) -> Self { U2::from(c as u8) }
}
impl KeyCode for bool {
    fn enc(&self) -> u128 { *self as u128 }
    fn dec(c: u128) -> Self { c != 0 }
}
impl KeyCode for () {
    fn enc(&self) -> u128 { 0 }
    fn dec(_: u128) -> Self {}
}

pub trait Elem: Clone + Ord {
    const BITS: u32;
    fn e(&self) -> u128;
    fn d(c: u128) -> Self;
}
macro_rules! elem { ($($t:ty, $b:expr);*) => {$(
    impl Elem for $t {
        const BITS: u32 = $b;
        #[inline] fn e(&self) -> u128 { self.enc() }
        #[inline] fn d(c: u128) -> Self { <$t as KeyCode>::dec(c) }
    }
)*}}
elem!(u8, 8; u16, 16; i8, 8; i16, 16; u32, 32; i32, 32; u64, 64; i64, 64; bool, 1; U2, 2; U4, 4);
impl Elem for String {
    const BITS: u32 = 8;
    fn e(&self) -> u128 { self.parse::<u128>().unwrap() }
    fn d(c: u128) -> Self { format!("{:03}", c & 255) }
}
impl KeyCode for String {
    fn enc(&self) -> u128 { self.e() }
    fn dec(c: u128) -> Self { Self::d(c) }
}
impl<T: Elem, const N: usize> KeyCode for [T; N] {
    fn enc(&self) -> u128 {
        let mut r = 0u128;
        for x in self { r = (r << T::BITS) | x.e(); }
        r
    }
    fn dec(c: u128) -> Self {
        std::array::from_fn(|i| {
            let sh = T::BITS * (N - 1 - i) as u32;
            T::d((c >> sh) & ((1u128 << T::BITS) - 1))
        })
    }
}

/// A small custom key: `B` bits of which the upper `H` form the high half (both halves are bytes).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Sp<const B: u32, const H: u32>(pub u8);
impl<const B: u32, const H: u32> Sp<B, H> {
    const LO: u32 = B - H;
}
impl<const B: u32, const H: u32> VebKey for Sp<B, H> {
    type Hi = u8;
    type Lo = u8;
    fn split_val(self) -> (u8, u8) {
        (self.0 >> Self::LO, self.0 & ((1u16 << Self::LO) - 1) as u8)
    }
    fn join<'a>(hi: MaybeBorrowed<'a, u8>, lo: MaybeBorrowed<'a, u8>) -> Self {
        Sp((((*hi) as u16) << Self::LO) as u8 | *lo)
    }
}
impl<const B: u32, const H: u32> VebKeyRef<u8, u8> for Sp<B, H> {
    fn split_ref<F, R>(&self, f: F) -> R
    where
        F: FnOnce(&u8, &u8) -> R,
    {
        let (h, l) = self.split_val();
        f(&h, &l)
    }
}
impl<const B: u32, const H: u32> KeyCode for Sp<B, H> {
    fn enc(&self) -> u128 { self.0 as u128 }
    fn dec(c: u128) -> Self { Sp(c as u8) }
}

/// Nested custom keys: high half a byte and low half itself splittable, and the converse.
macro_rules! nested { ($name:ident, $hi:ty, $lo:ty, $bits:expr, $lobits:expr) => {
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct $name(pub u8);
    impl VebKey for $name {
        type Hi = $hi;
        type Lo = $lo;
        fn split_val(self) -> ($hi, $lo) {
            (<$hi as KeyCode>::dec((self.0 >> $lobits) as u128), <$lo as KeyCode>::dec((self.0 & ((1u16 << $lobits) - 1) as u8) as u128))
        }
        fn join<'a>(hi: MaybeBorrowed<'a, $hi>, lo: MaybeBorrowed<'a, $lo>) -> Self {
            $name(((hi.enc() as u8) << $lobits) | lo.enc() as u8)
        }
    }
    impl VebKeyRef<$hi, $lo> for $name {
        fn split_ref<F, R>(&self, f: F) -> R where F: FnOnce(&$hi, &$lo) -> R {
            let (h, l) = self.split_val();
            f(&h, &l)
        }
    }
    impl KeyCode for $name {
        fn enc(&self) -> u128 { self.0 as u128 }
        fn dec(c: u128) -> Self { $name(c as u8) }
    }
}}
// 4 bits = 1 | (2|1),   4 bits = (1|2) | 1,   4 bits = 1 | (1 | (1|1))
nested!(NeLo, u8, Sp<3, 2>, 4, 3);
nested!(NeHi, Sp<3, 1>, u8, 4, 1);
nested!(Ne3, u8, Sp<2, 1>, 3, 2);
nested!(NeDeep, u8, Ne3, 4, 3);
// parts that are no bytes: nothing below, nothing above, one bit
nested!(UnitLo, u8, (), 4, 0);
nested!(UnitHi, (), u8, 4, 4);
nested!(BoolLo, u8, bool, 4, 1);
nested!(BoolHi, bool, u8, 4, 3);
// a key of units only below its first byte
nested!(UnitDeep, UnitLo, (), 4, 0);
// both halves splittable: 4 bits = (1|1) | (1|1)
nested!(NeBoth, Sp<2, 1>, Sp<2, 1>, 4, 2);
// 6 bits = (2|1) | (1|2)
nested!(Ne6, Sp<3, 2>, Sp<3, 1>, 6, 3);
