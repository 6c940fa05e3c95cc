use mc::engine::*;
use mc::fail;
use mc::keys::*;
use std::any::TypeId;
use std::collections::BTreeMap;
use std::fmt::Debug;
use typenum::{Shleft, Unsigned, U0, U1, U16, U2 as N2, U32, U4 as N4, U64, U8};
use veb_tree::collection::array::ArrayTreeCollection;
use veb_tree::collection::TreeCollection;
use veb_tree::key::{SizedVebKey, U2, U4};
use veb_tree::VebTree;

trait Dense: SizedVebKey + KeyCode + Debug + 'static {}
impl<K: SizedVebKey + KeyCode + Debug + 'static> Dense for K {}

/// `N`: the number of keys as a type-level number.
fn count<K: Dense, N: 'static>(name: &'static str, bits: u32) -> Phase {
    Phase::new(format!("declared number of keys of {name}"), 1, 1, move |_, cx| {
        let n = 1u128 << bits;
        if TypeId::of::<K::Cardinality>() != TypeId::of::<N>() {
            fail!("{name} has {n} keys, its type-level cardinality is another (as a machine integer {})", <K::Cardinality as Unsigned>::USIZE);
        }
        let want = usize::try_from(n).unwrap_or(usize::MAX);
        if K::CARDINALITY != want {
            fail!("{name} has {n} keys, its CARDINALITY is {}", K::CARDINALITY);
        }
        if n <= usize::MAX as u128 && <K::Cardinality as Unsigned>::USIZE != K::CARDINALITY {
            fail!("{name}: arrays of {} for {} keys", <K::Cardinality as Unsigned>::USIZE, K::CARDINALITY);
        }
        cx.transitions += 3;
        cx.traces += 1;
        cx.cases += 1;
        Ok(())
    })
}
#[inline]
fn check<K: Dense>(c: u128, n: u128, prev: &mut Option<(u128, usize)>) -> Res {
    let k = K::dec(c);
    let i = k.index();
    if i as u128 >= n {
        fail!("{k:?} has index {i}, there are {n} keys");
    }
    if k.index() != i {
        fail!("{k:?} has index {i}, then {}", k.index());
    }
    if let Some((p, j)) = prev {
        if *j >= i {
            fail!("{:?} has index {j} and the greater key {k:?} has index {i}", K::dec(*p));
        }
    }
    *prev = Some((c, i));
    Ok(())
}
/// Every key: in range, and above the index of the key before (distinct and monotone by induction).
fn domain<K: Dense>(name: &'static str, bits: u32) -> Phase {
    let blk = bits.min(16);
    Phase::new(format!("index of all 2^{bits} keys of {name}"), 1 << (bits - blk), 16, move |i, cx| {
        let base = (i as u128) << blk;
        let mut prev = None;
        if i > 0 {
            check::<K>(base - 1, 1 << bits, &mut prev)?;
        }
        for j in 0..1u128 << blk {
            check::<K>(base | j, 1 << bits, &mut prev)?;
        }
        cx.transitions += 1 << blk;
        cx.cases += 1 << blk;
        cx.traces += 1;
        if cx.want_sample {
            let k = K::dec(base);
            cx.sample = Some(format!("{k:?} -> {}", k.index()));
            cx.want_sample = false;
        }
        cx.tick();
        Ok(())
    })
}
/// A boundary alphabet per digit, ascending, each with its neighbours.
fn products<K: Dense>(name: &'static str, bits: u32, digit: u32, syms: Vec<u128>) -> Phase {
    let nd = bits / digit;
    let s = syms.len() as u64;
    Phase::new(format!("index of the keys of {name} whose {digit}-bit digits are of {syms:x?}, their neighbours and one-bit variations"), s.pow(nd - 1), 16, move |i, cx| {
        let n = 1u128 << bits;
        let mut hi = 0u128;
        let mut x = i;
        for d in 1..nd {
            hi |= syms[(x % s) as usize] << (d * digit);
            x /= s;
        }
        for l in &syms {
            let c = hi | l;
            let mut near: Vec<u128> = (0..bits).map(|b| c ^ 1 << b).chain([c, c.wrapping_sub(1), c + 1, n - 1 - c]).map(|c| c & (n - 1)).collect();
            near.sort();
            near.dedup();
            cx.transitions += near.len() as u64;
            let mut prev = None;
            for c in near {
                check::<K>(c, n, &mut prev)?;
            }
            cx.cases += 1;
        }
        cx.traces += 1;
        if cx.want_sample {
            let k = K::dec(hi);
            cx.sample = Some(format!("{k:?} -> {}", k.index()));
            cx.want_sample = false;
        }
        cx.tick();
        Ok(())
    })
}
fn windows<K: Dense>(name: &'static str, bits: u32) -> Phase {
    let m = (1u128 << bits) - 1;
    let fills: Vec<u128> = [0, u128::MAX, 0x5555_5555_5555_5555, m >> 1, (m >> 1) + 1, 0x0123_4567_89ab_cdef].iter().map(|f| f & m).collect();
    let nf = fills.len() as u64;
    Phase::new(format!("index of all 16-bit windows at each bit position of {name}, in {nf} fillings"), (bits as u64 - 15) * nf, 1, move |i, cx| {
        let (p, f) = ((i / nf) as u32, fills[(i % nf) as usize]);
        let mut prev = None;
        for w in 0..1u128 << 16 {
            check::<K>(f & !(0xffff << p) & m | w << p, m + 1, &mut prev)?;
        }
        cx.transitions += 65536;
        cx.cases += 65536;
        cx.traces += 1;
        cx.tick();
        Ok(())
    })
}
type Leaf = BTreeMap<u8, u32>;
/// An array holding every key of the type at once.
fn array<K: Dense + Ord + Clone>(name: &'static str, bits: u32) -> Phase
where
    ArrayTreeCollection<K, Box<[Option<Leaf>]>>: TreeCollection<Hi = K, Tree = Leaf>,
{
    Phase::new(format!("arrays holding every key of {name}, filled in 3 orders and emptied in 2"), 6, 1, move |w, cx| {
        let n = 1u64 << bits;
        let ord: Vec<u128> = (0..n)
            .map(|i| match w % 3 {
                0 => i,
                1 => n - 1 - i,
                _ if bits == 0 => 0,
                _ => i.reverse_bits() >> (64 - bits),
            } as u128)
            .collect();
        let leaf = |c: u128| Leaf::from_monad(1, c as u32 + 7);
        let mut a = ArrayTreeCollection::<K, Box<[Option<Leaf>]>>::create(&K::dec(ord[0]), leaf(ord[0]));
        for &c in &ord[1..] {
            let k = K::dec(c);
            if a.get(&k).is_some() {
                fail!("{k:?} is there before it was put in");
            }
            let r = a.insert_key(k.clone(), (1, c as u32 + 7));
            if matches!(r, Err((_, Some(_)))) {
                fail!("putting in {k:?} replaced another entry");
            }
        }
        for c in 0..n as u128 {
            let k = K::dec(c);
            let got = a.get(&k).map(|t| (t.len(), t.values().next().copied()));
            if got != Some((1, Some(c as u32 + 7))) {
                fail!("{k:?} holds {got:?} in a full array, not its own {}", c + 7);
            }
        }
        cx.transitions += 3 * n;
        cx.cases += n;
        cx.traces += 1;
        // and out again
        let mut a = Some(a);
        for j in 0..n as usize {
            let c = ord[if w < 3 { j } else { n as usize - 1 - j }];
            let k = K::dec(c);
            let (rest, (key, val)) = a.take().unwrap().remove_key(k.clone(), |t| t.remove_min());
            if key != 1 || val != c as u32 + 7 {
                fail!("taking out {k:?} gave {key} -> {val}, not its own {}", c + 7);
            }
            let Some((rest, _)) = rest else { break };
            if rest.get(&k).is_some() {
                fail!("{k:?} is still there after it was taken out");
            }
            a = Some(rest);
            cx.transitions += 1;
        }
        if cx.want_sample {
            cx.sample = Some(format!("{name}: order {w}, first {:?}", K::dec(ord[0])));
            cx.want_sample = false;
        }
        cx.tick();
        Ok(())
    })
}
fn phases(t: Tier) -> Vec<Phase> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    macro_rules! full { ($t:ty, $n:expr, $b:expr, $u:ty) => { v.push(count::<$t, Shleft<U1, $u>>($n, $b)); v.push(domain::<$t>($n, $b)); } }
    full!((), "()", 0, U0);
    full!(U2, "U2", 2, N2);
    full!(U4, "U4", 4, N4);
    full!(u8, "u8", 8, U8);
    full!(i8, "i8", 8, U8);
    full!(u16, "u16", 16, U16);
    full!(i16, "i16", 16, U16);
    full!(u32, "u32", 32, U32);
    full!(i32, "i32", 32, U32);
    v.push(count::<u64, Shleft<U1, U64>>("u64", 64));
    v.push(count::<i64, Shleft<U1, U64>>("i64", 64));
    let five = if q { vec![0, 1, 0x7f, 0x80, 0xff] } else { vec![0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff] };
    v.push(products::<u64>("u64", 64, 8, five.clone()));
    v.push(products::<i64>("i64", 64, 8, five));
    v.push(windows::<u64>("u64", 64));
    v.push(windows::<i64>("i64", 64));
    v.push(array::<()>("()", 0));
    v.push(array::<U2>("U2", 2));
    v.push(array::<U4>("U4", 4));
    v.push(array::<u8>("u8", 8));
    v.push(array::<i8>("i8", 8));
    v.push(array::<u16>("u16", 16));
    v.push(array::<i16>("i16", 16));
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C08",
        level: "exploration",
        rule: "Exhaustive enumeration: the index of every key of every indexable type up to 32 bits, in ascending order (each in range and above the one before, hence distinct and monotone); for 64-bit keys every product of bytes of a boundary alphabet with neighbours and one-bit variations, and every 16-bit window at every position; the declared cardinalities of every type; and arrays holding every key of the types up to 16 bits at once. A case is non-trivial if it is a distinct key of its phase; they are distinct by construction and counted.",
        assumptions: &["64-bit pointers (128-bit keys are not indexable here)", "64-bit keys: only the products and windows listed are enumerated"],
        compare_builds: false,
        phases,
    })
}
