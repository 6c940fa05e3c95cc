use mc::engine::*;
use mc::fail;
use mc::keys::*;
use std::fmt::Debug;
use veb_tree::key::{MaybeBorrowed, VebKey, VebKeyRef, U2, U4};

type Hi<K> = <K as VebKey>::Hi;
type Lo<K> = <K as VebKey>::Lo;
trait Full: VebKey + KeyCode + Debug + VebKeyRef<Hi<Self>, Lo<Self>> {}
impl<K: VebKey + KeyCode + Debug + VebKeyRef<Hi<K>, Lo<K>>> Full for K {}

/// Everything that concerns one key.
#[inline]
fn one<K: Full>(k: &K, lobits: u32) -> Result<(Hi<K>, Lo<K>), Fail>
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    let (h, l) = k.clone().split_val();
    // the only order-preserving split onto all pairs
    let c = k.enc();
    let (ch, cl) = if lobits >= 128 { (0, c) } else { (c >> lobits, c & ((1u128 << lobits) - 1)) };
    if h.enc() != ch || l.enc() != cl {
        fail!("{k:?} (number {c:#x} in order) splits into {h:?}, {l:?} (numbers {:#x}, {:#x}); by order they are {ch:#x}, {cl:#x}", h.enc(), l.enc());
    }
    let (r, hr, lr) = k.split_ref(|a, b| (*a == h && *b == l, a.clone(), b.clone()));
    if !r {
        fail!("{k:?} splits by value into {h:?}, {l:?} and by reference into {hr:?}, {lr:?}");
    }
    Ok((h, l))
}
#[inline]
fn join4<K: Full>(h: &Hi<K>, l: &Lo<K>, each: impl Fn(K, &str) -> Res) -> Res
where
    Hi<K>: KeyCode,
    Lo<K>: KeyCode,
{
    use MaybeBorrowed::*;
    each(K::join(Owned(h.clone()), Owned(l.clone())), "owned, owned")?;
    each(K::join(Borrowed(h), Borrowed(l)), "borrowed, borrowed")?;
    each(K::join(Borrowed(h), Owned(l.clone())), "borrowed, owned")?;
    each(K::join(Owned(h.clone()), Borrowed(l)), "owned, borrowed")
}
/// One key, its parts and their joins.
#[inline]
fn round<K: Full>(k: &K, lobits: u32) -> Res
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    let (h, l) = one(k, lobits)?;
    join4::<K>(&h, &l, |j, how| {
        if j != *k {
            fail!("{k:?} splits into {h:?}, {l:?}, which join ({how}) to {j:?}");
        }
        Ok(())
    })
}
/// Every part of a pair comes back from the join.
#[inline]
fn parts<K: Full>(h: Hi<K>, l: Lo<K>) -> Res
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    join4::<K>(&h, &l, |j, how| {
        let (a, b) = j.clone().split_val();
        if a != h || b != l {
            fail!("{h:?}, {l:?} join ({how}) to {j:?}, which splits into {a:?}, {b:?}");
        }
        Ok(())
    })
}
#[inline]
fn pair<K: Full>(a: &K, b: &K) -> Res
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    let (x, y) = (a.clone().split_val(), b.clone().split_val());
    let (c, d) = (a.cmp(b), x.cmp(&y));
    if c != d || c != a.enc().cmp(&b.enc()) {
        fail!("{a:?} compares {c:?} to {b:?}, but its parts {x:?} compare {d:?} to {y:?}");
    }
    let (e, f) = (a == b, x == y);
    if e != f {
        fail!("{a:?} == {b:?}: {e}, but {x:?} == {y:?}: {f}");
    }
    Ok(())
}

fn bits_mask(bits: u32) -> u128 {
    if bits >= 128 { u128::MAX } else { (1 << bits) - 1 }
}
/// Every key of a type, by itself and against the next one (which, orders being transitive, is against all).
fn domain<K: Full + 'static>(name: &str, bits: u32, lobits: u32) -> Phase
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    let blk = bits.min(16);
    let n = 1u64 << (bits - blk);
    Phase::new(format!("all 2^{bits} keys of {name}, each also against its successor"), n, 4, move |i, cx| {
        let base = (i as u128) << blk;
        for j in 0..1u128 << blk {
            let c = base | j;
            let k = K::dec(c);
            round(&k, lobits)?;
            if c < bits_mask(bits) {
                pair(&k, &K::dec(c + 1))?;
            }
        }
        cx.transitions += 1 << blk;
        cx.traces += 1 << blk;
        cx.cases += 1 << blk;
        if cx.want_sample {
            let k = K::dec(base | 5 & bits_mask(bits));
            cx.sample = Some(format!("{k:?} -> {:?}", k.clone().split_val()));
            cx.want_sample = false;
        }
        cx.tick();
        Ok(())
    })
}
/// Every pair of keys of a type.
fn pairs<K: Full + 'static>(name: &str, bits: u32) -> Phase
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    Phase::new(format!("all 2^{} pairs of keys of {name}", 2 * bits), 1 << bits, 64, move |i, cx| {
        let a = K::dec(i as u128);
        for j in 0..1u64 << bits {
            pair(&a, &K::dec(j as u128))?;
        }
        cx.transitions += 1 << bits;
        cx.traces += 1;
        cx.cases += 1 << bits;
        if cx.want_sample {
            cx.sample = Some(format!("{a:?} against every key"));
            cx.want_sample = false;
        }
        cx.tick();
        Ok(())
    })
}
/// Every pair of parts.
fn all_parts<K: Full + 'static>(name: &str, hbits: u32, lbits: u32) -> Phase
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    Phase::new(format!("all 2^{} pairs of parts of {name}, joined", hbits + lbits), 1 << hbits, 64, move |i, cx| {
        for j in 0..1u64 << lbits {
            parts::<K>(KeyCode::dec(i as u128), KeyCode::dec(j as u128))?;
        }
        cx.transitions += 4 << lbits;
        cx.traces += 1 << lbits;
        cx.cases += 1 << lbits;
        if cx.want_sample {
            cx.sample = Some(format!("{:?} with every low part", <Hi<K> as KeyCode>::dec(i as u128)));
            cx.want_sample = false;
        }
        cx.tick();
        Ok(())
    })
}
/// Keys made of digits of a small alphabet: each by itself, with its neighbours, its one-bit and its
/// one-digit variations.
fn digits<K: Full + 'static>(name: &str, bits: u32, lobits: u32, digit: u32, syms: Vec<u128>) -> Phase
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    let nd = bits / digit;
    let m = bits_mask(bits);
    let n = (syms.len() as u64).pow(nd);
    Phase::new(format!("keys of {name} whose {nd} digits are of {syms:x?}, with neighbours and one-bit and one-digit variations"), n, 256, move |i, cx| {
        let mut c = 0u128;
        let mut x = i;
        for d in 0..nd {
            c |= syms[(x % syms.len() as u64) as usize] << (d * digit);
            x /= syms.len() as u64;
        }
        let k = K::dec(c);
        round(&k, lobits)?;
        let (h, l) = k.clone().split_val();
        parts::<K>(h, l)?;
        pair(&k, &k)?;
        let mut t = |o: u128| -> Res {
            let o = K::dec(o & m);
            round(&o, lobits)?;
            pair(&k, &o)?;
            pair(&o, &k)
        };
        t(c.wrapping_add(1))?;
        t(c.wrapping_sub(1))?;
        t(!c)?;
        for b in 0..bits {
            t(c ^ 1 << b)?;
        }
        for d in 0..nd {
            t(c ^ (bits_mask(digit) << (d * digit)))?;
        }
        // swapped and repeated halves
        t(c << lobits | c >> (bits - lobits).min(127))?;
        cx.transitions += 8 + 2 * (bits + nd) as u64;
        cx.traces += 1;
        cx.cases += 1;
        if cx.want_sample {
            cx.sample = Some(format!("{k:?} -> {:?}", k.clone().split_val()));
            cx.want_sample = false;
        }
        if i & 255 == 0 {
            cx.tick();
        }
        Ok(())
    })
}
/// A whole 16-bit window of the key at every byte position, in every filling.
fn windows<K: Full + 'static>(name: &str, bits: u32, lobits: u32, step: u32) -> Phase
where
    Hi<K>: KeyCode + Debug,
    Lo<K>: KeyCode + Debug,
{
    let m = bits_mask(bits);
    let fills: Vec<u128> = [0, u128::MAX, 0x5555_5555_5555_5555_5555_5555_5555_5555, 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff >> (128 - bits), 1 << (bits - 1), 0x0123_4567_89ab_cdef_fedc_ba98_7654_3210].iter().map(|f| f & m).collect();
    let pos = (bits - 16) / step + 1;
    let nf = fills.len() as u64;
    Phase::new(format!("all 16-bit windows at each {step}-bit position of {name}, in {nf} fillings"), pos as u64 * nf, 1, move |i, cx| {
        let (p, f) = ((i / nf) as u32 * step, fills[(i % nf) as usize]);
        let mut prev = None;
        for w in 0..1u128 << 16 {
            let c = f & !(0xffff << p) & m | w << p;
            let k = K::dec(c);
            round(&k, lobits)?;
            if let Some(p) = &prev {
                pair(p, &k)?;
                pair(&k, p)?;
            }
            prev = Some(k);
        }
        cx.transitions += 65536;
        cx.traces += 1;
        cx.cases += 65536;
        cx.tick();
        if cx.want_sample {
            cx.sample = Some(format!("{prev:?}"));
            cx.want_sample = false;
        }
        Ok(())
    })
}
/// Arrays of strings (their parts are clones, not copies).
fn strings<const N: usize>(lo: usize) -> Phase
where
    [String; N]: Full,
    Hi<[String; N]>: KeyCode + Debug,
    Lo<[String; N]>: KeyCode + Debug,
{
    let n = 1u64 << N;
    Phase::new(format!("arrays of {N} strings, two per place, all pairs or one-place variations"), n, 16, move |i, cx| {
        let mk = |m: u64| -> [String; N] { std::array::from_fn(|p| format!("{:03}", p * 7 + ((m >> (N - 1 - p)) & 1) as usize)) };
        let k = mk(i);
        let (h, l) = k.clone().split_val();
        let same = k.split_ref(|a, b| *a == h && *b == l);
        if !same {
            fail!("{k:?} splits differently by reference and by value ({h:?}, {l:?})");
        }
        join4::<[String; N]>(&h, &l, |j, how| {
            if j != k {
                fail!("{k:?} splits into {h:?}, {l:?}, which join ({how}) to {j:?}");
            }
            Ok(())
        })?;
        if N <= 8 {
            for j in 0..n {
                pair2(&k, &mk(j))?;
                cx.transitions += 1;
            }
        } else {
            for p in 0..N {
                pair2(&k, &mk(i ^ 1 << p))?;
                cx.transitions += 1;
            }
        }
        let _ = lo;
        cx.transitions += 5;
        cx.traces += 1;
        cx.cases += 1;
        cx.tick();
        if cx.want_sample {
            cx.sample = Some(format!("{k:?} -> {h:?}, {l:?}"));
            cx.want_sample = false;
        }
        Ok(())
    })
}
fn pair2<K: Full>(a: &K, b: &K) -> Res
where
    Hi<K>: Debug,
    Lo<K>: Debug,
{
    let (x, y) = (a.clone().split_val(), b.clone().split_val());
    if a.cmp(b) != x.cmp(&y) {
        fail!("{a:?} compares {:?} to {b:?}, but {x:?} compares {:?} to {y:?}", a.cmp(b), x.cmp(&y));
    }
    Ok(())
}

fn phases(t: Tier) -> Vec<Phase> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    macro_rules! small { ($t:ty, $n:expr, $bits:expr, $lo:expr) => {
        v.push(domain::<$t>($n, $bits, $lo));
        v.push(all_parts::<$t>($n, $bits - $lo, $lo));
        if $bits <= 8 || !q { v.push(pairs::<$t>($n, $bits)); }
    } }
    small!((), "()", 0, 0);
    small!(U2, "U2", 2, 1);
    small!(U4, "U4", 4, 2);
    small!(u8, "u8", 8, 4);
    small!(i8, "i8", 8, 4);
    small!(u16, "u16", 16, 8);
    small!(i16, "i16", 16, 8);
    if q {
        v.push(pairs::<i16>("i16", 16));
    }
    v.push(domain::<u32>("u32", 32, 16));
    v.push(domain::<i32>("i32", 32, 16));
    if !q {
        v.push(all_parts::<u32>("u32", 16, 16));
        v.push(all_parts::<i32>("i32", 16, 16));
    }
    let five: Vec<u128> = vec![0, 1, 0x7f, 0x80, 0xff];
    let nib: Vec<u128> = vec![0, 1, 7, 8, 15];
    v.push(digits::<u32>("u32", 32, 16, 4, nib.clone()));
    v.push(digits::<i32>("i32", 32, 16, 4, nib.clone()));
    v.push(digits::<u64>("u64", 64, 32, 8, five.clone()));
    v.push(digits::<i64>("i64", 64, 32, 8, five.clone()));
    v.push(digits::<u64>("u64", 64, 32, 16, vec![0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff]));
    v.push(digits::<i64>("i64", 64, 32, 16, vec![0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff]));
    v.push(digits::<u128>("u128", 128, 64, 8, if q { vec![0, 0xff] } else { vec![0, 0x80, 0xff] }));
    v.push(digits::<i128>("i128", 128, 64, 8, if q { vec![0, 0xff] } else { vec![0, 0x80, 0xff] }));
    v.push(digits::<u128>("u128", 128, 64, 16, if q { vec![0, 1, 0x8000, 0xffff] } else { vec![0, 1, 0x7fff, 0x8000, 0xfffe, 0xffff] }));
    v.push(digits::<i128>("i128", 128, 64, 16, if q { vec![0, 1, 0x8000, 0xffff] } else { vec![0, 1, 0x7fff, 0x8000, 0xfffe, 0xffff] }));
    v.push(digits::<u128>("u128", 128, 64, 32, vec![0, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 0x1_0000, 0xffff, 0x1234_5678]));
    v.push(digits::<i128>("i128", 128, 64, 32, vec![0, 1, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff, 0x1_0000, 0xffff, 0x1234_5678]));
    let st = if q { 8 } else { 1 };
    v.push(windows::<u64>("u64", 64, 32, st));
    v.push(windows::<i64>("i64", 64, 32, st));
    v.push(windows::<u128>("u128", 128, 64, st));
    v.push(windows::<i128>("i128", 128, 64, st));
    // arrays: every key of one-bit places, and bytes of a small alphabet
    macro_rules! arr { ($len:literal, $lo:literal) => {
        v.push(domain::<[bool; $len]>(concat!("[bool; ", $len, "]"), $len, $lo));
        v.push(all_parts::<[bool; $len]>(concat!("[bool; ", $len, "]"), $len - $lo, $lo));
        if $len <= 8 || !q { v.push(pairs::<[bool; $len]>(concat!("[bool; ", $len, "]"), $len)); }
        if $len <= 8 {
            v.push(domain::<[U2; $len]>(concat!("[U2; ", $len, "]"), 2 * $len, 2 * $lo));
            v.push(all_parts::<[U2; $len]>(concat!("[U2; ", $len, "]"), 2 * ($len - $lo), 2 * $lo));
        }
        let few: Vec<u128> = if $len <= 5 || !q && $len <= 8 { five.clone() } else if $len <= 8 { vec![0, 0x80, 0xff] } else if q { vec![0, 0xff] } else { vec![0, 0x80, 0xff] };
        v.push(digits::<[u8; $len]>(concat!("[u8; ", $len, "]"), 8 * $len, 8 * $lo, 8, few.clone()));
        v.push(digits::<[i8; $len]>(concat!("[i8; ", $len, "]"), 8 * $len, 8 * $lo, 8, few));
        v.push(strings::<$len>($lo));
    } }
    arr!(2, 1);
    arr!(3, 2);
    arr!(4, 2);
    arr!(5, 3);
    arr!(6, 3);
    arr!(7, 4);
    arr!(8, 4);
    arr!(16, 8);
    v.push(domain::<[u8; 2]>("[u8; 2]", 16, 8));
    v.push(domain::<[i8; 2]>("[i8; 2]", 16, 8));
    v.push(domain::<[u8; 3]>("[u8; 3]", 24, 16));
    v.push(domain::<[U4; 4]>("[U4; 4]", 16, 8));
    v.push(domain::<[U4; 5]>("[U4; 5]", 20, 12));
    v.push(domain::<[U4; 6]>("[U4; 6]", 24, 12));
    if !q {
        v.push(domain::<[u16; 2]>("[u16; 2]", 32, 16));
        v.push(domain::<[u8; 4]>("[u8; 4]", 32, 16));
        v.push(domain::<[U4; 7]>("[U4; 7]", 28, 16));
        v.push(domain::<[U4; 8]>("[U4; 8]", 32, 16));
        v.push(domain::<[U2; 16]>("[U2; 16]", 32, 16));
    }
    // arrays of wide elements, down to single words
    v.push(digits::<[u32; 2]>("[u32; 2]", 64, 32, 16, vec![0, 1, 0x7fff, 0x8000, 0xffff]));
    v.push(digits::<[i16; 4]>("[i16; 4]", 64, 32, 8, five.clone()));
    v.push(digits::<[u16; 8]>("[u16; 8]", 128, 64, 16, vec![0, 1, 0x8000, 0xffff]));
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C07",
        level: "exploration",
        rule: "Exhaustive enumeration: every key of every type up to 32 bits and every key of the small arrays, every pair of keys of the 8-bit types and of i16 (and u16 in the thorough tier), every pair of parts of the types up to 16 (32 in the thorough tier) bits; for 64- and 128-bit keys and longer arrays every product of digits of a boundary alphabet with all one-bit and one-digit variations and neighbours, and every 16-bit window at every position. Judged: the parts are those the order dictates, by value and by reference; they join (owned and borrowed) to the key; pairs of keys compare as pairs of parts. A case is non-trivial if it is a distinct key, or a distinct pair of keys or of parts; the keys and pairs of one phase are distinct by construction and counted.",
        assumptions: &["64- and 128-bit keys and arrays of eight and more bytes: only the boundary products and windows listed are enumerated", "arrays: element types bool, U2, U4, u8, i8, u16, i16, u32, String"],
        compare_builds: false,
        phases,
    })
}
