use mc::engine::*;
use mc::fail;
use std::borrow::Borrow;
use std::collections::HashSet;
use std::fmt::Debug;
use veb_tree::key::{MaybeBorrowed, VebKey, U2, U4};
use MaybeBorrowed::*;

fn v4(x: U4) -> u8 {
    u8::from(x)
}
/// A U2 shows its value by widening, and bit by bit.
fn v2(x: U2) -> Result<u8, Fail> {
    let w = u8::from(U4::from(x));
    let (h, l) = x.split_val();
    let b = (h as u8) << 1 | l as u8;
    if w != b || bool::from(x) != (w & 1 == 1) || w > 3 {
        fail!("{x:?}: widened {w}, by its halves {b}, low bit {}", bool::from(x));
    }
    Ok(w)
}
fn same<T: PartialEq + Ord + Debug + std::hash::Hash + Copy>(a: T, b: T, want: bool) -> Res {
    let h = |x: T| {
        let mut f = Fx::default();
        x.hash(&mut f);
        std::hash::Hasher::finish(&f)
    };
    if (a == b) != want || (a.cmp(&b) == std::cmp::Ordering::Equal) != want || want && h(a) != h(b) {
        fail!("{a:?} and {b:?}: equal {}, compare {:?}, hashes equal {}", a == b, a.cmp(&b), h(a) == h(b));
    }
    let c = a;
    #[allow(clippy::clone_on_copy)]
    let d = a.clone();
    if c != a || d != a {
        fail!("a copy of {a:?} is {c:?}, a clone {d:?}");
    }
    Ok(())
}
/// Closure of the small types under everything public, against integers modulo the width.
fn closure() -> Phase {
    Phase::new("every U2 and U4 reachable by conversions and operators, every operator on all of them and all pairs, shifts by 0 to 7", 1, 1, |_, cx| {
        let mut u4: Vec<U4> = vec![];
        let mut u2: Vec<U2> = vec![];
        for b in 0..=255u8 {
            let x = U4::from(b);
            if v4(x) != b & 15 {
                fail!("U4::from({b}) is {}", v4(x));
            }
            let y = U2::from(b);
            if v2(y)? != b & 3 {
                fail!("U2::from({b}) is {}", v2(y)?);
            }
            let (h, l) = b.split_val();
            let (ih, il) = (b as i8).split_val();
            if (v4(h), v4(l)) != (b >> 4, b & 15) || (v4(ih), v4(il)) != ((b ^ 0x80) >> 4, b & 15) {
                fail!("{b} splits into {h:?}, {l:?}, and {} into {ih:?}, {il:?}", b as i8);
            }
            u4.extend([x, h, l, ih, il]);
            u2.push(y);
            cx.transitions += 4;
        }
        for x in u4.clone() {
            let (h, l) = x.split_val();
            if (v2(h)?, v2(l)?) != (v4(x) >> 2, v4(x) & 3) {
                fail!("{x:?} splits into {h:?}, {l:?}");
            }
            u2.extend([h, l]);
        }
        let (mut seen4, mut seen2) = (HashSet::new(), HashSet::new());
        // worklist over the values as they print: distinct representations stay distinct
        let mut w4 = u4;
        let mut w2 = u2;
        loop {
            let mut n4 = vec![];
            let mut n2 = vec![];
            for x in w4.drain(..) {
                if seen4.insert(format!("{x:?}")) {
                    n4.push(x);
                }
            }
            for x in w2.drain(..) {
                if seen2.insert(format!("{x:?}")) {
                    n2.push(x);
                }
            }
            if n4.is_empty() && n2.is_empty() {
                break;
            }
            if seen4.len() > 16 || seen2.len() > 4 {
                fail!("{} U4 values {seen4:?} and {} U2 values {seen2:?} are reachable", seen4.len(), seen2.len());
            }
            for &x in &n4 {
                let n = v4(x);
                let lo = U2::from(x);
                if v2(lo)? != n & 3 {
                    fail!("U2::from({x:?}) is {lo:?}");
                }
                w2.push(lo);
                for s in 0..8usize {
                    let (l, r) = (x << s, x >> s);
                    if v4(l) != ((n as u32) << s) as u8 & 15 || v4(r) != n >> s {
                        fail!("{x:?} << {s} is {l:?}, >> {s} is {r:?}");
                    }
                    w4.extend([l, r]);
                    cx.transitions += 2;
                }
                for m in 0..16u8 {
                    let y = U4::from(m);
                    let o = x | y;
                    if v4(o) != n | m || v4(y | x) != n | m {
                        fail!("{x:?} | {y:?} is {o:?}, the other way round {:?}", y | x);
                    }
                    w4.push(o);
                    same(x, y, n == m)?;
                    if x.cmp(&y) != n.cmp(&m) || x.partial_cmp(&y) != Some(n.cmp(&m)) {
                        fail!("{x:?} compares {:?} to {y:?}", x.cmp(&y));
                    }
                    let k = <u8 as VebKey>::join(x.into(), y.into());
                    if k != n << 4 | m {
                        fail!("{x:?}, {y:?} join to {k}");
                    }
                    cx.transitions += 4;
                    cx.cases += 1;
                }
            }
            for &x in &n2 {
                let n = v2(x)?;
                let up = U4::from(x);
                if v4(up) != n || v2(U2::from(up))? != n {
                    fail!("{x:?} widens to {up:?} and back to {:?}", U2::from(up));
                }
                w4.push(up);
                for s in 0..8usize {
                    let (l, r) = (x << s, x >> s);
                    if v2(l)? != ((n as u32) << s) as u8 & 3 || v2(r)? != n >> s {
                        fail!("{x:?} << {s} is {l:?}, >> {s} is {r:?}");
                    }
                    w2.extend([l, r]);
                    cx.transitions += 2;
                }
                for m in 0..4u8 {
                    let y = U2::from(m);
                    let o = x | y;
                    if v2(o)? != n | m || v2(y | x)? != n | m {
                        fail!("{x:?} | {y:?} is {o:?}");
                    }
                    w2.push(o);
                    same(x, y, n == m)?;
                    if x.cmp(&y) != n.cmp(&m) || x.partial_cmp(&y) != Some(n.cmp(&m)) {
                        fail!("{x:?} compares {:?} to {y:?}", x.cmp(&y));
                    }
                    let k = <U4 as VebKey>::join(x.into(), y.into());
                    if v4(k) != n << 2 | m {
                        fail!("{x:?}, {y:?} join to {k:?}");
                    }
                    w4.push(k);
                    cx.transitions += 4;
                    cx.cases += 1;
                }
            }
            for (h, l) in [(false, false), (false, true), (true, false), (true, true)] {
                let k = <U2 as VebKey>::join(h.into(), l.into());
                if v2(k)? != (h as u8) << 1 | l as u8 {
                    fail!("{h}, {l} join to {k:?}");
                }
                w2.push(k);
            }
        }
        if seen4.len() != 16 || seen2.len() != 4 {
            fail!("{} U4 values {seen4:?} and {} U2 values {seen2:?} are reachable", seen4.len(), seen2.len());
        }
        if (U4::BITS, U4::MAX, U2::BITS, U2::MAX) != (4, 15, 2, 3) {
            fail!("U4: {} bits, largest {}; U2: {} bits, largest {}", U4::BITS, U4::MAX, U2::BITS, U2::MAX);
        }
        cx.traces += 1;
        cx.sample = Some(format!("{} U4 values, {} U2 values", seen4.len(), seen2.len()));
        Ok(())
    })
}
/// Programs of up to `d` operators over both types, against integers.
fn programs(d: u32) -> Phase {
    // 0..8: |= const bit patterns, 8..: shifts, conversions
    const OPS: u64 = 4 + 4 + 4 + 2 + 4 + 2;
    let n = OPS.pow(d);
    Phase::new(format!("all programs of {d} operators from all 16 values"), n, 256, move |i, cx| {
        for start in 0..16u8 {
            let mut x = U4::from(start);
            let mut m = start;
            let mut p = i;
            for _ in 0..d {
                let o = p % OPS;
                p /= OPS;
                match o {
                    0..=3 => { x = x | U4::from(1 << o); m |= 1 << o }
                    4..=7 => { let s = (o - 3) as usize; x = x << s; m = m << s & 15 }
                    8..=11 => { let s = (o - 7) as usize; x = x >> s; m >>= s }
                    12 => { x = U4::from(U2::from(x)); m &= 3 }
                    13 => { let (h, l) = x.split_val(); x = <U4 as VebKey>::join(l.into(), h.into()); m = (m & 3) << 2 | m >> 2 }
                    14..=17 => { let s = (o - 14) as usize; x = U4::from(U2::from(x) << s) ; m = ((m & 3) << s) & 3 }
                    18 => { x = U4::from(U2::from(x) | U2::from(2)); m = m & 3 | 2 }
                    _ => { x = U4::from(u8::from(x) ^ 0xf3); m = (m ^ 0xf3) & 15 }
                }
                cx.transitions += 1;
                if v4(x) != m || x != U4::from(m) || v2(U2::from(x))? != m & 3 {
                    fail!("program {i} from {start}: {x:?}, integers say {m}");
                }
            }
        }
        cx.traces += 16;
        cx.cases += 16;
        if i & 255 == 0 {
            cx.tick();
        }
        if cx.want_sample {
            cx.sample = Some(format!("program {i}"));
            cx.want_sample = false;
        }
        Ok(())
    })
}

/// All the ways to hold `a` possibly borrowed.
fn forms<'a, T: Clone>(a: &'a T, m: &'a MaybeBorrowed<'a, T>, o: &'a MaybeBorrowed<'a, T>) -> Vec<(&'static str, MaybeBorrowed<'a, T>)> {
    vec![
        ("owned", Owned(a.clone())),
        ("borrowed", Borrowed(a)),
        ("converted from a value", MaybeBorrowed::from(a.clone())),
        ("converted from a reference", MaybeBorrowed::from(a)),
        ("re-borrowed from borrowed", m.borrow()),
        ("re-borrowed from owned", o.borrow()),
        ("cloned borrowed", m.clone()),
        ("cloned owned", o.clone()),
    ]
}
/// Two values and every way of holding them. `same` is how a value is told from any other.
fn wrap<T: Clone + PartialEq + Debug>(a: &T, b: &T, same: fn(&T, &T) -> bool, cx: &mut Ctx) -> Res {
    let (m, o) = (Borrowed(a), Owned(a.clone()));
    let (m2, o2) = (Borrowed(b), Owned(b.clone()));
    for (n, x) in forms(a, &m, &o) {
        let d: &T = &x;
        let e: &T = Borrow::<T>::borrow(&x);
        if !same(d, a) || !same(e, a) {
            fail!("{a:?} {n} dereferences to {d:?} and lends {e:?}");
        }
        let again = x.borrow();
        if !same(&again, a) {
            fail!("{a:?} {n}, re-borrowed, is {again:?}");
        }
        if !matches!(again, Borrowed(p) if std::ptr::eq(p, d)) {
            fail!("{a:?} {n}, re-borrowed, is not the same object");
        }
        let y = x.clone();
        if !same(&y, a) || !same(&x, a) {
            fail!("{a:?} {n}, cloned, is {y:?}");
        }
        let z = y.into_or_clone();
        if !same(&z, a) || !same(&x, a) {
            fail!("{a:?} {n}, taken out, is {z:?}");
        }
        for (n2, w) in forms(b, &m2, &o2) {
            let want = a == b;
            if (x == w) != want || (x != w) == want || (w == x) != (b == a) {
                fail!("{a:?} {n} == {b:?} {n2}: {}, != {}, but the keys themselves are{} equal", x == w, x != w, if want { "" } else { " not" });
            }
            cx.transitions += 3;
        }
        cx.transitions += 6;
    }
    Ok(())
}
fn grid<T: Clone + PartialEq + Debug + Send + Sync + 'static>(name: &str, vals: Vec<T>, same: fn(&T, &T) -> bool) -> Phase {
    let n = vals.len() as u64;
    Phase::new(format!("all {n} x {n} pairs of {name} in 8 x 8 possibly-borrowed forms"), n * n, 16, move |i, cx| {
        let (a, b) = (&vals[(i / n) as usize], &vals[(i % n) as usize]);
        wrap(a, b, same, cx)?;
        cx.traces += 1;
        cx.cases += 1;
        cx.tick();
        if cx.want_sample {
            cx.sample = Some(format!("{a:?} and {b:?}"));
            cx.want_sample = false;
        }
        Ok(())
    })
}
/// Equality that only looks at part of the key, and is not the derived one.
#[derive(Clone, Copy, Debug)]
struct Loose(u8, u8);
impl PartialEq for Loose {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
/// Neither symmetric nor reflexive.
#[derive(Clone, Copy, Debug)]
struct Odd(u8);
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.0 < o.0
    }
}
fn mixed() -> Phase {
    Phase::new("borrowed and owned keys of two comparable types", 64, 8, |i, cx| {
        let words = ["", "a", "b", "aa", "ab", "ba", "abc", "z"];
        let (s, r) = (words[(i / 8) as usize].to_string(), words[(i % 8) as usize]);
        let want = s == *r;
        let l: [MaybeBorrowed<String>; 2] = [Borrowed(&s), Owned(s.clone())];
        let rr: [MaybeBorrowed<&str>; 2] = [Borrowed(&r), Owned(r)];
        for x in &l {
            for y in &rr {
                if (*x == *y) != want || (*y == *x) != want {
                    fail!("{x:?} == {y:?}: {}", *x == *y);
                }
                cx.transitions += 2;
            }
        }
        cx.traces += 1;
        cx.cases += 1;
        Ok(())
    })
}
fn phases(t: Tier) -> Vec<Phase> {
    let q = t == Tier::Quick;
    let eq = |a: &u8, b: &u8| a == b;
    let mut v = vec![closure(), programs(1), programs(2), programs(3), programs(4)];
    v.push(programs(if q { 5 } else { 6 }));
    if !q {
        v.push(programs(7));
    }
    v.push(grid("bytes", (0..=255u8).collect(), eq));
    v.push(grid("signed bytes", (i8::MIN..=i8::MAX).collect(), |a, b| a == b));
    v.push(grid("U4", (0..16u8).map(U4::from).collect(), |a, b| v4(*a) == v4(*b)));
    v.push(grid("U2", (0..4u8).map(U2::from).collect(), |a, b| format!("{a:?}") == format!("{b:?}")));
    v.push(grid("()", vec![()], |_, _| true));
    v.push(grid("strings", ["", "a", "b", "aa", "ab", "ba", "abc", "a longer one that does not fit inline", "z"].map(String::from).to_vec(), |a, b| a == b));
    v.push(grid("vectors", (0..6usize).map(|n| vec![n as u8; n]).collect(), |a, b| a == b));
    v.push(grid("pairs", (0..36u8).map(|n| [n / 6, n % 6]).collect(), |a, b| a == b));
    v.push(grid("wide words", vec![0u128, 1, 1 << 63, 1 << 64, u128::MAX, u64::MAX as u128], |a, b| a == b));
    v.push(grid("floats", vec![0.0f64, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY], |a, b| a.to_bits() == b.to_bits()));
    v.push(grid("keys equal in part", (0..16u8).map(|n| Loose(n / 4, n % 4)).collect(), |a, b| (a.0, a.1) == (b.0, b.1)));
    v.push(grid("keys of an odd equality", (0..4u8).map(Odd).collect(), |a, b| a.0 == b.0));
    v.push(mixed());
    v
}
fn main() {
    mc::engine::main(Check {
        prop: "C18",
        level: "exploration",
        rule: "Exhaustive enumeration: the closure of the 2- and 4-bit types under every conversion and operator (all values, all pairs, shifts by 0 to 7) and all programs of up to five (quick) or seven (thorough) operators from every value, against plain integers reduced to the width; and every pair of values of several key types (all bytes among them) in every pair of eight possibly-borrowed forms, against the values themselves. A case is non-trivial if it is a distinct program and start, or a distinct pair of values; they are distinct by construction and counted.",
        assumptions: &["shifts by eight and more are out of range: the byte shift beneath panics or wraps"],
        compare_builds: false,
        phases,
    })
}
