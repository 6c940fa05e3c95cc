//! What a tree configuration is, and the key universes it is explored over.
use crate::keys::*;
use crate::sys::*;

#[derive(Clone)]
pub struct Config {
    pub name: &'static str,
    pub mk: fn() -> Box<dyn Sys>,
    /// keys are the codes 0..2^bits
    pub bits: u32,
    /// width of the low half at the top level (0: leaf)
    pub lo: u32,
    pub valued: bool,
    pub exact: bool,
    pub clones: bool,
    /// allocates 2^16-slot arrays
    pub heavy: bool,
    /// one of the crate's own presets or a wrapper round one
    pub core: bool,
}

pub fn mk<T, X>() -> Box<dyn Sys>
where
    T: veb_tree::VebTree + 'static,
    T::Key: KeyCode,
    T::Value: Val,
    X: Ext<T> + 'static,
{
    Box::new(SysImpl::<T, X>::new())
}

#[macro_export]
macro_rules! tree_config {
    ($v:ident, $name:expr, $t:ty, $x:ty, $bits:expr, $lo:expr $(, $flag:ident)*) => {{
        #[allow(unused_mut)]
        let mut c = $crate::cfg::Config {
            name: $name,
            mk: $crate::cfg::mk::<$t, $x>,
            bits: $bits,
            lo: $lo,
            valued: <<$t as veb_tree::VebTree>::Value as $crate::sys::Val>::VALUED,
            exact: false,
            clones: <$x as $crate::sys::Ext<$t>>::CLONES,
            heavy: false,
            core: false,
        };
        $( c.$flag = true; )*
        $v.push(c);
    }};
}

/// Key universes for bounded exploration: small sets that collide in the halves of the keys at every
/// level, sit on word and sign boundaries, and include both extremes. Sorted, distinct.
pub fn universe(c: &Config, variant: u32) -> Vec<u128> {
    let mut u = uni(c.bits, c.lo, variant);
    u.sort();
    u.dedup();
    u
}
fn max(bits: u32) -> u128 {
    if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }
}
fn uni(bits: u32, lo: u32, variant: u32) -> Vec<u128> {
    let m = max(bits);
    if bits <= 4 {
        return (0..=m).collect();
    }
    if bits <= 6 {
        return vec![0, 1, 7, 8, 9, 15, 16, 24, 26, 31, 32, 40, 55, 56, 62, 63];
    }
    if bits == 8 {
        return match variant {
            0 => vec![0, 1, 63, 64, 127, 128, 129, 192, 254, 255],
            _ => vec![0, 15, 16, 17, 19, 20, 31, 126, 127, 128, 240, 255],
        };
    }
    let hm = max(bits - lo);
    let mid = hm / 2;
    let j = |h: u128, l: u128| (h << lo) | l;
    let lm = max(lo);
    match variant {
        // spread over the high halves, extremes of the low halves
        0 => vec![j(0, 0), j(0, 1), j(0, lm), j(mid, 0), j(mid, lm / 2), j(mid, lm / 2 + 1), j(mid, lm), j(mid + 1, 0), j(hm, 0), j(hm, lm)],
        // everything but the extremes under one high half, recursively
        _ => {
            let mut v = vec![0, m];
            let h = mid + 1;
            let inner: Vec<u128> = if lo > 8 {
                let mut w = uni(lo, lo / 2, 1);
                w.truncate(8);
                w
            } else {
                vec![0, 1, 127 & lm, 128 & lm, 129 & lm, 254 & lm, lm]
            };
            for x in inner {
                v.push(j(h, x));
            }
            v.push(j(h + 1, 0));
            v
        }
    }
}
/// Probe keys for a universe: the keys, their neighbours and the extremes of the key type.
pub fn probes(c: &Config, u: &[u128]) -> Vec<u128> {
    let m = max(c.bits);
    let mut p = vec![0, m];
    for &k in u {
        p.push(k);
        if k > 0 { p.push(k - 1); }
        if k < m { p.push(k + 1); }
    }
    p.sort();
    p.dedup();
    p
}
pub fn max_code(c: &Config) -> u128 {
    max(c.bits)
}
