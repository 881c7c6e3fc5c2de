//! C07: conversion to integers is exact, and truncates or refuses exactly when it must.
use crate::{rt::*, shapes::*, *};
use enumset::*;

/// The low 128 bits of a model, and whether anything lies above bit `n`.
pub fn low128<const W: usize>(m: &[u64; W]) -> u128 {
    m[0] as u128 | if W > 1 { (m[W.min(2) - 1] as u128) << 64 } else { 0 }
}
pub fn fits<const W: usize>(m: &[u64; W], n: u32) -> bool {
    let mut i = 2;
    let mut high = false;
    while i < W {
        high |= m[i] != 0;
        i += 1;
    }
    !high && (n == 128 || low128(m) >> n == 0)
}

macro_rules! one {
    ($a:ident $m:ident $t:ty, $try_to:ident $trunc:ident $to:ident) => {{
        let want = low128(&$m) as $t;
        let ok = fits(&$m, <$t>::BITS);
        check!($a.$try_to() == if ok { Some(want) } else { None },
            "try_as_* is the exact numeric value, or None iff it does not fit");
        check!($a.$trunc() == want, "as_*_truncated is the numeric value's low bits");
        if ok {
            check!($a.$to() == want, "as_* is the exact numeric value whenever it fits");
        }
    }};
}
fn exact<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    one!(a m u8, try_as_u8 as_u8_truncated as_u8);
    one!(a m u16, try_as_u16 as_u16_truncated as_u16);
    one!(a m u32, try_as_u32 as_u32_truncated as_u32);
    one!(a m u64, try_as_u64 as_u64_truncated as_u64);
    one!(a m u128, try_as_u128 as_u128_truncated as_u128);
    one!(a m usize, try_as_usize as_usize_truncated as_usize);
    let v = any_var::<E, W>();
    if v.disc() < 128 {
        check!(
            a.contains(v) == ((a.as_u128_truncated() >> v.disc()) & 1 == 1),
            "bit d stands for the variant with discriminant d"
        );
    }
    reach!();
}
/// as_* panics on every set that does not fit.
fn panics_unfit<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let t: u8 = any();
    assume(t < 6);
    let n = match t {
        0 => 8,
        1 => 16,
        2 => 32,
        3 | 4 => 64,
        _ => 128,
    };
    assume(!fits(&m, n));
    must_panic!(
        match t {
            0 => a.as_u8() as u128,
            1 => a.as_u16() as u128,
            2 => a.as_u32() as u128,
            3 => a.as_u64() as u128,
            4 => a.as_usize() as u128,
            _ => a.as_u128(),
        },
        "as_* on a set that does not fit the type"
    );
}
inst!(g {exact@8}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Dense64: 1,
    Rep8: 1, Rep16: 1, Rep32: 1, Rep64: 1, Rep128: 2, Rep128Lo: 1, Rep128Mid: 2, Arr1: 1, Arr2: 2,
    Arr3: 3, Arr5: 5, Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
inst!(w8 {exact@10, panics_unfit@10} Eight: 8);
inst!(p {panics_unfit@8}
    OneHi: 2, Sparse16: 1, Sparse32: 1, Sparse64: 1, Dense64: 1, Rep16: 1, Rep32: 1, Rep64: 1, Rep128: 2,
    Rep128Lo: 1, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5,
    Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
groups!(g, p, w8);
