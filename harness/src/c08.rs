//! C08: conversion from integers accepts exactly the declared bits.
use crate::{rt::*, shapes::*, *};
use enumset::*;

fn words<const W: usize>(x: u128) -> [u64; W] {
    let mut m = [0; W];
    m[0] = x as u64;
    if W > 1 {
        m[W.min(2) - 1] = (x >> 64) as u64;
    }
    m
}
/// Whether every set bit belongs to a variant.
fn declared<E: Shape<W>, const W: usize>(x: u128) -> bool {
    let mask = E::MASK[0] as u128 | if W > 1 { (E::MASK[W.min(2) - 1] as u128) << 64 } else { 0 };
    x & !mask == 0
}
fn agrees<E: Shape<W>, const W: usize>(s: Option<EnumSet<E>>, ok: bool, x: u128) -> bool {
    match s {
        None => !ok,
        Some(s) => ok && same(s, &words::<W>(x)),
    }
}
macro_rules! one {
    ($x:ident $t:ty, $try:ident $trunc:ident $from:ident $unchecked:ident) => {{
        let v = $x as $t;
        let ok = declared::<E, W>(v as u128);
        let s = EnumSet::<E>::$try(v);
        check!(agrees(s, ok, v as u128),
            "try_from_* yields exactly the variants of the set bits, or None iff a bit has no variant");
        check!(same(EnumSet::<E>::$trunc(v), &zip(&words::<W>(v as u128), &E::MASK, |a, b| a & b)),
            "from_*_truncated keeps exactly the bits that have a variant");
        if ok {
            check!(same(EnumSet::<E>::$from(v), &words::<W>(v as u128)), "from_* accepts every valid value");
            let u = unsafe { EnumSet::<E>::$unchecked(v) };
            check!(same(u, &words::<W>(v as u128)), "from_*_unchecked of a valid value is exact");
        }
    }};
}
fn exact<E: Shape<W>, const W: usize>() {
    let x: u128 = any();
    one!(x u8, try_from_u8 from_u8_truncated from_u8 from_u8_unchecked);
    one!(x u16, try_from_u16 from_u16_truncated from_u16 from_u16_unchecked);
    one!(x u32, try_from_u32 from_u32_truncated from_u32 from_u32_unchecked);
    one!(x u64, try_from_u64 from_u64_truncated from_u64 from_u64_unchecked);
    one!(x u128, try_from_u128 from_u128_truncated from_u128 from_u128_unchecked);
    one!(x usize, try_from_usize from_usize_truncated from_usize from_usize_unchecked);
    reach!();
}
/// What as_* gives, from_* takes back.
fn roundtrip<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    macro_rules! rt {
        ($($try_as:ident $try_from:ident $trunc:ident,)*) => {$(
            if let Some(x) = a.$try_as() {
                check!(EnumSet::<E>::$try_from(x) == Some(a), "from(as(set)) is the set");
                check!(same(EnumSet::<E>::$trunc(x), &m), "from_truncated(as(set)) is the set");
            }
        )*};
    }
    rt! {
        try_as_u8 try_from_u8 from_u8_truncated,
        try_as_u16 try_from_u16 from_u16_truncated,
        try_as_u32 try_from_u32 from_u32_truncated,
        try_as_u64 try_from_u64 from_u64_truncated,
        try_as_u128 try_from_u128 from_u128_truncated,
        try_as_usize try_from_usize from_usize_truncated,
    }
    reach!();
}
/// from_* panics on every value with an undeclared bit.
fn panics_undeclared<E: Shape<W>, const W: usize>() {
    let x: u128 = any();
    let t: u8 = any();
    assume(t < 6);
    let v = match t {
        0 => x as u8 as u128,
        1 => x as u16 as u128,
        2 => x as u32 as u128,
        3 | 4 => x as u64 as u128,
        _ => x,
    };
    assume(!declared::<E, W>(v));
    must_panic!(
        match t {
            0 => EnumSet::<E>::from_u8(v as u8),
            1 => EnumSet::<E>::from_u16(v as u16),
            2 => EnumSet::<E>::from_u32(v as u32),
            3 => EnumSet::<E>::from_u64(v as u64),
            4 => EnumSet::<E>::from_usize(v as usize),
            _ => EnumSet::<E>::from_u128(v),
        },
        "from_* on a value with a bit that has no variant"
    );
}
inst!(g {exact@8, panics_undeclared@8}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Dense64: 1,
    Rep8: 1, Rep16: 1, Rep32: 1, Rep64: 1, Rep128: 2, Rep128Lo: 1, Rep128Mid: 2, Arr1: 1, Arr2: 2,
    Arr3: 3, Arr5: 5, Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
inst!(w8 {exact@10, panics_undeclared@10} Eight: 8);
inst!(r {roundtrip@42}
    One: 1, OneHi: 2, Dense8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep128: 2, Arr1: 1, Arr2: 2, Arr3: 3);
groups!(g, r, w8);
