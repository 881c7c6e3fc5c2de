//! C10: conversion from word arrays and slices accepts exactly the declared bits.
use crate::{rt::*, shapes::*, *};
use enumset::*;

fn declared<E: Shape<W>, const W: usize>(v: &[u64]) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < v.len() {
        ok &= v[i] & !(if i < W { E::MASK[i] } else { 0 }) == 0;
        i += 1;
    }
    ok
}
fn model<E: Shape<W>, const W: usize>(v: &[u64]) -> [u64; W] {
    let mut m = [0; W];
    let mut i = 0;
    while i < W {
        if i < v.len() {
            m[i] = v[i] & E::MASK[i];
        }
        i += 1;
    }
    m
}
fn array_of<E: Shape<W>, const W: usize, const O: usize>() {
    let x = any_words::<O>();
    let ok = declared::<E, W>(&x);
    let m = model::<E, W>(&x);
    match EnumSet::<E>::try_from_array(x) {
        None => check!(!ok, "try_from_array accepts every array of declared bits"),
        Some(s) => {
            check!(ok, "try_from_array refuses undeclared bits");
            check!(same(s, &m), "try_from_array yields exactly the variants of the set bits");
        }
    }
    check!(same(EnumSet::<E>::from_array_truncated(x), &m), "from_array_truncated keeps exactly the declared bits");
    if ok {
        check!(same(EnumSet::<E>::from_array(x), &m), "from_array accepts every array of declared bits");
        let u = unsafe { EnumSet::<E>::from_array_unchecked(x) };
        check!(same(u, &m), "from_array_unchecked of declared bits is exact");
    }
}
fn arrays<E: Shape<W>, const W: usize>() {
    array_of::<E, W, 0>();
    array_of::<E, W, 1>();
    array_of::<E, W, 2>();
    array_of::<E, W, 3>();
    array_of::<E, W, 6>();
    reach!();
}
/// Slices of `L` words. The length is a constant: CBMC's memcpy of a symbolic length loses track
/// of what it copies.
fn slice_of<E: Shape<W>, const W: usize, const L: usize>() {
    let x = any_words::<L>();
    let x = &x[..];
    let ok = declared::<E, W>(x);
    let m = model::<E, W>(x);
    match EnumSet::<E>::try_from_slice(x) {
        None => check!(!ok, "try_from_slice accepts every slice of declared bits"),
        Some(s) => {
            check!(ok, "try_from_slice refuses undeclared bits");
            check!(same(s, &m), "try_from_slice yields exactly the variants of the set bits");
        }
    }
    check!(same(EnumSet::<E>::from_slice_truncated(x), &m), "from_slice_truncated keeps exactly the declared bits");
    if ok {
        check!(same(EnumSet::<E>::from_slice(x), &m), "from_slice accepts every slice of declared bits");
        let u = unsafe { EnumSet::<E>::from_slice_unchecked(x) };
        check!(same(u, &m), "from_slice_unchecked of declared bits is exact");
    }
}
fn slices<E: Shape<W>, const W: usize>() {
    slice_of::<E, W, 0>();
    slice_of::<E, W, 1>();
    slice_of::<E, W, 2>();
    slice_of::<E, W, 3>();
    slice_of::<E, W, 6>();
    reach!();
}
/// What the to-conversions give, the from-conversions take back.
fn roundtrip<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    check!(same(EnumSet::<E>::from_array(a.as_array::<W>()), &m), "from_array(as_array) is the set");
    check!(same(EnumSet::<E>::from_array(a.as_array::<6>()), &m), "from_array(as_array), longer, is the set");
    let mut b = any_words::<7>();
    a.copy_into_slice(&mut b[..W]);
    check!(same(EnumSet::<E>::from_slice(&b[..W]), &m), "from_slice(copy_into_slice) is the set");
    a.copy_into_slice(&mut b);
    check!(same(EnumSet::<E>::from_slice(&b), &m), "from_slice(copy_into_slice), longer, is the set");
    reach!();
}
fn panics_array<E: Shape<W>, const W: usize>() {
    let x = any_words::<6>();
    let n: usize = any();
    assume(n < 3);
    let l = [1, 2, 6][n];
    assume(!declared::<E, W>(&x[..l]));
    must_panic!(
        match n {
            0 => EnumSet::<E>::from_array([x[0]]),
            1 => EnumSet::<E>::from_array([x[0], x[1]]),
            _ => EnumSet::<E>::from_array(x),
        },
        "from_array with an undeclared bit"
    );
}
fn panics_slice<E: Shape<W>, const W: usize>() {
    let x = any_words::<7>();
    let len: usize = any();
    assume(len <= 7);
    assume(!declared::<E, W>(&x[..len]));
    must_panic!(EnumSet::<E>::from_slice(&x[..len]), "from_slice with an undeclared bit");
}
inst!(g {arrays@9, slices@9, panics_array@9, panics_slice@9}
    One: 1, OneHi: 2, Dense8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Dense64: 1,
    Rep128: 2, Rep128Lo: 1, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5,
    HiOnly: 3, Gap4: 4);
inst!(r {roundtrip@9}
    One: 1, OneHi: 2, Sparse8: 1, Sparse16: 1, Sparse32: 1, Dense64: 1, Rep128: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5);
groups!(g, r);
