//! C09: conversion to word arrays, slices and vectors.
use crate::{rt::*, shapes::*, *};
use enumset::*;

/// Word `i` of a model, zero beyond its end.
pub fn at<const W: usize>(m: &[u64; W], i: usize) -> u64 {
    if i < W {
        m[i]
    } else {
        0
    }
}
/// Whether nothing lies in word `n` or above.
pub fn fits_words<const W: usize>(m: &[u64; W], n: usize) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < W {
        ok &= i < n || m[i] == 0;
        i += 1;
    }
    ok
}
fn is_prefix<const W: usize>(a: &[u64], m: &[u64; W]) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < a.len() {
        ok &= a[i] == at(m, i);
        i += 1;
    }
    ok
}
fn array_of<E: Shape<W>, const W: usize, const O: usize>(a: EnumSet<E>, m: &[u64; W]) {
    let ok = fits_words(m, O);
    match a.try_as_array::<O>() {
        None => check!(!ok, "try_as_array is None only if the set does not fit"),
        Some(x) => {
            check!(ok, "try_as_array is None if the set does not fit");
            check!(is_prefix(&x, m), "try_as_array holds bit d in bit d % 64 of word d / 64");
        }
    }
    check!(is_prefix(&a.as_array_truncated::<O>(), m), "as_array_truncated holds the leading words, then zeros");
    if ok {
        check!(is_prefix(&a.as_array::<O>(), m), "as_array holds the words whenever the set fits");
    }
}
fn arrays<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    array_of::<E, W, 0>(a, &m);
    array_of::<E, W, 1>(a, &m);
    array_of::<E, W, 2>(a, &m);
    array_of::<E, W, 3>(a, &m);
    array_of::<E, W, 4>(a, &m);
    array_of::<E, W, 6>(a, &m);
    reach!();
}
const BUF: usize = 7;
/// A slice of `L` words at the start of a larger buffer of arbitrary contents. The length is a
/// constant: CBMC's memcpy of a symbolic length loses track of what it copies.
fn slice_of<E: Shape<W>, const W: usize, const L: usize>(a: EnumSet<E>, m: &[u64; W]) {
    let old: [u64; BUF] = any_words::<BUF>();
    let ok = fits_words(m, L);
    let i: usize = any();
    assume(i < BUF);

    let mut b = old;
    let r = a.try_copy_into_slice(&mut b[..L]);
    check!(r.is_some() == ok, "try_copy_into_slice succeeds iff the set fits");
    if ok && i < L {
        check!(b[i] == at(m, i), "a successful copy holds the words, then zeros");
    } else {
        check!(b[i] == old[i], "a failed copy, or memory beyond the slice, is left untouched");
    }
    let mut b = old;
    a.copy_into_slice_truncated(&mut b[..L]);
    check!(
        b[i] == if i < L { at(m, i) } else { old[i] },
        "copy_into_slice_truncated writes the leading words, then zeros, and nothing beyond the slice"
    );
    if ok {
        let mut b = old;
        a.copy_into_slice(&mut b[..L]);
        check!(
            b[i] == if i < L { at(m, i) } else { old[i] },
            "copy_into_slice writes the words, then zeros, whenever the set fits"
        );
    }
}
fn slices<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    slice_of::<E, W, 0>(a, &m);
    slice_of::<E, W, 1>(a, &m);
    slice_of::<E, W, 2>(a, &m);
    slice_of::<E, W, 3>(a, &m);
    slice_of::<E, W, 4>(a, &m);
    slice_of::<E, W, 6>(a, &m);
    reach!();
}
fn vector<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let v = a.to_vec();
    check!(v.len() >= W, "to_vec has a word for every variant");
    check!(v.len() <= W + 1, "to_vec is no longer than the set's storage");
    let i: usize = any();
    assume(i < v.len());
    check!(v[i] == at(&m, i), "to_vec holds bit d in bit d % 64 of word d / 64");
    core::mem::forget(v);
    reach!();
}
fn panics_small_array<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let n: usize = any();
    assume(n < 3 && !fits_words(&m, n));
    must_panic!(
        match n {
            0 => a.as_array::<0>().len(),
            1 => a.as_array::<1>().len(),
            _ => a.as_array::<2>().len(),
        },
        "as_array on a set that does not fit"
    );
}
fn panics_small_slice<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut b = any_words::<5>();
    let len: usize = any();
    assume(len < 5 && !fits_words(&m, len));
    must_panic!(a.copy_into_slice(&mut b[..len]), "copy_into_slice on a set that does not fit");
}
inst!(g {arrays@8, slices@8}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Dense64: 1,
    Rep128: 2, Rep128Lo: 1, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5,
    HiOnly: 3, Gap4: 4);
inst!(v {vector@8} Dense8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep128: 2, Rep128Lo: 1, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5);
inst!(p {panics_small_array@8, panics_small_slice@8}
    One: 1, OneHi: 2, Dense8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep128: 2, Rep128Lo: 1, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5);
groups!(g, v, p);
