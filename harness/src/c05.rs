//! C05: iteration yields each element exactly once, in order, from either end.
use crate::{rt::*, shapes::*, *};
use enumset::*;

/// One step: `x` must be the lowest (or highest) element of the model, which loses it.
fn step<E: Shape<W>, const W: usize>(x: Option<E>, m: [u64; W], back: bool) -> [u64; W] {
    match x {
        None => {
            check!(zero(&m), "the iterator ends only when every element was yielded");
            m
        }
        Some(v) => {
            check!(has(&m, v.disc()), "only elements of the set, each at most once, are yielded");
            let u = any_var::<E, W>();
            if has(&m, u.disc()) {
                if back {
                    check!(u.disc() <= v.disc(), "next_back yields the highest element left");
                } else {
                    check!(u.disc() >= v.disc(), "next yields the lowest element left");
                }
            }
            without(m, v.disc())
        }
    }
}
/// Exhausts the iterator of an arbitrary set, and asks twice more.
fn forward<E: Shape<W>, const W: usize>() {
    let (a, mut m) = any_set::<E, W>();
    let mut it = a.iter();
    repeat!(E::DISCS.len() + 2, {
        m = step(it.next(), m, false);
    });
    check!(zero(&m), "every element was yielded");
    reach!();
}
fn backward<E: Shape<W>, const W: usize>() {
    let (a, mut m) = any_set::<E, W>();
    let mut it = a.into_iter();
    repeat!(E::DISCS.len() + 2, {
        m = step(it.next_back(), m, true);
    });
    check!(zero(&m), "every element was yielded");
    reach!();
}
/// Every interleaving of the two ends.
fn both<E: Shape<W>, const W: usize>() {
    let (a, mut m) = any_set::<E, W>();
    let mut it = a.iter();
    repeat!(E::DISCS.len() + 2, {
        let back: bool = any();
        let x = if back { it.next_back() } else { it.next() };
        m = step(x, m, back);
    });
    check!(zero(&m), "every element was yielded");
    reach!();
}
/// The first steps on sets with many elements.
fn prefix<E: Shape<W>, const W: usize>() {
    let (a, mut m) = any_set::<E, W>();
    let mut it = a.iter();
    repeat!(PREFIX, {
        let back: bool = any();
        let x = if back { it.next_back() } else { it.next() };
        m = step(x, m, back);
    });
    reach!();
}
/// Elements that are far apart: the first step from either end.
fn far<E: Shape<W>, const W: usize>() {
    let (u, v) = (any_var::<E, W>(), any_var::<E, W>());
    let mut s = EnumSet::<E>::new();
    s.insert(u);
    s.insert(v);
    let (lo, hi) = if u.disc() < v.disc() { (u, v) } else { (v, u) };
    if any() {
        check!(s.iter().next_back() == Some(hi), "next_back yields the highest element left");
    } else {
        check!(s.iter().next() == Some(lo), "next yields the lowest element left");
    }
    reach!();
}
inst!(f {far@262} Far: 260);
inst!(w1 {forward@3, backward@3, both@3}
    One: 1, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep16: 1, Arr1: 1);
inst!(w2 {forward@4, backward@4, both@4} OneHi: 2, Rep128: 2, Rep128Mid: 2, It2: 2, Arr2Edge: 2, Pair127: 2);
inst!(w3 {forward@5, backward@5, both@5} It3: 3);
inst!(w5 {forward@7, backward@7, both@7} It5: 5);
inst!(first {prefix@7} Dense64: 1, Arr3: 3, Arr5: 5, HiOnly: 3, Twin: 5);
#[cfg(not(feature = "thorough"))]
const PREFIX: usize = 3;
#[cfg(feature = "thorough")]
const PREFIX: usize = 5;
#[cfg(not(feature = "thorough"))]
groups!(w1, w2, w3, w5, first, f);
#[cfg(feature = "thorough")]
mod deeper {
    use super::*;
    inst!(t2 {forward@4, backward@4, both@4} Arr2: 2);
    inst!(t3 {forward@5, backward@5, both@5} Arr3: 3);
    inst!(t5 {forward@7, backward@7, both@7} Arr5: 5);
}
#[cfg(feature = "thorough")]
use deeper::{t2, t3, t5};
#[cfg(feature = "thorough")]
groups!(w1, w2, w3, w5, first, f, t2, t3, t5);
