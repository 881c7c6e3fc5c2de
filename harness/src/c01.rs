//! C01: set algebra is exact.
use crate::{rt::*, shapes::*, *};
use enumset::*;

/// Union, intersection, difference and symmetric difference of two sets, in every operator form.
fn of_sets<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let (b, mb) = any_set::<E, W>();

    let want = zip(&ma, &mb, |x, y| x | y);
    check!(same(a.union(b), &want), "union holds exactly the elements in either set");
    check!(same(a | b, &want), "a | b is the union");
    let mut c = a;
    c |= b;
    check!(same(c, &want), "a |= b is the union");

    let want = zip(&ma, &mb, |x, y| x & y);
    check!(same(a.intersection(b), &want), "intersection holds exactly the common elements");
    check!(same(a & b, &want), "a & b is the intersection");
    let mut c = a;
    c &= b;
    check!(same(c, &want), "a &= b is the intersection");

    let want = zip(&ma, &mb, |x, y| x & !y);
    check!(same(a.difference(b), &want), "difference holds exactly the elements not in the other");
    check!(same(a - b, &want), "a - b is the difference");
    let mut c = a;
    c -= b;
    check!(same(c, &want), "a -= b is the difference");

    let want = zip(&ma, &mb, |x, y| x ^ y);
    check!(
        same(a.symmetrical_difference(b), &want),
        "symmetrical_difference holds exactly the elements in one of the sets"
    );
    check!(same(a ^ b, &want), "a ^ b is the symmetric difference");
    let mut c = a;
    c ^= b;
    check!(same(c, &want), "a ^= b is the symmetric difference");

    let want = zip(&ma, &E::MASK, |x, y| y & !x);
    check!(same(a.complement(), &want), "complement holds exactly the variants not in the set");
    check!(same(!a, &want), "!a is the complement");
    check!(same(!!a, &ma), "complementing twice gives the set back");

    // the operands are left alone
    check!(same(a, &ma) && same(b, &mb), "the operands do not change");
    reach!();
}
/// The operators with a single element on the right.
fn with_element<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let v = any_var::<E, W>();
    let one = with([0; W], v.disc());
    check!(same(a | v, &zip(&ma, &one, |x, y| x | y)), "set | element");
    check!(same(a & v, &zip(&ma, &one, |x, y| x & y)), "set & element");
    check!(same(a - v, &zip(&ma, &one, |x, y| x & !y)), "set - element");
    check!(same(a ^ v, &zip(&ma, &one, |x, y| x ^ y)), "set ^ element");
    let (mut p, mut q, mut r, mut s) = (a, a, a, a);
    p |= v;
    q &= v;
    r -= v;
    s ^= v;
    check!(same(p, &zip(&ma, &one, |x, y| x | y)), "set |= element");
    check!(same(q, &zip(&ma, &one, |x, y| x & y)), "set &= element");
    check!(same(r, &zip(&ma, &one, |x, y| x & !y)), "set -= element");
    check!(same(s, &zip(&ma, &one, |x, y| x ^ y)), "set ^= element");
    reach!();
}
inst!(g {of_sets@8, with_element@8}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Dense64: 1,
    Rep16: 1, Rep128: 2, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5,
    Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
inst!(w8 {of_sets@10, with_element@10} Eight: 8);
groups!(g, w8);
