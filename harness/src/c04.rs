//! C04: queries agree with membership.
use crate::{rt::*, shapes::*, *};
use enumset::*;

fn relations<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let (b, mb) = any_set::<E, W>();
    let common = zip(&ma, &mb, |x, y| x & y);
    check!(a.is_empty() == zero(&ma), "is_empty iff there is no element");
    check!(a.is_disjoint(b) == zero(&common), "is_disjoint iff there is no common element");
    check!(a.is_superset(b) == eqw(&common, &mb), "is_superset iff every element of the other is in it");
    check!(a.is_subset(b) == eqw(&common, &ma), "is_subset iff every element is in the other");
    check!((a == b) == eqw(&ma, &mb), "sets are equal iff they have the same elements");
    check!((a != b) == !eqw(&ma, &mb), "sets differ iff some element differs");
    let v = any_var::<E, W>();
    let one = with([0; W], v.disc());
    check!((a == v) == eqw(&ma, &one), "a set equals an element iff it holds just that element");
    check!((a != v) == !eqw(&ma, &one), "a set differs from an element otherwise");
    check!(a.contains(v) == has(&ma, v.disc()), "contains tells membership");
    check!(a.is_superset(EnumSet::only(v)) == a.contains(v), "superset of {v} iff v is contained");
    reach!();
}
/// len() is the number of elements, defined by induction: 0 for the empty set, one more for each
/// element added.
fn len_inductive<E: Shape<W>, const W: usize>() {
    check!(EnumSet::<E>::empty().len() == 0, "the empty set has no elements");
    let (mut a, ma) = any_set::<E, W>();
    let v = any_var::<E, W>();
    assume(!has(&ma, v.disc()));
    let before = a.len();
    let b = build::<E, W>(&with(ma, v.disc()));
    check!(b.len() == before + 1, "adding an absent element raises len by one");
    check!(before + 1 <= E::DISCS.len(), "len does not exceed the number of variants");
    reach!();
}
/// The same, for more variants than a byte counts: the words are counted one by one.
fn len_many<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    check!(a.len() == count(&ma) as usize, "len is the number of elements");
    check!(EnumSet::<E>::all().len() == E::DISCS.len(), "all() has as many elements as the enum has variants");
    reach!();
}
/// The same, counted out, for small enums.
fn len_counted<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let mut n = 0;
    let mut i = 0;
    while i < E::DISCS.len() {
        if has(&ma, E::DISCS[i]) {
            n += 1;
        }
        i += 1;
    }
    check!(a.len() == n, "len is the number of elements");
    check!(a.is_empty() == (n == 0), "is_empty iff len is zero");
    reach!();
}
inst!(g {relations@42, len_counted@9}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1,
    Rep16: 1, Rep128: 2, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5,
    Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
inst!(w8 {relations@66, len_counted@10} Eight: 8);
inst!(huge {len_many@9} Dense64: 1, Huge: 5);
inst!(big {relations@8, len_inductive@8} Dense64: 1);
groups!(g, big, w8, huge);
