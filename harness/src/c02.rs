//! C02: single-step mutation from an arbitrary set.
use crate::{rt::*, shapes::*, *};
use enumset::*;

fn element<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let v = any_var::<E, W>();
    let present = has(&ma, v.disc());
    check!(a.contains(v) == present, "contains tells membership");

    let mut s = a;
    check!(s.insert(v) == !present, "insert returns whether the element was absent");
    check!(same(s, &with(ma, v.disc())), "insert adds that element and changes no other");
    check!(s.contains(v), "an inserted element is contained");
    check!(!s.insert(v), "inserting again returns false");
    check!(same(s, &with(ma, v.disc())), "inserting again changes nothing");

    let mut s = a;
    check!(s.remove(v) == present, "remove returns whether the element was present");
    check!(same(s, &without(ma, v.disc())), "remove drops that element and changes no other");
    check!(!s.contains(v), "a removed element is not contained");
    check!(!s.remove(v), "removing again returns false");
    check!(same(s, &without(ma, v.disc())), "removing again changes nothing");

    let one = with([0; W], v.disc());
    check!(same(EnumSet::only(v), &one), "only(v) holds exactly v");
    check!(same(EnumSet::from(v), &one), "EnumSet::from(v) holds exactly v");
    check!(same(a, &ma), "a copy of the set is unaffected");
    reach!();
}
fn whole<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let (b, mb) = any_set::<E, W>();
    let mut s = a;
    s.insert_all(b);
    check!(same(s, &zip(&ma, &mb, |x, y| x | y)), "insert_all adds exactly the other set");
    let mut s = a;
    s.remove_all(b);
    check!(same(s, &zip(&ma, &mb, |x, y| x & !y)), "remove_all removes exactly the other set");
    let mut s = a;
    s.clear();
    check!(same(s, &[0; W]), "clear leaves the empty set");
    check!(same(EnumSet::<E>::new(), &[0; W]), "new() is empty");
    check!(same(EnumSet::<E>::empty(), &[0; W]), "empty() is empty");
    check!(same(EnumSet::<E>::default(), &[0; W]), "default() is empty");
    check!(same(a, &ma) && same(b, &mb), "the operands do not change");
    reach!();
}
/// Elements that are far apart.
fn far<E: Shape<W>, const W: usize>() {
    let (u, v, x) = (any_var::<E, W>(), any_var::<E, W>(), any_var::<E, W>());
    let mut s = EnumSet::<E>::new();
    check!(s.insert(u), "insert returns whether the element was absent");
    check!(s.insert(v) == (v != u), "insert returns whether the element was absent");
    check!(s.contains(x) == (x == u || x == v), "insert adds that element and changes no other");
    check!(s.remove(x) == (x == u || x == v), "remove returns whether the element was present");
    check!(s.contains(v) == (x != v), "remove drops that element and changes no other");
    reach!();
}
inst!(g {element@8, whole@8}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Dense64: 1,
    Rep16: 1, Rep128: 2, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5,
    Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
inst!(w8 {element@10, whole@10} Eight: 8);
inst!(f {far@262} Far: 260);
groups!(g, w8, f);
