//! C12: equality, ordering and hashing are lawful and consistent with each other.
use crate::{rt::*, shapes::*, *};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use enumset::*;

/// Order-sensitive and cheap to reason about: no information is lost on short inputs, and two
/// inputs that differ anywhere are told apart by `at`.
struct Tape {
    n: usize,
    at: usize,
    got: u8,
}
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        self.n as u64
    }
    fn write(&mut self, b: &[u8]) {
        if self.at >= self.n && self.at < self.n + b.len() {
            self.got = b[self.at - self.n];
        }
        self.n += b.len();
    }
}
fn eq_is_membership<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let (b, mb) = any_set::<E, W>();
    let eq = eqw(&ma, &mb);
    check!((a == b) == eq, "sets are equal iff they have the same elements");
    check!((a != b) == !eq, "!= is the negation of ==");
    check!((a.cmp(&b) == Ordering::Equal) == eq, "cmp is Equal iff the sets are equal");
    check!(a.partial_cmp(&b) == Some(a.cmp(&b)), "partial_cmp agrees with cmp");
    check!(a.cmp(&b) == b.cmp(&a).reverse(), "cmp is antisymmetric");
    check!((a < b) == (a.cmp(&b) == Ordering::Less), "< agrees with cmp");
    check!((a > b) == (a.cmp(&b) == Ordering::Greater), "> agrees with cmp");
    check!((a <= b) == (a.cmp(&b) != Ordering::Greater), "<= agrees with cmp");
    check!((a >= b) == (a.cmp(&b) != Ordering::Less), ">= agrees with cmp");
    check!(a.max(b) == if a > b { a } else { b }, "max agrees with cmp");
    check!(a.min(b) == if a > b { b } else { a }, "min agrees with cmp");
    reach!();
}
fn transitive<E: Shape<W>, const W: usize>() {
    let (a, _) = any_set::<E, W>();
    let (b, _) = any_set::<E, W>();
    let (c, _) = any_set::<E, W>();
    if a <= b && b <= c {
        check!(a <= c, "the order is transitive");
        check!((a == c) == (a == b && b == c), "and antisymmetric across three sets");
    }
    reach!();
}
/// Equal sets feed a hasher the same bytes, however they were made.
fn hashes<E: Shape<W>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let (b, mb) = any_set::<E, W>();
    let v = any_var::<E, W>();
    let mut c = a;
    let how: bool = any();
    if how {
        // out and in again, or in and out again
        if has(&ma, v.disc()) {
            c.remove(v);
            c.insert(v);
        } else {
            c.insert(v);
            c.remove(v);
        }
    } else {
        assume(eqw(&ma, &mb));
        c = b;
    }
    check!(a == c, "the two sets are equal");
    let at: usize = any();
    assume(at < 64);
    let mut h = Tape { n: 0, at, got: 0 };
    let mut k = Tape { n: 0, at, got: 0 };
    a.hash(&mut h);
    c.hash(&mut k);
    check!(h.n == k.n && h.got == k.got, "equal sets hash alike");
    reach!();
}
/// A set equals an element iff it holds that element and no other, whichever stands first.
fn elements<E: Shape<W> + PartialEq<EnumSet<E>>, const W: usize>() {
    let (a, ma) = any_set::<E, W>();
    let v = any_var::<E, W>();
    let alone = eqw(&ma, &with([0; W], v.disc()));
    check!((a == v) == alone, "a set equals an element iff it holds just that");
    check!((a != v) == !alone, "set != element is the negation");
    check!((v == a) == alone, "an element equals a set iff that holds just it");
    check!((v != a) == !alone, "element != set is the negation");
    let u = any_var::<E, W>();
    check!((u == v) == (u.disc() == v.disc()), "elements are equal iff they are the same variant");
    check!((u != v) == (u.disc() != v.disc()), "element != element is the negation");
    reach!();
}
inst!(g {eq_is_membership@42, elements@42, hashes@42}
    One: 1, OneHi: 2, Dense8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep128: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5,
    Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
inst!(t {transitive@42} Dense8: 1, Sparse16: 1, Sparse32: 1, Dense64: 1, Rep128: 2, Arr2: 2, Arr3: 3);
groups!(g, t);
