//! C22: collecting, extending and summing.
use crate::{rt::*, shapes::*, *};
use enumset::*;

const LEN: usize = if cfg!(feature = "thorough") { 6 } else { 4 };

/// An iterator over the first `n` of some items, whose size hint is honest but vague.
#[derive(Clone)]
pub struct Src<T> {
    items: [T; LEN],
    i: usize,
    n: usize,
    taken: bool,
}
impl<T: Copy> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.n {
            self.i += 1;
            Some(self.items[self.i - 1])
        } else {
            None
        }
    }
}
fn variants<E: Shape<W>, const W: usize>() -> (Src<E>, [u64; W]) {
    let n: usize = any();
    assume(n <= LEN);
    let mut items = [E::var(0); LEN];
    let mut m = [0; W];
    let mut i = 0;
    while i < LEN {
        items[i] = any_var::<E, W>();
        if i < n {
            m = with(m, items[i].disc());
        }
        i += 1;
    }
    (Src { items, i: 0, n, taken: false }, m)
}
fn sets<E: Shape<W>, const W: usize>() -> (Src<EnumSet<E>>, [u64; W]) {
    let n: usize = any();
    assume(n <= LEN);
    let mut items = [EnumSet::empty(); LEN];
    let mut m = [0; W];
    let mut i = 0;
    while i < LEN {
        let (s, x) = any_set::<E, W>();
        items[i] = s;
        if i < n {
            m = zip(&m, &x, |a, b| a | b);
        }
        i += 1;
    }
    (Src { items, i: 0, n, taken: false }, m)
}
fn from_variants<E: Shape<W>, const W: usize>() {
    let (src, m) = variants::<E, W>();
    let (a, ma) = any_set::<E, W>();
    let s: EnumSet<E> = src.clone().collect();
    check!(same(s, &m), "collecting variants gives exactly those variants");
    let mut b = a;
    b.extend(src.clone());
    check!(same(b, &zip(&ma, &m, |x, y| x | y)), "extending with variants adds exactly those");
    let mut b = src.clone();
    let t: EnumSet<E> = b.by_ref().collect();
    check!(b.i == src.n && same(t, &m), "every variant is taken from the iterator");
    reach!();
}
fn sum_variants<E: Shape<W>, const W: usize>() {
    let (src, m) = variants::<E, W>();
    let s: EnumSet<E> = src.clone().sum();
    check!(same(s, &m), "the sum of variants is the set of them");
    let s: EnumSet<E> = src.items[..].iter().take(src.n).sum();
    check!(same(s, &m), "the sum of borrowed variants is the set of them");
    reach!();
}
fn from_sets<E: Shape<W>, const W: usize>() {
    let (src, m) = sets::<E, W>();
    let (a, ma) = any_set::<E, W>();
    let s: EnumSet<E> = src.clone().collect();
    check!(same(s, &m), "collecting sets gives their union");
    let mut b = a;
    b.extend(src.clone());
    check!(same(b, &zip(&ma, &m, |x, y| x | y)), "extending with sets adds exactly their members");
    reach!();
}
fn sum_sets<E: Shape<W>, const W: usize>() {
    let (src, m) = sets::<E, W>();
    let s: EnumSet<E> = src.clone().sum();
    check!(same(s, &m), "the sum of sets is their union");
    let s: EnumSet<E> = src.items[..].iter().take(src.n).sum();
    check!(same(s, &m), "the sum of borrowed sets is their union");
    reach!();
}
/// Rebuilding a set from its own iterator.
fn rebuild<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let s: EnumSet<E> = a.iter().collect();
    check!(same(s, &m), "collecting a set's iterator gives the set");
    let s: EnumSet<E> = a.into_iter().rev().collect();
    check!(same(s, &m), "collecting a set's reversed iterator gives the set");
    let s: EnumSet<E> = a.iter().sum();
    check!(same(s, &m), "summing a set's iterator gives the set");
    let (b, mb) = any_set::<E, W>();
    let mut c = b;
    c.extend(a.iter());
    check!(same(c, &zip(&m, &mb, |x, y| x | y)), "extending a set with another's iterator is their union");
    reach!();
}
inst!(g {from_variants@9, sum_variants@9, from_sets@9, sum_sets@9}
    One: 1, OneHi: 2, Dense8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep128: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5);
shape!(Re8: 1 { A = 7, B = 0, C = 3 });
shape!(#[enumset(repr = "u128")] Re128: 2 { A = 127, B = 64, C = 63 });
inst!(r {rebuild@7} One: 1, Re8: 1, Re128: 2, It2: 2, It3: 3);
groups!(g, r);
