//! C06: iterators report an exact length, are fused, clone independently, and every adaptor that
//! an iterator may override agrees with stepping.
use crate::{rt::*, shapes::*, *};
use enumset::*;

/// After any number of steps from either end, the reported length is exact.
fn exact<E: Shape<W>, const W: usize>() {
    let (a, mut m) = any_set::<E, W>();
    let mut it = a.iter();
    repeat!(E::DISCS.len() + 1, {
        let n = size::<E, W>(&m);
        check!(it.len() == n, "len() is the number of elements left");
        check!(it.size_hint() == (n, Some(n)), "size_hint() is exact");
        let x = if any::<bool>() { it.next_back() } else { it.next() };
        check!(x.is_some() == (n != 0), "the iterator ends exactly when its length is zero");
        if let Some(v) = x {
            m = without(m, v.disc());
        }
    });
    check!(it.len() == 0, "an exhausted iterator has length zero");
    check!(it.next().is_none() && it.next_back().is_none(), "an exhausted iterator stays exhausted");
    check!(it.size_hint() == (0, Some(0)), "an exhausted iterator's size_hint is zero");
    reach!();
}
/// The first steps on enums with many variants; the length is counted by popcount here.
fn exact_prefix<E: Shape<W>, const W: usize>() {
    let (a, mut m) = any_set::<E, W>();
    let mut it = a.iter();
    check!(it.len() == count(&m) as usize, "len() is the number of elements left");
    let x = if any::<bool>() { it.next_back() } else { it.next() };
    check!(x.is_none() == zero(&m), "the iterator ends exactly when nothing is left");
    if let Some(v) = x {
        check!(has(&m, v.disc()), "an element of the set");
        m = without(m, v.disc());
    }
    check!(it.len() == count(&m) as usize, "len() is the number of elements left");
    reach!();
}
/// Before the first step, and after one from sets that lack at most one variant.
fn crowded<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    check!(a.iter().len() == count(&m) as usize, "len() is the number of elements left");
    let v = any_var::<E, W>();
    let m = without(E::MASK, v.disc());
    let mut it = build::<E, W>(&m).iter();
    let n = E::DISCS.len() - 1;
    check!(it.size_hint() == (n, Some(n)), "size_hint() is exact");
    let x = if any::<bool>() { it.next_back() } else { it.next() };
    check!(x.is_some() == (n != 0), "the iterator ends exactly when nothing is left");
    let left = n - x.is_some() as usize;
    check!(it.len() == left, "len() is the number of elements left");
    reach!();
}
/// A clone taken anywhere continues on its own, and so does the original.
fn clones<E: Shape<W>, const W: usize>() {
    let (a, mut m) = any_set::<E, W>();
    let mut it = a.iter();
    repeat!(2, {
        let x = if any::<bool>() { it.next_back() } else { it.next() };
        if let Some(v) = x {
            m = without(m, v.disc());
        }
    });
    let mut cl = it.clone();
    check!(cl.len() == it.len(), "a clone has as many elements left");
    let mut mc = m;
    repeat!(2, {
        let x = it.next();
        check!(is_disc(x, lowest(&m)), "the original goes on where it was");
        if let Some(v) = x {
            m = without(m, v.disc());
        }
        let y = cl.next_back();
        check!(is_disc(y, highest(&mc)), "the clone goes on where the original was");
        if let Some(v) = y {
            mc = without(mc, v.disc());
        }
    });
    // the set itself is not consumed
    check!(is_disc(a.iter().next(), lowest(&(any_model_of(&a)))), "the set is unaffected by iteration");
    reach!();
}
fn any_model_of<E: Shape<W>, const W: usize>(a: &EnumSet<E>) -> [u64; W] {
    a.as_array_truncated::<W>()
}
/// An iterator somewhere in the middle of an arbitrary set, and what it has left.
fn midway<E: Shape<W>, const W: usize>() -> (EnumSetIter<E>, [u64; W]) {
    let (a, m) = any_set::<E, W>();
    let mut it = a.iter();
    let mut left = m;
    if any::<bool>() {
        if let Some(v) = it.next() {
            left = without(left, v.disc());
        }
    }
    (it, left)
}
fn drop_lowest<const W: usize>(m: [u64; W]) -> [u64; W] {
    lowest(&m).map_or(m, |d| without(m, d))
}
fn drop_highest<const W: usize>(m: [u64; W]) -> [u64; W] {
    highest(&m).map_or(m, |d| without(m, d))
}
/// Provided iterator methods agree with stepping by next()/next_back().
fn nth<E: Shape<W>, const W: usize>() {
    let (it, left) = midway::<E, W>();
    let (mut lo, mut hi) = (left, left);
    macro_rules! at {
        ($k:literal) => {
            let mut f = it.clone();
            check!(is_disc(f.nth($k), lowest(&lo)), "nth(k) is the k-th lowest element left");
            lo = drop_lowest(lo);
            check!(is_disc(f.next(), lowest(&lo)), "nth(k) consumes what it skips, and no more");
            let mut b = it.clone();
            check!(is_disc(b.nth_back($k), highest(&hi)), "nth_back(k) is the k-th highest element left");
            hi = drop_highest(hi);
            check!(is_disc(b.next_back(), highest(&hi)), "nth_back(k) consumes what it skips, and no more");
        };
    }
    at!(0);
    at!(1);
    at!(2);
    reach!();
}
fn ends<E: Shape<W>, const W: usize>() {
    let (it, left) = midway::<E, W>();
    let n = size::<E, W>(&left);
    check!(it.clone().count() == n, "count() is the number of elements left");
    check!(is_disc(it.clone().last(), highest(&left)), "last() is the highest element left");
    check!(is_disc(it.clone().rev().next(), highest(&left)), "rev() starts from the highest element");
    check!(is_disc(it.rev().last(), lowest(&left)), "rev() ends with the lowest element");
    reach!();
}
fn folds<E: Shape<W>, const W: usize>() {
    let (it, left) = midway::<E, W>();
    let mut todo = left;
    it.clone().for_each(|v| {
        check!(lowest(&todo) == Some(v.disc()), "for_each visits the elements in ascending order");
        todo = without(todo, v.disc());
    });
    check!(zero(&todo), "for_each visits every element left");
    let rest = it.rfold(left, |todo, v| {
        check!(highest(&todo) == Some(v.disc()), "rfold visits the elements in descending order");
        without(todo, v.disc())
    });
    check!(zero(&rest), "rfold visits every element left");
    let (a, mut m) = any_set::<E, W>();
    for v in a {
        check!(lowest(&m) == Some(v.disc()), "a for loop visits the elements in ascending order");
        m = without(m, v.disc());
    }
    check!(zero(&m), "a for loop visits every element");
    reach!();
}
/// Searching, skipping and stepping agree with stepping by next()/next_back().
fn searches<E: Shape<W>, const W: usize>() {
    let (it, left) = midway::<E, W>();
    let v = any_var::<E, W>();
    let (mut below, mut above) = (left, left);
    let mut before = 0;
    repeat!(3, {
        if let Some(d) = lowest(&below) {
            if d < v.disc() {
                below = without(below, d);
                before += 1;
            }
        }
        if let Some(d) = highest(&above) {
            if d > v.disc() {
                above = without(above, d);
            }
        }
    });
    // now `below` has no element below v, and `above` none above it
    let there = has(&left, v.disc());
    check!(it.clone().any(|x| x == v) == there, "any() looks at every element left");
    check!(it.clone().all(|x| x != v) != there, "all() looks at every element left");
    let mut f = it.clone();
    check!(f.find(|x| *x == v).is_some() == there, "find() looks at every element left");
    let rest = if there { without(below, v.disc()) } else { [0; W] };
    check!(is_disc(f.next(), lowest(&rest)), "find() stops after the element found");
    let mut b = it.clone();
    check!(b.rfind(|x| *x == v).is_some() == there, "rfind() looks at every element left");
    let rest = if there { without(above, v.disc()) } else { [0; W] };
    check!(is_disc(b.next_back(), highest(&rest)), "rfind() stops after the element found");
    check!(it.clone().position(|x| x == v) == if there { Some(before) } else { None }, "position() counts from the front");
    let second = drop_lowest(left);
    check!(is_disc(it.clone().skip(1).next(), lowest(&second)), "skip(1) starts from the second element");
    check!(it.clone().skip(1).len() == size::<E, W>(&second), "skip(1) has one element less");
    let mut s = it.clone().step_by(2);
    check!(is_disc(s.next(), lowest(&left)), "step_by(2) starts from the first element");
    check!(is_disc(s.next(), lowest(&drop_lowest(second))), "step_by(2) goes on with the third");
    check!(it.clone().take(1).count() == (lowest(&left).is_some() as usize), "take(1) takes one element");
    let back = it.rev().nth(1);
    check!(is_disc(back, highest(&drop_highest(left))), "rev().nth(1) is the second from the back");
    reach!();
}
inst!(s1 {searches@6} One: 1, Sparse8: 1, Rep32: 1);
inst!(s2 {searches@6} It2: 2, OneHi: 2);
inst!(w1 {exact@7, clones@4, nth@6, ends@6, folds@6} One: 1, Sparse8: 1, Sparse64: 1, Rep32: 1, Arr1: 1);
inst!(w2 {exact@6, clones@4, nth@6, ends@6, folds@6} OneHi: 2, It2: 2, Arr2Edge: 2);
inst!(r2 {exact@8, clones@4} Rep128Mid: 2);
inst!(w3 {exact@6, clones@5} It3: 3);
inst!(w5 {clones@7} It5: 5);
inst!(big {exact_prefix@7} Dense64: 1, Arr2: 2, Arr3: 3, Arr5: 5, HiOnly: 3, Twin: 5);
inst!(h {crowded@7} Huge: 5);
inst!(w8 {exact_prefix@10, crowded@10} Eight: 8);
groups!(s1, s2, w1, w2, r2, w3, w5, big, h, w8);
