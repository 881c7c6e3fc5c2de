//! C24: after any history of operations, a set is what the history says.
use crate::{rt::*, shapes::*, *};
use enumset::*;

const STEPS: usize = if cfg!(feature = "thorough") { 6 } else { 3 };

fn mutate<E: Shape<W>, const W: usize>(s: &mut EnumSet<E>, m: [u64; W]) -> [u64; W] {
    let v = any_var::<E, W>();
    let one = with([0; W], v.disc());
    let (b, mb) = any_set::<E, W>();
    let op: u8 = any();
    match op {
        0 => {
            check!(s.insert(v) == !has(&m, v.disc()), "insert's result, anywhere in a history");
            zip(&m, &one, |x, y| x | y)
        }
        1 => {
            check!(s.remove(v) == has(&m, v.disc()), "remove's result, anywhere in a history");
            zip(&m, &one, |x, y| x & !y)
        }
        2 => {
            s.insert_all(b);
            zip(&m, &mb, |x, y| x | y)
        }
        3 => {
            s.remove_all(b);
            zip(&m, &mb, |x, y| x & !y)
        }
        4 => {
            s.clear();
            [0; W]
        }
        5 => {
            *s |= b;
            zip(&m, &mb, |x, y| x | y)
        }
        6 => {
            *s &= b;
            zip(&m, &mb, |x, y| x & y)
        }
        7 => {
            *s -= b;
            zip(&m, &mb, |x, y| x & !y)
        }
        8 => {
            *s ^= b;
            zip(&m, &mb, |x, y| x ^ y)
        }
        9 => {
            *s = !*s;
            zip(&m, &E::MASK, |x, y| y & !x)
        }
        10 => {
            *s ^= v;
            zip(&m, &one, |x, y| x ^ y)
        }
        11 => {
            *s = s.complement().symmetrical_difference(b);
            zip(&zip(&m, &E::MASK, |x, y| y & !x), &mb, |x, y| x ^ y)
        }
        12 => {
            s.extend(Some(v));
            zip(&m, &one, |x, y| x | y)
        }
        13 => {
            // there and back through the array form
            *s = EnumSet::from_array(s.as_array::<W>());
            m
        }
        _ => {
            *s = EnumSet::only(v).union(*s).difference(b);
            zip(&zip(&m, &one, |x, y| x | y), &mb, |x, y| x & !y)
        }
    }
}
fn history<E: Shape<W>, const W: usize>() {
    let (mut s, mut m) = if any::<bool>() { any_set::<E, W>() } else { (EnumSet::new(), [0; W]) };
    repeat!(STEPS, {
        m = mutate(&mut s, m);
    });
    check!(same(s, &m), "the set after a history");
    check!(s.len() == count(&m) as usize, "its size after a history");
    check!(s.is_empty() == zero(&m), "its emptiness after a history");
    check!(is_disc(s.iter().next(), lowest(&m)), "its first element after a history");
    check!(is_disc(s.iter().next_back(), highest(&m)), "its last element after a history");
    reach!();
}
inst!(g {history@8}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Dense64: 1,
    Rep16: 1, Rep128: 2, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr3: 3, Arr5: 5,
    HiOnly: 3, Twin: 5);
groups!(g);
