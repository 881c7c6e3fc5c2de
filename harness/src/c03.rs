//! C03: a set only ever holds declared variants.
use crate::{rt::*, shapes::*, *};
use enumset::*;

fn valid<E: Shape<W>, const W: usize>(s: EnumSet<E>) -> bool {
    // every word, including any beyond the last variant
    let w = s.as_array_truncated::<8>();
    let mut ok = true;
    let mut i = 0;
    while i < 8 {
        ok &= w[i] & !(if i < W { E::MASK[i] } else { 0 }) == 0;
        i += 1;
    }
    ok
}

/// all() holds every variant and nothing else; counts agree.
fn all<E: Shape<W>, const W: usize>() {
    let all = EnumSet::<E>::all();
    check!(same(all, &E::MASK), "all() holds exactly the declared variants");
    check!(valid::<E, W>(all), "all() has no stray bits");
    let v = any_var::<E, W>();
    check!(all.contains(v), "all() contains every variant");
    check!(all.len() == E::DISCS.len(), "all() has as many elements as the enum has variants");
    check!(
        EnumSet::<E>::variant_count() as usize == E::DISCS.len(),
        "variant_count() is the number of variants"
    );
    check!(!EnumSet::<E>::empty().contains(v), "empty() contains no variant");
    reach!();
}

/// No safe operation on valid sets, and no safe constructor on any input, yields a stray bit.
fn closed<E: Shape<W>, const W: usize>() {
    let (a, _) = any_set::<E, W>();
    let (b, _) = any_set::<E, W>();
    let v = any_var::<E, W>();
    let x: u128 = any();
    let words = any_words::<4>();
    let len: usize = any();
    assume(len <= 4);
    let op: u8 = any();
    assume(op < 34);
    let mut m = a;
    let r = match op {
        0 => Some(a | b),
        1 => Some(a & b),
        2 => Some(a - b),
        3 => Some(a ^ b),
        4 => Some(!a),
        5 => Some(a.complement()),
        6 => {
            m.insert(v);
            Some(m)
        }
        7 => {
            m.remove(v);
            Some(m)
        }
        8 => {
            m.insert_all(b);
            Some(m)
        }
        9 => {
            m.remove_all(b);
            Some(m)
        }
        10 => Some(EnumSet::only(v)),
        11 => Some(a ^ v),
        12 => EnumSet::try_from_u8(x as u8),
        13 => EnumSet::try_from_u16(x as u16),
        14 => EnumSet::try_from_u32(x as u32),
        15 => EnumSet::try_from_u64(x as u64),
        16 => EnumSet::try_from_u128(x),
        17 => EnumSet::try_from_usize(x as usize),
        18 => Some(EnumSet::from_u8_truncated(x as u8)),
        19 => Some(EnumSet::from_u16_truncated(x as u16)),
        20 => Some(EnumSet::from_u32_truncated(x as u32)),
        21 => Some(EnumSet::from_u64_truncated(x as u64)),
        22 => Some(EnumSet::from_u128_truncated(x)),
        23 => Some(EnumSet::from_usize_truncated(x as usize)),
        24 => EnumSet::try_from_array([words[0]]),
        25 => EnumSet::try_from_array(words),
        26 => Some(EnumSet::from_array_truncated([words[0], words[1]])),
        27 => Some(EnumSet::from_array_truncated(words)),
        28 => EnumSet::try_from_slice(&words[..len]),
        29 => Some(EnumSet::from_slice_truncated(&words[..len])),
        30 => Some([a, b].into_iter().collect()),
        31 => Some([a, b].into_iter().sum()),
        32 => Some(a.union(b).symmetrical_difference(EnumSet::all())),
        _ => Some(EnumSet::new()),
    };
    if let Some(r) = r {
        check!(valid::<E, W>(r), "no safe operation puts an undeclared bit into a set");
    }
    reach!();
}
/// What iteration yields from an arbitrary set is a declared variant.
fn yields<E: Shape<W>, const W: usize>() {
    let (a, _) = any_set::<E, W>();
    let mut it = a.iter();
    let x = if any::<bool>() { it.next() } else { it.next_back() };
    if let Some(v) = x {
        let d = v.disc();
        let mut declared = false;
        let mut i = 0;
        while i < E::DISCS.len() {
            declared |= E::DISCS[i] == d;
            i += 1;
        }
        check!(declared, "iteration yields declared variants");
    }
    reach!();
}
inst!(g {all@9, closed@10}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep8: 1, Rep16: 1,
    Rep32: 1, Rep64: 1, Rep128: 2, Rep128Lo: 1, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr3: 3,
    Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
inst!(big {all@66, closed@10} Dense64: 1, Arr5: 5, Eight: 8);
inst!(iter {yields@10} OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse64: 1, Rep128: 2, Arr2: 2, Arr3: 3, Arr5: 5,
    HiOnly: 3, Twin: 5);
inst!(huge {all@302} Huge: 5);
groups!(g, big, iter, huge);
