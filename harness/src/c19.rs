//! C19: `serialize_deny_unknown` refuses exactly the inputs with unknown bits.
use crate::{mock::*, rt::*, shapes::*, *};
use enumset::*;
use serde::Serialize;

fn wide<const W: usize>(m: &[u64; W]) -> u128 {
    m[0] as u128 | if W > 1 { (m[W.min(2) - 1] as u128) << 64 } else { 0 }
}
fn words<const W: usize>(x: u128) -> [u64; W] {
    let mut m = [0; W];
    m[0] = x as u64;
    if W > 1 {
        m[W.min(2) - 1] = (x >> 64) as u64;
    }
    m
}
/// The width of the integer this enum's sets are serialized as.
pub trait AsInt<const W: usize>: Shape<W> {
    const KIND: u8;
    const BITS: u32;
}
fn integer<E: AsInt<W>, const W: usize>() {
    let v: u128 = any();
    let json: bool = any();
    assume(!json || E::BITS <= 64);
    assume(if json { v >> 64 == 0 } else { E::BITS == 128 || v >> (E::BITS % 128) == 0 });
    let (got, _) = if json {
        read_scalar::<EnumSet<E>>(U64, v)
    } else {
        read_scalar::<EnumSet<E>>(E::KIND, v)
    };
    let ok = v & !wide(&E::MASK) == 0;
    match got {
        Ok(s) => {
            check!(ok, "an integer with a bit that has no variant is an error");
            check!(same(s, &words::<W>(v)), "an accepted integer is the set of its bits");
        }
        Err(_) => check!(!ok, "an integer without unknown bits deserializes"),
    }
    reach!();
}
fn integer_roundtrip<E: AsInt<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut log = Log::new(usize::MAX);
    let r = a.serialize(Whole(&mut log));
    check!(r.is_ok() && log.kind == E::KIND, "a set is one integer of its serialized width");
    match read_scalar::<EnumSet<E>>(log.kind, log.val).0 {
        Ok(b) => check!(same(b, &m), "a serialized set deserializes to itself"),
        Err(_) => check!(false, "a serialized set deserializes"),
    }
    reach!();
}
fn array<E: Shape<W>, const W: usize>() {
    let input = any_input(W + 2);
    let o = read_compound::<EnumSet<E>>(SEQ, &input);
    let mut ok = true;
    let mut m = [0; W];
    let mut i = 0;
    while i < W + 2 {
        if i < input.n {
            let x = input.item[i] as u64;
            if i < W {
                m[i] = x;
                ok &= x & !E::MASK[i] == 0;
            } else {
                ok &= x == 0;
            }
        }
        i += 1;
    }
    match o.got {
        Ok(s) => {
            check!(ok, "a word with a bit that has no variant is an error");
            check!(o.at_end && o.read == input.n, "the whole sequence is consumed");
            check!(same(s, &m), "an accepted sequence is the set of its bits");
        }
        Err(_) => check!(!ok, "a sequence without unknown bits deserializes"),
    }
    reach!();
}
fn array_roundtrip<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut log = Log::new(usize::MAX);
    let r = a.serialize(Whole(&mut log));
    check!(r.is_ok() && log.kind == SEQ, "a set is a sequence");
    let mut input = any_input(0);
    input.n = log.n;
    let mut i = 0;
    while i < W + 1 {
        input.item[i] = log.item[i].1;
        i += 1;
    }
    match read_compound::<EnumSet<E>>(SEQ, &input).got {
        Ok(b) => check!(same(b, &m), "a serialized set deserializes to itself"),
        Err(_) => check!(false, "a serialized set deserializes"),
    }
    reach!();
}
macro_rules! int_shape {
    ($kind:ident $bits:tt, $(#[$a:meta])* $name:ident : $w:tt { $($v:ident = $d:tt),* }) => {
        shape!($(#[$a])* $name: $w { $($v = $d),* });
        impl AsInt<$w> for $name {
            const KIND: u8 = $kind;
            const BITS: u32 = $bits;
        }
    };
}
int_shape!(U8 8, #[enumset(serialize_deny_unknown)] D8: 1 { A = 7, B = 0, C = 3 });
int_shape!(U8 8, #[enumset(serialize_deny_unknown)] D8Lo: 1 { A = 0, B = 1 });
int_shape!(U16 16, #[enumset(serialize_deny_unknown)] D16: 1 { A = 12, B = 0, C = 3 });
int_shape!(U32 32, #[enumset(serialize_deny_unknown)] D32: 1 { A = 31, B = 16, C = 3 });
int_shape!(U64 64, #[enumset(serialize_deny_unknown)] D64: 1 { A = 63, B = 32, C = 0 });
int_shape!(U128 128, #[enumset(repr = "u128", serialize_deny_unknown)] D128: 2 { A = 127, B = 64, C = 63 });
int_shape!(U128 128, #[enumset(serialize_deny_unknown)] DArr128: 2 { A = 127, B = 64, C = 63 });
int_shape!(U128 128, #[enumset(serialize_deny_unknown)] DArr70: 2 { A = 70, B = 1 });
int_shape!(U64 64, #[enumset(serialize_repr = "u64", serialize_deny_unknown)] D8S64: 1 { A = 7, B = 0, C = 3 });
int_shape!(U128 128, #[enumset(serialize_repr = "u128", serialize_deny_unknown)] D32S128: 1 { A = 20, B = 31 });
int_shape!(U8 8, #[enumset(repr = "u64", serialize_repr = "u8", serialize_deny_unknown)] D64S8: 1 { A = 6, B = 0 });
int_shape!(U32 32, #[enumset(repr = "array", serialize_repr = "u32", serialize_deny_unknown)] DArrS32: 1 { A = 30, B = 0 });
int_shape!(U8 8, #[enumset(repr = "array", serialize_deny_unknown)] DArr8: 1 { A = 5, B = 0 });
shape!(#[enumset(serialize_repr = "array", serialize_deny_unknown)] A8: 1 { A = 7, B = 0, C = 3 });
shape!(#[enumset(serialize_repr = "array", serialize_deny_unknown)] A64: 1 { A = 63, B = 0, C = 3 });
shape!(#[enumset(repr = "array", serialize_repr = "array", serialize_deny_unknown)] A1: 1 { A = 60, B = 0 });
shape!(#[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)] A128: 2 { A = 127, B = 64, C = 3 });
shape!(#[enumset(serialize_repr = "array", serialize_deny_unknown)] A2: 2 { A = 100, B = 64, C = 3 });
shape!(#[enumset(serialize_deny_unknown)] A3: 3 { A = 190, B = 64, C = 63, D = 1 });
shape!(#[enumset(serialize_deny_unknown)] A4: 4 { A = 250, B = 64, C = 130, D = 1 });
inst!(i {integer@6, integer_roundtrip@6}
    D8: 1, D8Lo: 1, D16: 1, D32: 1, D64: 1, D128: 2, DArr128: 2, DArr70: 2, D8S64: 1, D32S128: 1, D64S8: 1,
    DArrS32: 1, DArr8: 1);
inst!(a1 {array@6, array_roundtrip@6} A8: 1, A64: 1, A1: 1);
inst!(a2 {array@7, array_roundtrip@7} A128: 2, A2: 2);
inst!(a3 {array@8, array_roundtrip@8} A3: 3);
inst!(a4 {array@9, array_roundtrip@9} A4: 4);
groups!(i, a1, a2, a3, a4);
