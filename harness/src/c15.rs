//! C15: sets serialized as integers.
use crate::{mock::*, rt::*, shapes::*, *};
use enumset::*;
use serde::Serialize;

/// The width of the integer this enum's sets are serialized as.
pub trait AsInt<const W: usize>: Shape<W> {
    const KIND: u8;
}
pub fn bits_of(kind: u8) -> u32 {
    match kind {
        U8 => 8,
        U16 => 16,
        U32 => 32,
        U64 => 64,
        _ => 128,
    }
}
pub fn wide<const W: usize>(m: &[u64; W]) -> u128 {
    m[0] as u128 | if W > 1 { (m[W.min(2) - 1] as u128) << 64 } else { 0 }
}
pub fn words<const W: usize>(x: u128) -> [u64; W] {
    let mut m = [0; W];
    m[0] = x as u64;
    if W > 1 {
        m[W.min(2) - 1] = (x >> 64) as u64;
    }
    m
}
fn serialize<E: AsInt<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut log = Log::new(usize::MAX);
    let r = a.serialize(Whole(&mut log));
    check!(r.is_ok() && log.ended, "serializing succeeds if the format does");
    check!(log.calls == 1 && log.kind == E::KIND, "a set is one integer of its serialized width");
    check!(log.val == wide(&m), "a set is serialized as its numeric value");
    let (back, asked) = read_scalar::<EnumSet<E>>(log.kind, log.val);
    check!(asked == E::KIND, "the integer is read back as the type it was written as");
    match back {
        Ok(b) => check!(same(b, &m), "a serialized set deserializes to itself"),
        Err(_) => check!(false, "a serialized set deserializes"),
    }
    reach!();
}
/// Any integer of the right width, as a binary format would present it, or as JSON would.
fn deserialize<E: AsInt<W>, const W: usize>() {
    let v: u128 = any();
    let json: bool = any();
    let bits = bits_of(E::KIND);
    assume(!json || bits <= 64);
    assume(if json { v >> 64 == 0 } else { bits == 128 || v >> (bits % 128) == 0 });
    // (two calls, so that the kind is a constant in each)
    let (got, asked) = if json {
        read_scalar::<EnumSet<E>>(U64, v)
    } else {
        read_scalar::<EnumSet<E>>(E::KIND, v)
    };
    check!(asked == E::KIND, "a set is deserialized as one integer of its serialized width");
    let fits = bits == 128 || v >> (bits % 128) == 0;
    match got {
        Ok(s) => {
            check!(fits, "an integer too large for the serialized width is an error");
            check!(
                same(s, &words::<W>(v & wide(&E::MASK))),
                "deserializing keeps exactly the bits that belong to a variant"
            );
        }
        Err(_) => check!(!fits, "any integer of the serialized width deserializes"),
    }
    reach!();
}

macro_rules! as_int { ($($e:ident : $w:tt = $k:ident),* $(,)?) => {
    $(impl AsInt<$w> for $e { const KIND: u8 = $k; })*
} }
shape!(#[enumset(serialize_repr = "u64")] B8S64: 1 { A = 7, B = 0, C = 3 });
shape!(#[enumset(serialize_repr = "u128")] B8S128: 1 { A = 1, B = 5 });
shape!(#[enumset(serialize_repr = "u16")] B8S16: 1 { A = 7, B = 4 });
shape!(#[enumset(repr = "u64", serialize_repr = "u8")] B64S8: 1 { A = 7, B = 4, C = 0 });
shape!(#[enumset(repr = "u128", serialize_repr = "u32")] B128S32: 1 { A = 31, B = 4, C = 0 });
shape!(#[enumset(repr = "array", serialize_repr = "u32")] ArrS32: 1 { A = 31, B = 4, C = 0 });
shape!(#[enumset(repr = "array")] ArrDef: 1 { A = 7, B = 4, C = 0 });
shape!(#[enumset(repr = "u128", serialize_repr = "u128")] B128S128: 2 { A = 127, B = 64, C = 63, D = 0 });
shape!(At8: 1 { A = 8, B = 0 });
shape!(At15: 1 { A = 15, B = 2 });
shape!(At16: 1 { A = 16, B = 0 });
shape!(At32: 1 { A = 32, B = 31 });
shape!(#[enumset(repr = "u64")] Wide8: 1 { A = 7, B = 0 });
as_int! {
    One: 1 = U8, OneHi: 2 = U128, Dense8: 1 = U8, Sparse8: 1 = U8, Sparse16: 1 = U16, Sparse32: 1 = U32,
    Sparse64: 1 = U64, Rep128: 2 = U128, Rep128Lo: 1 = U64, Rep128Mid: 2 = U128, Arr1: 1 = U64, Arr2: 2 = U128,
    Arr2Edge: 2 = U128, B8S64: 1 = U64, B8S128: 1 = U128, B8S16: 1 = U16, B64S8: 1 = U8, B128S32: 1 = U32,
    ArrS32: 1 = U32, ArrDef: 1 = U8, B128S128: 2 = U128, At8: 1 = U16, At15: 1 = U16, At16: 1 = U32, At32: 1 = U64,
    Wide8: 1 = U8,
}
inst!(g {serialize@6, deserialize@6}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep128: 2, Rep128Lo: 1,
    Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr2Edge: 2, B8S64: 1, B8S128: 1, B8S16: 1, B64S8: 1, B128S32: 1, ArrS32: 1,
    ArrDef: 1, B128S128: 2, At8: 1, At15: 1, At16: 1, At32: 1, Wide8: 1);
groups!(g);
