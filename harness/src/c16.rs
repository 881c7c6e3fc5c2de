//! C16: sets serialized as arrays of 64-bit words.
use crate::{mock::*, rt::*, shapes::*, *};
use enumset::*;
use serde::Serialize;

pub fn input_word(input: &Input, i: usize) -> u64 {
    if i < input.n && i < CAP {
        input.item[i] as u64
    } else {
        0
    }
}
fn serialize<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut log = Log::new(usize::MAX);
    let r = a.serialize(Whole(&mut log));
    check!(r.is_ok() && log.ended, "serializing succeeds if the format does");
    check!(log.kind == SEQ, "a set is a sequence");
    check!(log.hint.map_or(true, |h| h == log.n), "the announced length is the number of words");
    check!(log.n <= W + 1, "no more words than the set's storage");
    let i: usize = any();
    assume(i < CAP);
    check!(
        if i < log.n {
            log.item[i] == (U64, if i < W { m[i] as u128 } else { 0 })
        } else {
            i >= W || m[i] == 0
        },
        "the words are the array representation; only trailing zeros are left out"
    );
    reach!();
}
/// Any sequence of words, shorter, longer, or with bits that have no variant.
fn deserialize<E: Shape<W>, const W: usize>() {
    let input = any_input(W + 2);
    let o = read_compound::<EnumSet<E>>(SEQ, &input);
    check!(o.asked == SEQ, "a set is deserialized as a sequence");
    check!(o.at_end && o.read == input.n, "the whole sequence is consumed");
    match o.got {
        Err(_) => check!(false, "any sequence of words deserializes"),
        Ok(s) => {
            let mut m = [0; W];
            let mut i = 0;
            while i < W {
                m[i] = input_word(&input, i) & E::MASK[i];
                i += 1;
            }
            check!(same(s, &m), "deserializing keeps exactly the bits that belong to a variant");
        }
    }
    reach!();
}
fn roundtrip<E: Shape<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut log = Log::new(usize::MAX);
    let r = a.serialize(Whole(&mut log));
    check!(r.is_ok(), "serializing succeeds if the format does");
    let mut input = any_input(0);
    input.n = log.n;
    let mut i = 0;
    while i < W + 1 {
        input.item[i] = log.item[i].1;
        i += 1;
    }
    let o = read_compound::<EnumSet<E>>(SEQ, &input);
    match o.got {
        Ok(b) => check!(same(b, &m), "a serialized set deserializes to itself"),
        Err(_) => check!(false, "a serialized set deserializes"),
    }
    reach!();
}
shape!(#[enumset(serialize_repr = "array")] W8: 1 { A = 7, B = 0, C = 3 });
shape!(#[enumset(serialize_repr = "array")] W16: 1 { A = 15, B = 0, C = 3 });
shape!(#[enumset(serialize_repr = "array")] W32: 1 { A = 31, B = 16, C = 3 });
shape!(#[enumset(serialize_repr = "array")] W64: 1 { A = 63, B = 32, C = 3 });
shape!(#[enumset(repr = "u64", serialize_repr = "array")] Wide8: 1 { A = 6, B = 1 });
shape!(#[enumset(repr = "u128", serialize_repr = "array")] W128: 2 { A = 127, B = 64, C = 63, D = 1 });
shape!(#[enumset(repr = "array", serialize_repr = "array")] A1: 1 { A = 60, B = 0 });
shape!(#[enumset(serialize_repr = "array")] A2: 2 { A = 100, B = 64, C = 63, D = 1 });
shape!(#[enumset(serialize_repr = "array")] Z1: 1 { A = 4 });
shape!(At128: 3 { A = 128, B = 64, C = 63 });
inst!(w1 {serialize@6, deserialize@6, roundtrip@6} W8: 1, W16: 1, W32: 1, W64: 1, Wide8: 1, A1: 1, Z1: 1);
inst!(w2 {serialize@7, deserialize@7, roundtrip@7} W128: 2, A2: 2);
inst!(w3 {serialize@8, deserialize@8, roundtrip@8} Arr3: 3, At128: 3, HiOnly: 3);
inst!(w5 {serialize@10, deserialize@10, roundtrip@10} Arr5: 5, Gap4: 4);
groups!(w1, w2, w3, w5);
