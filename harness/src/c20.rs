//! C20: a failing format, or malformed input, is an error and nothing else.
use crate::{mock::*, rt::*, shapes::*, *};
use enumset::*;
use serde::{Deserialize, Serialize};

/// The format fails at an arbitrary call: serializing reports that, and nothing is written after.
fn write_fails<E: Shape<W>, const W: usize>() {
    let (a, _) = any_set::<E, W>();
    let mut log = Log::new(any());
    let r = a.serialize(Whole(&mut log));
    check!(r.is_err() == log.failed(), "serializing fails iff the format does");
    if r.is_ok() {
        check!(log.ended, "serializing succeeds only once everything is written");
    } else {
        check!(log.calls == log.fail_at + 1, "serializing stops at the first failure");
    }
    reach!();
}
/// The input of a sequence or a map fails while an arbitrary entry is read.
fn read_fails<E: Shape<W>, const W: usize, const KIND: u8>() {
    let mut input = any_input(LEN);
    let mut i = 0;
    while i < LEN {
        // only well-formed entries, but for the one that fails
        input.item[i] = any_var::<E, W>().disc() as u128;
        i += 1;
    }
    input.fail_at = any();
    input.bad_at = any();
    let o = read_compound::<EnumSet<E>>(KIND, &input);
    check!(o.got.is_err() == o.failed, "deserializing fails iff the input does");
    if o.got.is_ok() {
        check!(o.at_end && o.read == input.n, "deserializing succeeds only once everything is read");
        check!(input.fail_at > input.n && input.bad_at >= input.n, "no failure goes unnoticed");
    }
    reach!();
}
const LEN: usize = 4;
fn list_fails<E: Shape<W>, const W: usize>() {
    read_fails::<E, W, SEQ>()
}
fn map_fails<E: Shape<W>, const W: usize>() {
    read_fails::<E, W, MAP>()
}
/// A sequence of words that fails while an arbitrary word is read.
fn words_fail<E: Shape<W>, const W: usize>() {
    fail_words::<E, W>(any_input(W + 2))
}
fn known_words_fail<E: Shape<W>, const W: usize>() {
    let mut input = any_input(W + 2);
    let mut i = 0;
    while i < W + 2 {
        input.item[i] = if i < W { input.item[i] & E::MASK[i] as u128 } else { 0 };
        i += 1;
    }
    fail_words::<E, W>(input)
}
fn fail_words<E: Shape<W>, const W: usize>(mut input: Input) {
    input.fail_at = any();
    input.bad_at = any();
    let o = read_compound::<EnumSet<E>>(SEQ, &input);
    check!(o.got.is_err() == o.failed, "deserializing fails iff the input does");
    if o.got.is_ok() {
        check!(o.at_end && o.read == input.n, "deserializing succeeds only once everything is read");
        check!(input.fail_at > input.n && input.bad_at >= input.n, "no failure goes unnoticed");
    }
    reach!();
}
/// Input of an arbitrary kind.
fn junk<E: Shape<W>, const W: usize>(right: &[u8]) {
    let input = any_input(2);
    let kind: u8 = any();
    assume(kind <= JUNK);
    let got: Result<EnumSet<E>, Fail> = EnumSet::<E>::deserialize(In(Junk { kind, input: &input }));
    if let Ok(s) = got {
        let w = s.as_array_truncated::<W>();
        let i: usize = any();
        assume(i < W);
        check!(w[i] & !E::MASK[i] == 0, "whatever is deserialized is a set of declared variants");
        let mut expected = false;
        let mut j = 0;
        while j < right.len() {
            expected |= right[j] == kind;
            j += 1;
        }
        check!(expected, "input of another kind is an error");
    }
    reach!();
}
fn junk_int<E: Shape<W>, const W: usize>() {
    junk::<E, W>(&[9])
}
fn junk_seq<E: Shape<W>, const W: usize>() {
    junk::<E, W>(&[0])
}
fn junk_map<E: Shape<W>, const W: usize>() {
    junk::<E, W>(&[1])
}
macro_rules! sshape {
    ($(#[$a:meta])* $name:ident : $w:tt { $($v:ident = $d:tt),* }) => {
        shape!($(#[$a])* $name: $w { $($v = $d),* });
        serde_enum!($name { $($v),* });
    };
}
shape!(#[enumset(serialize_deny_unknown)] Deny8: 1 { A = 7, B = 0, C = 3 });
shape!(#[enumset(serialize_repr = "array")] W8: 1 { A = 7, B = 0, C = 3 });
shape!(#[enumset(serialize_repr = "array", serialize_deny_unknown)] W8Deny: 1 { A = 7, B = 0, C = 3 });
shape!(#[enumset(repr = "u128", serialize_repr = "array")] W128: 2 { A = 127, B = 64, C = 63, D = 1 });
shape!(#[enumset(serialize_repr = "array", serialize_deny_unknown)] A2Deny: 2 { A = 127, B = 64, C = 3 });
sshape!(#[enumset(serialize_repr = "list")] L8: 1 { A = 7, B = 0, C = 3 });
sshape!(#[enumset(serialize_repr = "list")] La4: 4 { A = 200, B = 3, C = 130 });
sshape!(#[enumset(serialize_repr = "map")] M8: 1 { A = 7, B = 0, C = 3 });
sshape!(#[enumset(serialize_repr = "map")] Ma4: 4 { A = 200, B = 3, C = 130 });
inst!(int {write_fails@6, junk_int@6} One: 1, Sparse8: 1, Sparse64: 1, Deny8: 1);
inst!(wide {write_fails@6} Rep128: 2, Arr2: 2);
inst!(arr {write_fails@8, words_fail@8, junk_seq@8} W8: 1, W128: 2, Arr3: 3);
inst!(words {known_words_fail@8, junk_seq@8} W8Deny: 1, A2Deny: 2);
inst!(list {write_fails@8, list_fails@8, junk_seq@8} L8: 1, La4: 4);
inst!(map {write_fails@8, map_fails@8, junk_map@8} M8: 1, Ma4: 4);
groups!(int, wide, arr, words, list, map);
