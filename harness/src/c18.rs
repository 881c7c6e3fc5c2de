//! C18: sets serialized as maps from variants to booleans.
use crate::{mock::*, rt::*, shapes::*, *};
use enumset::*;
use serde::{Deserialize, Serialize};

/// A member's place in the map: the number of members below it.
pub fn rank<E: Shape<W>, const W: usize>(m: &[u64; W], d: u32) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < E::DISCS.len() {
        n += (E::DISCS[i] < d && has(m, E::DISCS[i])) as usize;
        i += 1;
    }
    n
}
fn serialize<E: Shape<W> + Serialize, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut log = Log::new(usize::MAX);
    let r = a.serialize(Whole(&mut log));
    check!(r.is_ok() && log.ended, "serializing succeeds if the format does");
    check!(log.kind == MAP, "a set is a map");
    check!(log.n == size::<E, W>(&m), "there is one entry per member");
    check!(log.hint.map_or(true, |h| h == log.n), "the announced length is the number of entries");
    let v = any_var::<E, W>();
    if has(&m, v.disc()) {
        check!(
            log.item[rank::<E, W>(&m, v.disc())] == (U32, v.disc() as u128),
            "every member is a key, in ascending order"
        );
        check!(log.value[rank::<E, W>(&m, v.disc())] == (BOOL, 1), "every member is mapped to true");
    }
    reach!();
}
/// Any map: in any order, with repetitions, with entries that are false, and with keys that are no variant.
fn deserialize<E: Shape<W> + Serialize + for<'a> Deserialize<'a>, const W: usize>() {
    let input = any_input(LEN);
    let mut m = [0; W];
    let mut bad = false;
    let mut i = 0;
    while i < LEN {
        if i < input.n {
            let d = input.item[i] as u32;
            if (d as usize) < 64 * W && has(&E::MASK, d) {
                if input.flag[i] {
                    m = with(m, d);
                }
            } else {
                bad = true;
            }
        }
        i += 1;
    }
    let o = read_compound::<EnumSet<E>>(MAP, &input);
    check!(o.asked == MAP, "a set is deserialized as a map");
    match o.got {
        Err(_) => check!(bad, "any map of variants deserializes"),
        Ok(s) => {
            check!(!bad, "a key that is no variant is an error");
            check!(o.at_end && o.read == input.n, "the whole map is consumed");
            check!(same(s, &m), "deserializing gives exactly the variants mapped to true");
        }
    }
    reach!();
}
/// Entries in the longest input.
const LEN: usize = if cfg!(feature = "thorough") { 6 } else { 4 };
fn roundtrip<E: Shape<W> + Serialize + for<'a> Deserialize<'a>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut log = Log::new(usize::MAX);
    let r = a.serialize(Whole(&mut log));
    check!(r.is_ok(), "serializing succeeds if the format does");
    let mut input = any_input(0);
    input.n = log.n;
    let mut i = 0;
    while i < E::DISCS.len() {
        input.item[i] = log.item[i].1;
        input.flag[i] = log.value[i].1 != 0;
        i += 1;
    }
    let o = read_compound::<EnumSet<E>>(MAP, &input);
    match o.got {
        Ok(b) => check!(same(b, &m), "a serialized set deserializes to itself"),
        Err(_) => check!(false, "a serialized set deserializes"),
    }
    reach!();
}
macro_rules! sshape {
    ($(#[$a:meta])* $name:ident : $w:tt { $($v:ident = $d:tt),* }) => {
        shape!($(#[$a])* $name: $w { $($v = $d),* });
        serde_enum!($name { $($v),* });
    };
}
sshape!(#[enumset(serialize_repr = "map")] M1: 1 { A = 3 });
sshape!(#[enumset(serialize_repr = "map")] M8: 1 { A = 7, B = 0, C = 3 });
sshape!(#[enumset(serialize_repr = "map")] M16: 1 { A = 0, B = 15, C = 8 });
sshape!(#[enumset(serialize_repr = "map")] M32: 1 { A = 31, B = 16, C = 15 });
sshape!(#[enumset(serialize_repr = "map")] M64: 1 { A = 63, B = 0, C = 32 });
sshape!(#[enumset(repr = "u128", serialize_repr = "map")] M128: 2 { A = 127, B = 63, C = 64 });
sshape!(#[enumset(serialize_repr = "map")] Ma2: 2 { A = 64, B = 100, C = 63 });
sshape!(#[enumset(serialize_repr = "map")] Ma4: 4 { A = 200, B = 3, C = 130 });
sshape!(#[enumset(serialize_as_map)] Old: 1 { A = 5, B = 0, C = 2 });
// More members than a byte of a set, in each word of an array.
sshape!(#[enumset(serialize_repr = "map")] Lots: 3 {
    A = 128, B = 0, C = 63, D = 64, E = 127, F = 17, G = 16, H = 190
});
inst!(lots {serialize@12} Lots: 3);
inst!(w1 {serialize@6, deserialize@9, roundtrip@6} M1: 1, M8: 1, M16: 1, M32: 1, M64: 1, Old: 1);
inst!(w2 {serialize@6, deserialize@9, roundtrip@6} M128: 2, Ma2: 2);
inst!(w4 {serialize@7, deserialize@9, roundtrip@7} Ma4: 4);
groups!(lots, w1, w2, w4);
