//! C13: what the derive macro generates agrees with the enum's definition.
use crate::{rt::*, shapes::*, *};
use enumset::*;

/// A variant is the bit of its discriminant, in every observable way.
fn bits<E: Shape<W>, const W: usize>() {
    let v = any_var::<E, W>();
    let one = with([0; W], v.disc());
    let s = EnumSet::only(v);
    check!(same(s, &one), "a variant is stored in the bit of its discriminant");
    let w = s.as_array::<8>();
    let i: usize = any();
    assume(i < 8);
    check!(
        w[i] == if i == (v.disc() / 64) as usize { 1u64 << (v.disc() % 64) } else { 0 },
        "variant d is bit d % 64 of word d / 64"
    );
    if v.disc() < 128 {
        check!(s.as_u128() == 1u128 << v.disc(), "variant d is bit d of the numeric value");
    }
    // and back, through iteration
    check!(is_disc(s.iter().next(), Some(v.disc())), "the bit of a variant iterates as that variant");
    let u = any_var::<E, W>();
    check!((u == v) == (u.disc() == v.disc()), "variants are equal iff they are the same");
    check!(v.clone().disc() == v.disc(), "cloning a variant gives that variant");
    reach!();
}
fn constants<E: Shape<W>, const W: usize>() {
    check!(EnumSet::<E>::bit_width() == E::MAX + 1, "bit_width is the highest discriminant plus one");
    check!(EnumSet::<E>::variant_count() as usize == E::DISCS.len(), "variant_count is the number of variants");
    check!(same(EnumSet::<E>::all(), &E::MASK), "all() is exactly the declared variants");
    check!(
        core::mem::size_of::<EnumSet<E>>() * 8 >= EnumSet::<E>::bit_width() as usize,
        "the storage has a bit for every variant"
    );
    #[allow(deprecated)]
    {
        check!(same(EnumSet::<E>::ALL, &E::MASK), "ALL is exactly the declared variants");
        check!(same(EnumSet::<E>::EMPTY, &[0; W]), "EMPTY is empty");
    }
    reach!();
}
inst!(g {bits@9, constants@9}
    One: 1, OneHi: 2, Dense8: 1, Sparse8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep8: 1,
    Rep16: 1, Rep32: 1, Rep32Full: 1, Rep64: 1, Rep128: 2, Rep128Lo: 1, Rep128Mid: 2, Arr1: 1, Arr2: 2, Arr2Edge: 2,
    Arr3: 3, Arr5: 5, Pair127: 2, HiOnly: 3, Gap4: 4, Twin: 5);
inst!(w8 {bits@10, constants@10} Eight: 8);

// Every way of giving discriminants, and every boundary of the storage types.
shape!(Mixed: 1 { A = 10, B = 11, C = 3, D = 4 });
#[derive(EnumSetType, Debug)]
pub enum Implicit {
    A = 10,
    B,
    C = 0x3,
    D,
    E = 0b1_1110,
    F,
    G = 0o77,
}
shape_impl!(Implicit : 1 { A, B, C, D, E, F, G });
#[derive(EnumSetType, Debug)]
#[repr(i8)]
pub enum Signed8 {
    Top = 127,
    Zero = 0,
    One,
    Mid = 64,
}
shape_impl!(Signed8 : 2 { Top, Zero, One, Mid });
#[derive(EnumSetType, Debug)]
#[repr(u8)]
pub enum Byte {
    Top = 255,
    A = 128,
    Zero = 0,
    B = 127,
}
shape_impl!(Byte : 4 { Top, A, Zero, B });
#[derive(EnumSetType, Debug)]
#[repr(C)]
pub enum ReprC {
    A = 8,
    B = 7,
    C = 0,
}
shape_impl!(ReprC : 1 { A, B, C });
#[derive(EnumSetType, Debug)]
#[repr(i128)]
pub enum Wide {
    A = 16,
    B = 15,
    C = 2,
}
shape_impl!(Wide : 1 { A, B, C });
shape!(At8: 1 { A = 8, B = 0 });
shape!(At16: 1 { A = 16, B = 15 });
shape!(At32: 1 { A = 32, B = 31 });
shape!(Word64: 1 { A = 63, B = 62 });
shape!(At128: 3 { A = 128, B = 127, C = 0 });
shape!(At192: 4 { A = 192, B = 191 });
shape!(#[enumset(repr = "array")] ForcedArr: 1 { A = 0, B = 1, C = 7 });
shape!(#[enumset(no_ops)] NoOps: 1 { A = 4, B = 2, C = 0 });
#[derive(EnumSetType, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[enumset(no_super_impls)]
pub enum NoSuper {
    A = 20,
    B = 2,
    C = 7,
}
shape_impl!(NoSuper : 1 { A, B, C });
inst!(d {bits@9, constants@9}
    Mixed: 1, Implicit: 1, Signed8: 2, Byte: 4, ReprC: 1, Wide: 1, At8: 1, At16: 1, At32: 1, Word64: 1, At128: 3,
    At192: 4, ForcedArr: 1, NoOps: 1, NoSuper: 1);

// Whatever the enum and its variants are called: names that generated code might use too.
shape!(Names: 1 { Output = 3, Repr = 0, Error = 5, Value = 9, Ok = 1, Item = 30, None = 17 });
macro_rules! named {
    ($($m:ident $e:ident $(#[$a:meta])*;)*) => {$(
        mod $m {
            use enumset::EnumSetType;
            crate::shape!($(#[$a])* $e: 1 { Output = 2, $e = 0, Error = 5 });
            impl serde::Serialize for $e {
                fn serialize<X: serde::Serializer>(&self, ser: X) -> Result<X::Ok, X::Error> {
                    ser.serialize_unit()
                }
            }
            impl<'de> serde::Deserialize<'de> for $e {
                fn deserialize<X: serde::Deserializer<'de>>(_: X) -> Result<Self, X::Error> {
                    Err(serde::de::Error::custom("not used"))
                }
            }
        }
    )*};
}
named! {
    plain_o O;
    plain_t T #[enumset(repr = "u16")];
    plain_e E #[enumset(repr = "array")];
    plain_into Into;
    list_s S #[enumset(serialize_repr = "list")];
    list_a A #[enumset(serialize_repr = "list", serialize_deny_unknown)];
    map_visitor Visitor #[enumset(serialize_repr = "map")];
    map_d D #[enumset(serialize_repr = "map")];
    array_a A #[enumset(serialize_repr = "array", serialize_deny_unknown)];
    array_visitor Visitor #[enumset(serialize_repr = "array")];
    int_d D #[enumset(serialize_repr = "u8", serialize_deny_unknown)];
    int_s S #[enumset(serialize_repr = "u32")];
}
type NamedO = plain_o::O;
type NamedT = plain_t::T;
type NamedE = plain_e::E;
// Another name for the crate, in a crate that has neither `enumset` nor the standard library.
mod other_name {
    use renamed::*;
    crate::shape_impl!(Default: 1 { A, B, C });
    crate::shape_impl!(Forced: 1 { A, B, C });
    crate::shape_impl!(Array: 3 { A, B, C });
    crate::shape_impl!(ForcedArray: 1 { A, B, C });
}
type OtherDefault = renamed::Default;
type OtherForced = renamed::Forced;
type OtherArray = renamed::Array;
type OtherForcedArray = renamed::ForcedArray;
inst!(r {bits@9, constants@9} OtherDefault: 1, OtherForced: 1, OtherArray: 3, OtherForcedArray: 1);
inst!(n {bits@9, constants@9} Names: 1, NamedO: 1, NamedT: 1, NamedE: 1);

// rustc's own discriminants of the implicit ones, written out.
fn implicit_discriminants() {
    let v = any_var::<Implicit, 1>();
    let want: u64 = match v {
        Implicit::A => 10,
        Implicit::B => 11,
        Implicit::C => 3,
        Implicit::D => 4,
        Implicit::E => 30,
        Implicit::F => 31,
        Implicit::G => 63,
    };
    check!(EnumSet::only(v).as_u64() == 1 << want, "implicit discriminants follow the previous variant");
    reach!();
}

/// The operators on the enum itself agree with those on one-element sets.
pub trait Ops: EnumSetType
    + core::ops::BitOr<Self, Output = EnumSet<Self>>
    + core::ops::BitAnd<Self, Output = EnumSet<Self>>
    + core::ops::Sub<Self, Output = EnumSet<Self>>
    + core::ops::BitXor<Self, Output = EnumSet<Self>>
    + core::ops::BitOr<EnumSet<Self>, Output = EnumSet<Self>>
    + core::ops::BitAnd<EnumSet<Self>, Output = EnumSet<Self>>
    + core::ops::Sub<EnumSet<Self>, Output = EnumSet<Self>>
    + core::ops::BitXor<EnumSet<Self>, Output = EnumSet<Self>>
    + core::ops::Not<Output = EnumSet<Self>>
    + PartialEq<EnumSet<Self>>
{
}
impl<T> Ops for T where
    T: EnumSetType
        + core::ops::BitOr<Self, Output = EnumSet<Self>>
        + core::ops::BitAnd<Self, Output = EnumSet<Self>>
        + core::ops::Sub<Self, Output = EnumSet<Self>>
        + core::ops::BitXor<Self, Output = EnumSet<Self>>
        + core::ops::BitOr<EnumSet<Self>, Output = EnumSet<Self>>
        + core::ops::BitAnd<EnumSet<Self>, Output = EnumSet<Self>>
        + core::ops::Sub<EnumSet<Self>, Output = EnumSet<Self>>
        + core::ops::BitXor<EnumSet<Self>, Output = EnumSet<Self>>
        + core::ops::Not<Output = EnumSet<Self>>
        + PartialEq<EnumSet<Self>>
{
}
fn operators<E: Shape<W> + Ops, const W: usize>() {
    let u = any_var::<E, W>();
    let v = any_var::<E, W>();
    let (a, ma) = any_set::<E, W>();
    let (mu, mv) = (with([0; W], u.disc()), with([0; W], v.disc()));
    check!(same(u | v, &zip(&mu, &mv, |x, y| x | y)), "element | element");
    check!(same(u & v, &zip(&mu, &mv, |x, y| x & y)), "element & element");
    check!(same(u - v, &zip(&mu, &mv, |x, y| x & !y)), "element - element");
    check!(same(u ^ v, &zip(&mu, &mv, |x, y| x ^ y)), "element ^ element");
    check!(same(u | a, &zip(&mu, &ma, |x, y| x | y)), "element | set");
    check!(same(u & a, &zip(&mu, &ma, |x, y| x & y)), "element & set");
    check!(same(u - a, &zip(&mu, &ma, |x, y| x & !y)), "element - set");
    check!(same(u ^ a, &zip(&mu, &ma, |x, y| x ^ y)), "element ^ set");
    check!(same(!u, &zip(&mu, &E::MASK, |x, y| y & !x)), "!element is every other variant");
    check!((u == a) == eqw(&mu, &ma), "an element equals a set iff the set holds just it");
    check!((u != a) == !eqw(&mu, &ma), "an element differs from a set otherwise");
    reach!();
}
inst!(o {operators@42}
    One: 1, OneHi: 2, Dense8: 1, Sparse16: 1, Sparse32: 1, Sparse64: 1, Rep128: 2, Arr1: 1, Arr2: 2, Arr3: 3,
    Byte: 4, Names: 1, NamedO: 1);

/// An enum without variants has one set, the empty one.
#[derive(EnumSetType, Debug)]
pub enum Never {}
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u16")]
pub enum Never16 {}
#[derive(EnumSetType, Debug)]
#[enumset(repr = "array")]
pub enum NeverArr {}
fn uninhabited() {
    macro_rules! never {
        ($e:ty) => {{
            let e = EnumSet::<$e>::empty();
            let all = EnumSet::<$e>::all();
            check!(e == all, "with no variants, all() is empty()");
            check!(all.is_empty() && all.len() == 0, "with no variants, all() is empty");
            check!(EnumSet::<$e>::bit_width() == 0, "with no variants, bit_width is zero");
            check!(EnumSet::<$e>::variant_count() == 0, "with no variants, variant_count is zero");
            check!(!e == e, "with no variants, the complement of the empty set is empty");
            let x: u64 = any();
            check!(EnumSet::<$e>::from_u64_truncated(x) == e, "with no variants, every bit is truncated");
            check!(EnumSet::<$e>::try_from_u64(x).is_some() == (x == 0), "with no variants, no bit is valid");
            check!(EnumSet::<$e>::try_from_array([x, x]).is_some() == (x == 0), "with no variants, no bit is valid");
            check!(e.as_u64() == 0 && e.try_as_array::<0>().is_some(), "the empty set is zero");
            let mut it = e.iter();
            check!(it.len() == 0 && it.next().is_none() && it.next_back().is_none(), "nothing to iterate");
        }};
    }
    never!(Never);
    never!(Never16);
    never!(NeverArr);
    reach!();
}
plain!(plain implicit_discriminants@9, uninhabited@42);
groups!(g, w8, d, n, r, o, plain);
