//! C14: the const macros agree with the runtime operators.
use crate::{rt::*, shapes::*, *};
use enumset::*;

// The macros call inherent methods the derive generates on each enum, so each harness body is
// expanded once per concrete enum.
macro_rules! of {
    ($($f:ident $e:ident $w:literal;)*) => {$(
        fn $f() {
            type S = EnumSet<$e>;
            let (a, ma) = any_set::<$e, $w>();
            let (b, mb) = any_set::<$e, $w>();
            let (c, mc) = any_set::<$e, $w>();
            let v = any_var::<$e, $w>();
            let u = any_var::<$e, $w>();
            let (mv, mu) = (with([0; $w], v.disc()), with([0; $w], u.disc()));
            let or = |x: &[u64; $w], y: &[u64; $w]| zip(x, y, |p, q| p | q);
            let and = |x: &[u64; $w], y: &[u64; $w]| zip(x, y, |p, q| p & q);
            let sub = |x: &[u64; $w], y: &[u64; $w]| zip(x, y, |p, q| p & !q);
            let xor = |x: &[u64; $w], y: &[u64; $w]| zip(x, y, |p, q| p ^ q);

            let none: S = enum_set!();
            check!(same(none, &[0; $w]), "enum_set!() is empty");
            check!(same(enum_set!(v), &mv), "enum_set!(v) holds just v");
            check!(same(enum_set!(v | u), &or(&mv, &mu)), "enum_set!(v | u) holds just v and u");
            check!(same(enum_set!(v | u | v |), &or(&mv, &mu)), "a trailing | changes nothing");
            check!(same(enum_set!(a | u | b), &or(&or(&ma, &mu), &mb)), "enum_set! takes sets and elements");
            check!(same(enum_set_union!(a, b, c), &or(&or(&ma, &mb), &mc)), "enum_set_union! is the union of all");
            check!(same(enum_set_union!(v, a), &or(&ma, &mv)), "enum_set_union! takes elements first");
            check!(same(enum_set_union!(a,), &ma), "enum_set_union! of one set is that set");
            check!(same(enum_set_intersection!(a, b, c), &and(&and(&ma, &mb), &mc)),
                "enum_set_intersection! is the intersection of all");
            check!(same(enum_set_intersection!(v, a), &and(&mv, &ma)), "enum_set_intersection! takes elements");
            check!(same(enum_set_difference!(a, b, c), &sub(&sub(&ma, &mb), &mc)),
                "enum_set_difference! removes every further operand");
            check!(same(enum_set_difference!(a, v), &sub(&ma, &mv)), "enum_set_difference! takes elements");
            check!(same(enum_set_difference!(v, u), &sub(&mv, &mu)), "enum_set_difference! of elements");
            check!(same(enum_set_symmetric_difference!(a, b, c), &xor(&xor(&ma, &mb), &mc)),
                "enum_set_symmetric_difference! is the symmetric difference of all");
            check!(same(enum_set_symmetric_difference!(a, v), &xor(&ma, &mv)),
                "enum_set_symmetric_difference! takes elements");
            check!(same(enum_set_union!(v, a, b, c, u), &or(&or(&or(&ma, &mb), &mc), &or(&mv, &mu))),
                "enum_set_union! of five");
            check!(same(enum_set_intersection!(a, b, c, v), &and(&and(&and(&ma, &mb), &mc), &mv)),
                "enum_set_intersection! of four");
            check!(same(enum_set_difference!(a, b, v, c, u), &sub(&sub(&sub(&sub(&ma, &mb), &mv), &mc), &mu)),
                "enum_set_difference! of five");
            check!(same(enum_set_symmetric_difference!(a, b, c, v, u), &xor(&xor(&xor(&xor(&ma, &mb), &mc), &mv), &mu)),
                "enum_set_symmetric_difference! of five");
            check!(same(enum_set_intersection!(a), &ma) && same(enum_set_difference!(a), &ma)
                && same(enum_set_symmetric_difference!(a), &ma), "each macro of one set is that set");
            let mask = <$e as Shape<$w>>::MASK;
            check!(same(enum_set_complement!(a), &sub(&mask, &ma)), "enum_set_complement! is the complement");
            check!(same(enum_set_complement!(v), &sub(&mask, &mv)), "enum_set_complement! takes an element");
            reach!();
        }
    )*};
}
of! {
    one One 1;
    one_hi OneHi 2;
    dense8 Dense8 1;
    sparse8 Sparse8 1;
    sparse16 Sparse16 1;
    sparse32 Sparse32 1;
    sparse64 Sparse64 1;
    dense64 Dense64 1;
    rep16 Rep16 1;
    rep128 Rep128 2;
    rep128mid Rep128Mid 2;
    arr1 Arr1 1;
    arr2 Arr2 2;
    arr3 Arr3 3;
    arr5 Arr5 5;
    pair127 Pair127 2;
    hi_only HiOnly 3;
    gap4 Gap4 4;
    twin Twin 5;
    eight Eight 8;
}
/// The macros evaluated by the compiler, not at run time.
fn constants() {
    const A: EnumSet<Arr3> = enum_set!(Arr3::A | Arr3::C | Arr3::F);
    const B: EnumSet<Arr3> = enum_set!(Arr3::C | Arr3::D);
    const U: EnumSet<Arr3> = enum_set_union!(A, B, Arr3::G);
    const I: EnumSet<Arr3> = enum_set_intersection!(A, B);
    const D: EnumSet<Arr3> = enum_set_difference!(A, B);
    const X: EnumSet<Arr3> = enum_set_symmetric_difference!(A, B);
    const C: EnumSet<Arr3> = enum_set_complement!(A);
    let v = any_var::<Arr3, 3>();
    let (a, b) = (matches!(v, Arr3::A | Arr3::C | Arr3::F), matches!(v, Arr3::C | Arr3::D));
    check!(A.contains(v) == a && B.contains(v) == b, "const enum_set!");
    check!(U.contains(v) == (a || b || v == Arr3::G), "const enum_set_union!");
    check!(I.contains(v) == (a && b), "const enum_set_intersection!");
    check!(D.contains(v) == (a && !b), "const enum_set_difference!");
    check!(X.contains(v) == (a != b), "const enum_set_symmetric_difference!");
    check!(C.contains(v) == !a, "const enum_set_complement!");
    const P: EnumSet<Rep128> = enum_set!(Rep128::A | Rep128::D);
    const Q: EnumSet<Rep128> = enum_set_complement!(P);
    let v = any_var::<Rep128, 2>();
    check!(P.contains(v) == matches!(v, Rep128::A | Rep128::D), "const enum_set!");
    check!(Q.contains(v) != P.contains(v), "const enum_set_complement!");
    reach!();
}
/// The macros named by their path, with nothing of the crate in scope but what they take.
mod by_path {
    use crate::{check, reach, rt::*, shapes::{any_set, any_var, same, with, zip, Shape, Arr2, Rep16}};
    macro_rules! of {
        ($($f:ident $e:ident $w:literal;)*) => {$(
            pub fn $f() {
                let (a, ma) = any_set::<$e, $w>();
                let (b, mb) = any_set::<$e, $w>();
                let v = any_var::<$e, $w>();
                let none: enumset::EnumSet<$e> = enumset::enum_set!();
                let nothing: enumset::EnumSet<$e> = enumset::enum_set!(|);
                let mask = <$e as Shape<$w>>::MASK;
                let or = zip(&ma, &mb, |p, q| p | q);
                let and = zip(&ma, &mb, |p, q| p & q);
                let sub = zip(&ma, &mb, |p, q| p & !q);
                let xor = zip(&ma, &mb, |p, q| p ^ q);
                check!(same(none, &[0; $w]), "enum_set!() is empty");
                check!(same(nothing, &[0; $w]), "enum_set!(|) is empty");
                check!(same(enumset::enum_set!(v), &with([0; $w], v.disc())), "enum_set!(v) holds just v");
                check!(same(enumset::enum_set!(a | b), &or), "enum_set!(a | b) is the union");
                check!(same(enumset::enum_set_union!(a, b), &or), "enum_set_union! is the union");
                check!(same(enumset::enum_set_intersection!(a, b), &and), "enum_set_intersection! is the intersection");
                check!(same(enumset::enum_set_difference!(a, b), &sub), "enum_set_difference! is the difference");
                check!(same(enumset::enum_set_symmetric_difference!(a, b), &xor), "enum_set_symmetric_difference!");
                check!(same(enumset::enum_set_complement!(a), &zip(&mask, &ma, |p, q| p & !q)), "enum_set_complement!");
                reach!();
            }
        )*};
    }
    of! { path_int Rep16 1; path_arr Arr2 2; }
}
use by_path::*;
/// The macros in a crate that imports enumset under another name.
fn renamed_constants() {
    use renamed::Array;
    let i: u8 = any();
    assume(i < 3);
    let v = [Array::A, Array::B, Array::C][i as usize];
    let (a, b, c) = (v == Array::A, v == Array::B, v == Array::C);
    check!(!renamed::NONE.contains(v), "const enum_set!() is empty");
    check!(renamed::SOME.contains(v) == (a || b), "const enum_set!");
    check!(renamed::UNION.contains(v), "const enum_set_union!");
    check!(renamed::INTERSECTION.contains(v) == b, "const enum_set_intersection!");
    check!(renamed::DIFFERENCE.contains(v) == b, "const enum_set_difference!");
    check!(renamed::SYMMETRIC_DIFFERENCE.contains(v), "const enum_set_symmetric_difference!");
    check!(renamed::COMPLEMENT.contains(v) == c, "const enum_set_complement!");
    reach!();
}
plain!(m path_int@8, path_arr@8, one@8, one_hi@8, dense8@8, sparse8@8, sparse16@8, sparse32@8, sparse64@8, dense64@8, rep16@8, rep128@8,
    rep128mid@8, arr1@8, arr2@8, arr3@8, arr5@8, pair127@8, hi_only@8, gap4@8, twin@8,
    eight@10, constants@8, renamed_constants@8);
groups!(m);
