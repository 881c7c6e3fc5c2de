//! C11: the declared representation is the in-memory representation.
use crate::{rt::*, shapes::*, *};
use enumset::*;

/// The integer type named in `#[enumset(repr = "...")]`.
pub trait Int: Copy + Eq + 'static {
    fn any() -> Self;
    fn wide(self) -> u128;
    fn narrow(x: u128) -> Self;
    fn be(self) -> [u8; 16];
}
macro_rules! int { ($($t:ty)*) => {$(impl Int for $t {
    fn any() -> Self { crate::rt::any() }
    fn wide(self) -> u128 { self as u128 }
    fn narrow(x: u128) -> Self { x as $t }
    fn be(self) -> [u8; 16] { (self as u128).to_le_bytes() }
})*} }
int!(u8 u16 u32 u64 u128);

fn mask<E: Shape<W>, const W: usize>() -> u128 {
    E::MASK[0] as u128 | if W > 1 { (E::MASK[W.min(2) - 1] as u128) << 64 } else { 0 }
}
fn wide<const W: usize>(m: &[u64; W]) -> u128 {
    m[0] as u128 | if W > 1 { (m[W.min(2) - 1] as u128) << 64 } else { 0 }
}
fn words<const W: usize>(x: u128) -> [u64; W] {
    let mut m = [0; W];
    m[0] = x as u64;
    if W > 1 {
        m[W.min(2) - 1] = (x >> 64) as u64;
    }
    m
}

macro_rules! repr_harnesses {
    ($($name:ident $bad:ident $t:ty;)*) => {$(
        fn $name<E: Shape<W> + EnumSetTypeWithRepr<Repr = $t>, const W: usize>() {
            let (a, m) = any_set::<E, W>();
            check!(a.as_repr().wide() == wide(&m), "as_repr is the exact numeric value");
            check!(core::mem::size_of::<EnumSet<E>>() == core::mem::size_of::<$t>(), "the set has its repr's size");
            check!(core::mem::align_of::<EnumSet<E>>() == core::mem::align_of::<$t>(), "the set has its repr's alignment");
            // as foreign code would see it
            let raw: $t = unsafe { core::mem::transmute_copy(&a) };
            check!(raw.wide() == wide(&m), "in memory, the set is its numeric value");
            let back: EnumSet<E> = unsafe { core::mem::transmute_copy(&raw) };
            check!(same(back, &m), "a valid integer is, in memory, the set of its bits");

            let x = <$t as Int>::any();
            let ok = x.wide() & !mask::<E, W>() == 0;
            match EnumSet::<E>::try_from_repr(x) {
                None => check!(!ok, "try_from_repr accepts every value of declared bits"),
                Some(s) => {
                    check!(ok, "try_from_repr refuses undeclared bits");
                    check!(same(s, &words::<W>(x.wide())), "try_from_repr yields exactly the variants of the set bits");
                    check!(s.as_repr() == x, "as_repr(try_from_repr(x)) is x");
                }
            }
            let t = EnumSet::<E>::from_repr_truncated(x);
            check!(same(t, &words::<W>(x.wide() & mask::<E, W>())), "from_repr_truncated keeps exactly the declared bits");
            if ok {
                check!(same(EnumSet::<E>::from_repr(x), &words::<W>(x.wide())), "from_repr accepts every valid value");
                let u = unsafe { EnumSet::<E>::from_repr_unchecked(x) };
                check!(same(u, &words::<W>(x.wide())), "from_repr_unchecked of a valid value is exact");
            }
            check!(same(EnumSet::<E>::from_repr(a.as_repr()), &m), "from_repr(as_repr(set)) is the set");
            reach!();
        }
        fn $bad<E: Shape<W> + EnumSetTypeWithRepr<Repr = $t>, const W: usize>() {
            let x = <$t as Int>::any();
            assume(x.wide() & !mask::<E, W>() != 0);
            must_panic!(EnumSet::<E>::from_repr(x), "from_repr on a value with a bit that has no variant");
        }
    )*};
}
repr_harnesses! {
    r8 panics_8 u8;
    r16 panics_16 u16;
    r32 panics_32 u32;
    r64 panics_64 u64;
    r128 panics_128 u128;
}
// No variants at the top: a value with the highest bit set is always refused.
shape!(#[enumset(repr = "u8")] Low8: 1 { A, B });
shape!(#[enumset(repr = "u16")] Low16: 1 { A = 0, B = 9 });
shape!(#[enumset(repr = "u64")] Low64: 1 { A = 33, B = 1 });
shape!(#[enumset(repr = "u8")] Full8: 1 { A, B, C, D, E, F, G, H });
shape!(#[enumset(repr = "u64")] One64: 1 { A = 5 });
inst!(g8 {r8@4} Rep8: 1, Low8: 1, Full8: 1);
inst!(p8 {panics_8@4} Rep8: 1, Low8: 1);
inst!(g16 {r16@4, panics_16@4} Rep16: 1, Low16: 1);
inst!(g32 {r32@4, panics_32@4} Rep32: 1, Rep32Full: 1);
inst!(g64 {r64@4, panics_64@4} Rep64: 1, Low64: 1, One64: 1);
inst!(g128 {r128@4, panics_128@4} Rep128: 2, Rep128Lo: 1, Rep128Mid: 2);
groups!(g8, p8, g16, g32, g64, g128);
