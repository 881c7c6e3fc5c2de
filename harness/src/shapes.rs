//! The enums every generic harness is instantiated with, and the reference model.
//!
//! The reference model of a set is `[u64; W]`: bit `d` of it says whether the variant with
//! discriminant `d` is a member. Discriminants come from rustc's own `as` cast, not from enumset.

use crate::rt::*;
use enumset::*;

/// An enum under test whose largest discriminant is below `64 * W`.
pub trait Shape<const W: usize>: EnumSetType + core::fmt::Debug + 'static {
    /// The `i`th variant in declaration order. (Not a table: Kani cannot compile tables of ZSTs.)
    fn var(i: usize) -> Self;
    /// The discriminants, in declaration order.
    const DISCS: &'static [u32];
    /// The bits that belong to a variant.
    const MASK: [u64; W];
    /// The largest discriminant.
    const MAX: u32;
    /// rustc's discriminant of this variant.
    fn disc(self) -> u32;
}

pub const fn mask_of<const W: usize>(discs: &[u32]) -> [u64; W] {
    let mut m = [0; W];
    let mut i = 0;
    while i < discs.len() {
        m[(discs[i] / 64) as usize] |= 1u64 << (discs[i] % 64);
        i += 1;
    }
    m
}
pub const fn max_of(discs: &[u32]) -> u32 {
    let mut m = 0;
    let mut i = 0;
    while i < discs.len() {
        if discs[i] > m {
            m = discs[i];
        }
        i += 1;
    }
    m
}

#[macro_export]
macro_rules! shape {
    ($(#[$a:meta])* $name:ident : $w:tt { $($v:ident = $d:tt),* $(,)? }) => {
        #[derive(EnumSetType, Debug)]
        $(#[$a])*
        pub enum $name { $($v = $d),* }
        $crate::shape_impl!($name : $w { $($v),* });
    };
    ($(#[$a:meta])* $name:ident : $w:tt { $($v:ident),* $(,)? }) => {
        #[derive(EnumSetType, Debug)]
        $(#[$a])*
        pub enum $name { $($v),* }
        $crate::shape_impl!($name : $w { $($v),* });
    };
}
#[macro_export]
macro_rules! shape_impl {
    ($name:ident : $w:tt { $($v:ident),* }) => {
        impl $crate::shapes::Shape<$w> for $name {
            #[inline(always)]
            fn var(i: usize) -> Self {
                let k = 0usize;
                $(if i == k { return $name::$v; } let k = k + 1;)*
                unreachable!()
            }
            const DISCS: &'static [u32] = &[$($name::$v as u32),*];
            const MASK: [u64; $w] =
                $crate::shapes::mask_of::<$w>(<Self as $crate::shapes::Shape<$w>>::DISCS);
            const MAX: u32 = $crate::shapes::max_of(<Self as $crate::shapes::Shape<$w>>::DISCS);
            #[inline(always)]
            fn disc(self) -> u32 { self as u32 }
        }
    };
}

// One variant: a zero-sized enum.
shape!(One: 1 { A });
shape!(OneHi: 2 { A = 77 });
// u8 storage: dense (all bits valid), and sparse, out of order.
shape!(Dense8: 1 { A, B, C, D, E, F, G, H });
shape!(#[repr(u8)] Sparse8: 1 { E = 5, A = 0, H = 7, C = 2 });
// u16, u32, u64 storage.
shape!(#[repr(u16)] Sparse16: 1 { P = 15, A = 0, I = 8, B = 1, H = 7 });
shape!(#[repr(i32)] Sparse32: 1 { B = 1, Z = 31, Q = 16, P = 15, A = 0, R = 30 });
shape!(#[repr(u64)] Sparse64: 1 { A = 3, Z = 63, M = 32, L = 31, Y = 62 });
shape!(Dense64: 1 {
    A0, A1, A2, A3, A4, A5, A6, A7, B0, B1, B2, B3, B4, B5, B6, B7,
    C0, C1, C2, C3, C4, C5, C6, C7, D0, D1, D2, D3, D4, D5, D6, D7,
    E0, E1, E2, E3, E4, E5, E6, E7, F0, F1, F2, F3, F4, F5, F6, F7,
    G0, G1, G2, G3, G4, G5, G6, G7, H0, H1, H2, H3, H4, H5, H6, H7,
});
// Explicit storage types, some wider than needed.
shape!(#[enumset(repr = "u8")] Rep8: 1 { A = 6, B = 1, C = 4, D = 7, E = 0 });
shape!(#[enumset(repr = "u16")] Rep16: 1 { A = 13, B = 1, C = 4, D = 7, E = 8, F = 15 });
shape!(#[enumset(repr = "u32")] Rep32: 1 { A = 9, B = 0, C = 17, D = 24 });
shape!(#[enumset(repr = "u32")] Rep32Full: 1 { A = 31, B = 0, C = 17, D = 24 });
shape!(#[enumset(repr = "u64")] Rep64: 1 { A = 40, B = 0, C = 63, D = 24, E = 32 });
shape!(#[enumset(repr = "u128")] Rep128: 2 { A = 127, B = 0, C = 63, D = 64, E = 100, F = 65 });
shape!(#[enumset(repr = "u128")] Rep128Lo: 1 { A = 2, B = 0, C = 63, D = 40 });
shape!(#[enumset(repr = "u128")] Rep128Mid: 2 { A = 90, B = 63, C = 3, D = 64 });
// Array storage of one to five words.
shape!(#[enumset(repr = "array")] Arr1: 1 { A = 63, B = 0, C = 31, D = 40 });
shape!(Arr2: 2 { A = 127, B = 64, C = 63, D = 1, E = 100 });
shape!(#[repr(isize)] Arr2Edge: 2 { A = 64, B = 0, C = 63 });
shape!(Arr3: 3 { A = 191, B = 128, C = 0, D = 127, E = 64, F = 63, G = 70 });
shape!(#[repr(u16)] Arr5: 5 { A = 319, B = 256, C = 255, D = 64, E = 3, F = 128, G = 200, H = 300 });
// Words without variants: above an empty gap, below, and everything in the last word.
shape!(Pair127: 2 { A = 0, B = 127 });
shape!(HiOnly: 3 { A = 191, B = 128, C = 150 });
shape!(Gap4: 4 { A = 255, B = 0, C = 192, D = 63 });
// Discriminants that agree modulo 64 and modulo 256.
shape!(#[repr(i16)] Twin: 5 { A = 1, B = 257, C = 65, D = 129, E = 0, F = 256 });
// More words, and more variants than a byte counts.
shape!(Eight: 8 { A = 511, B = 448, C = 447, D = 0, E = 256, F = 320, G = 383, H = 65 });
include!("huge.rs");

// Further than 256 words.
shape!(Far: 260 { A = 16639, B = 16384, C = 16383, D = 64, E = 0 });

// Few variants spread over several words: their iterators can be exhausted cheaply.
shape!(It2: 2 { A = 127, B = 64, C = 63 });
shape!(It3: 3 { A = 191, B = 64, C = 63, D = 0 });
shape!(It5: 5 { A = 319, B = 130, C = 3, D = 257 });

pub fn word(d: u32) -> usize {
    (d / 64) as usize
}
pub fn has<const W: usize>(m: &[u64; W], d: u32) -> bool {
    (m[word(d)] >> (d % 64)) & 1 != 0
}
pub fn with<const W: usize>(mut m: [u64; W], d: u32) -> [u64; W] {
    m[word(d)] |= 1u64 << (d % 64);
    m
}
pub fn without<const W: usize>(mut m: [u64; W], d: u32) -> [u64; W] {
    m[word(d)] &= !(1u64 << (d % 64));
    m
}
pub fn zip<const W: usize>(a: &[u64; W], b: &[u64; W], f: impl Fn(u64, u64) -> u64) -> [u64; W] {
    let mut r = [0; W];
    let mut i = 0;
    while i < W {
        r[i] = f(a[i], b[i]);
        i += 1;
    }
    r
}
pub fn eqw<const W: usize>(a: &[u64; W], b: &[u64; W]) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < W {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}
pub fn zero<const W: usize>(a: &[u64; W]) -> bool {
    eqw(a, &[0; W])
}
pub fn count<const W: usize>(a: &[u64; W]) -> u32 {
    let mut r = 0;
    let mut i = 0;
    while i < W {
        r += a[i].count_ones();
        i += 1;
    }
    r
}

/// An arbitrary valid set of `E`, as a model.
pub fn any_model<E: Shape<W>, const W: usize>() -> [u64; W] {
    let mut m = [0; W];
    let mut i = 0;
    while i < W {
        m[i] = any::<u64>() & E::MASK[i];
        i += 1;
    }
    m
}
/// Any word array, valid or not.
pub fn any_words<const W: usize>() -> [u64; W] {
    let mut m = [0; W];
    let mut i = 0;
    while i < W {
        m[i] = any::<u64>();
        i += 1;
    }
    m
}
/// The set a model describes. Only valid bits are passed, as the function's contract requires.
pub fn build<E: Shape<W>, const W: usize>(m: &[u64; W]) -> EnumSet<E> {
    unsafe { EnumSet::from_array_unchecked::<W>(*m) }
}
/// An arbitrary valid set and its model.
pub fn any_set<E: Shape<W>, const W: usize>() -> (EnumSet<E>, [u64; W]) {
    let m = any_model::<E, W>();
    (build::<E, W>(&m), m)
}
/// An arbitrary variant.
pub fn any_var<E: Shape<W>, const W: usize>() -> E {
    let i: usize = any();
    assume(i < E::DISCS.len());
    E::var(i)
}
/// The set is exactly the one the model describes, as far as any observer can tell.
pub fn same<E: Shape<W>, const W: usize>(s: EnumSet<E>, m: &[u64; W]) -> bool {
    let v = any_var::<E, W>();
    s.contains(v) == has(m, v.disc()) && eqw(&s.as_array_truncated::<W>(), m)
}

/// The lowest and highest member of a model.
pub fn lowest<const W: usize>(m: &[u64; W]) -> Option<u32> {
    let mut i = 0;
    while i < W {
        if m[i] != 0 {
            return Some(64 * i as u32 + m[i].trailing_zeros());
        }
        i += 1;
    }
    None
}
pub fn highest<const W: usize>(m: &[u64; W]) -> Option<u32> {
    let mut i = W;
    while i > 0 {
        i -= 1;
        if m[i] != 0 {
            return Some(64 * i as u32 + 63 - m[i].leading_zeros());
        }
    }
    None
}
/// The number of members, counted out over the declared variants.
pub fn size<E: Shape<W>, const W: usize>(m: &[u64; W]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < E::DISCS.len() {
        n += has(m, E::DISCS[i]) as usize;
        i += 1;
    }
    n
}
pub fn is_disc<E: Shape<W>, const W: usize>(x: Option<E>, d: Option<u32>) -> bool {
    match (x, d) {
        (None, None) => true,
        (Some(v), Some(d)) => v.disc() == d,
        _ => false,
    }
}
