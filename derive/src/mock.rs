//! Stand-ins for what the derive macro is built on: `syn`'s syntax trees and `darling`'s attributes
//! (its input, which the harnesses make symbolic), and `quote!` (its output, of which the parts that
//! fix the layout of the set are recorded).

/// What is remembered of generated tokens.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Rec {
    /// an error was generated instead of code
    pub error: bool,
    /// the last integer type named, or `ARRAY`
    pub ty: u8,
    /// the last array length
    pub len: Option<u32>,
    /// the literals
    pub lits: [u64; 4],
    pub n_lits: usize,
    /// the integer type serde reads, or `LIST`, `MAP` or `WORDS`
    pub serde: u8,
}
/// The layout, as it was generated.
#[derive(Clone, Copy)]
pub struct Layout {
    pub repr: Option<Rec>,
    /// the storage named to the outside
    pub with_repr: Option<Rec>,
    pub all_bits: Option<Rec>,
    pub bit_width: Option<u32>,
    pub variant_count: Option<u32>,
    /// `VALUE => VARIANT` arms of the conversion from a number
    pub arm_values: [u32; 4],
    pub arm_names: [u8; 4],
    pub n_values: usize,
    pub n_names: usize,
}
pub static mut LAYOUT: Layout = Layout {
    repr: None, with_repr: None, all_bits: None, bit_width: None, variant_count: None, arm_values: [0; 4],
    arm_names: [0; 4], n_values: 0, n_names: 0,
};
#[allow(static_mut_refs)]
pub fn generated() -> &'static mut Layout {
    unsafe { &mut LAYOUT }
}
pub const ARRAY: u8 = 1;
pub const LIST: u8 = 2;
pub const MAP: u8 = 3;
pub const WORDS: u8 = 4;

/// Only the decision matters to the harness: stop once code is generated.
pub static mut DECIDE: bool = false;
pub static mut VALID: bool = false;
pub fn generating() {
    unsafe {
        if DECIDE {
            crate::check!(VALID, "a definition is accepted only if it is valid");
            #[cfg(kani)]
            kani::assume(false);
            #[cfg(not(kani))]
            {
                println!("REPLAY: accepted");
                std::process::exit(0);
            }
        }
    }
}

/// Only what is accepted matters to the harness: do not follow errors.
pub static mut ACCEPTED: bool = false;
pub fn failing() {
    if unsafe { ACCEPTED } {
        crate::rt::assume(false);
    }
}

/// Vectors and strings without a heap.
pub mod std_vec {
    use ::std::{mem::MaybeUninit, ops::*};
    pub const CAP: usize = 5;
    #[derive(Copy)]
    pub struct Vec<T> {
        data: [MaybeUninit<T>; CAP],
        len: usize,
    }
    impl<T> Vec<T> {
        pub const fn new() -> Self {
            Vec { data: [const { MaybeUninit::uninit() }; CAP], len: 0 }
        }
        pub fn with_capacity(_: usize) -> Self {
            Vec::new()
        }
        pub fn push(&mut self, x: T) {
            crate::check!(self.len < CAP, "harness: vectors are short");
            self.data[self.len] = MaybeUninit::new(x);
            self.len += 1;
        }
        pub fn pop(&mut self) -> Option<T> {
            if self.len == 0 {
                return None;
            }
            self.len -= 1;
            Some(unsafe { self.data[self.len].assume_init_read() })
        }
        pub fn len(&self) -> usize {
            self.len
        }
        pub fn is_empty(&self) -> bool {
            self.len == 0
        }
        pub fn as_slice(&self) -> &[T] {
            self
        }
        pub fn resize(&mut self, n: usize, x: T)
        where
            T: Clone,
        {
            if self.len > n {
                self.len = n;
            }
            while self.len < n {
                self.push(x.clone());
            }
        }
        pub fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for x in it {
                self.push(x);
            }
        }
    }
    impl<T: Copy> Clone for Vec<T> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<T> Default for Vec<T> {
        fn default() -> Self {
            Vec::new()
        }
    }
    impl<T> Deref for Vec<T> {
        type Target = [T];
        fn deref(&self) -> &[T] {
            unsafe { ::std::slice::from_raw_parts(self.data.as_ptr() as *const T, self.len) }
        }
    }
    impl<T> DerefMut for Vec<T> {
        fn deref_mut(&mut self) -> &mut [T] {
            unsafe { ::std::slice::from_raw_parts_mut(self.data.as_mut_ptr() as *mut T, self.len) }
        }
    }
    impl<T> ::std::iter::FromIterator<T> for Vec<T> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut v = Vec::new();
            for x in it {
                v.push(x);
            }
            v
        }
    }
    impl<'a, T> IntoIterator for &'a Vec<T> {
        type Item = &'a T;
        type IntoIter = ::std::slice::Iter<'a, T>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter()
        }
    }
    pub struct IntoIter<T>(Vec<T>, usize);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            if self.1 >= self.0.len {
                return None;
            }
            self.1 += 1;
            Some(unsafe { self.0.data[self.1 - 1].assume_init_read() })
        }
    }
    impl<T> IntoIterator for Vec<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self, 0)
        }
    }

    /// A string: a constant, or the name of a variant.
    #[derive(Clone, Copy, Default, Debug)]
    pub struct String {
        pub text: &'static str,
        pub id: u8,
    }
    pub const NO_VARIANT: u8 = 255;
    impl String {
        pub fn new() -> String {
            String { text: "", id: NO_VARIANT }
        }
        pub fn as_str(&self) -> &str {
            self.text
        }
    }
    impl From<&'static str> for String {
        fn from(text: &'static str) -> String {
            String { text, id: NO_VARIANT }
        }
    }
    impl Deref for String {
        type Target = str;
        fn deref(&self) -> &str {
            self.text
        }
    }
    impl AsRef<str> for String {
        fn as_ref(&self) -> &str {
            self.text
        }
    }
    impl ::std::borrow::Borrow<str> for String {
        fn borrow(&self) -> &str {
            self.text
        }
    }
    impl PartialEq for String {
        fn eq(&self, o: &String) -> bool {
            if self.id != NO_VARIANT || o.id != NO_VARIANT {
                self.id == o.id
            } else {
                self.text == o.text
            }
        }
    }
    impl Eq for String {}
    impl ::std::fmt::Display for String {
        fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            Ok(())
        }
    }
}
#[macro_export]
macro_rules! mock_vec {
    () => { $crate::mock::std_vec::Vec::new() };
    ($x:expr; $n:expr) => {{
        let mut v = $crate::mock::std_vec::Vec::new();
        v.resize($n, $x);
        v
    }};
    ($($x:expr),+ $(,)?) => {{
        let mut v = $crate::mock::std_vec::Vec::new();
        $(v.push($x);)+
        v
    }};
}

pub mod std_ {
    pub use ::std::*;
    /// Hash tables, but searched from end to end.
    pub mod collections {
        pub use ::std::collections::*;
        use super::super::std_vec::Vec;
        pub struct HashSet<T>(Vec<T>);
        impl<T: PartialEq> HashSet<T> {
            pub fn new() -> Self {
                HashSet(Vec::new())
            }
            pub fn with_capacity(_: usize) -> Self {
                HashSet(Vec::new())
            }
            pub fn contains<Q: ?Sized>(&self, x: &Q) -> bool
            where
                T: ::std::borrow::Borrow<Q>,
                Q: PartialEq,
            {
                let mut found = false;
                let mut i = 0;
                while i < self.0.len() {
                    found |= self.0[i].borrow() == x;
                    i += 1;
                }
                found
            }
            /// Also inserts what is there: a second copy makes no difference.
            pub fn insert(&mut self, x: T) -> bool {
                let new = !self.contains(&x);
                self.0.push(x);
                new
            }
            pub fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
        }
        impl<T> Default for HashSet<T> {
            fn default() -> Self {
                HashSet(Vec::new())
            }
        }
        pub type BTreeSet<T> = HashSet<T>;
        pub struct HashMap<K, V>(Vec<(K, V)>);
        impl<K: PartialEq, V> HashMap<K, V> {
            pub fn new() -> Self {
                HashMap(Vec::new())
            }
            pub fn get(&self, k: &K) -> Option<&V> {
                let mut i = self.0.len();
                while i > 0 {
                    i -= 1;
                    if self.0[i].0 == *k {
                        return Some(&self.0[i].1);
                    }
                }
                None
            }
            pub fn contains_key(&self, k: &K) -> bool {
                self.get(k).is_some()
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V>
            where
                V: Clone,
            {
                let old = self.get(&k).cloned();
                self.0.push((k, v));
                old
            }
            pub fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
        }
        impl<K, V> Default for HashMap<K, V> {
            fn default() -> Self {
                HashMap(Vec::new())
            }
        }
        pub type BTreeMap<K, V> = HashMap<K, V>;
    }
}

pub mod proc_macro2 {
    use super::{std_vec::*, Rec};
    pub use super::std_vec::NO_VARIANT;
    #[derive(Clone, Copy, Debug)]
    pub struct Span;
    impl Span {
        pub fn call_site() -> Span {
            Span
        }
        pub fn mixed_site() -> Span {
            Span
        }
        pub fn def_site() -> Span {
            Span
        }
        pub fn join(&self, _: Span) -> Option<Span> {
            Some(Span)
        }
        pub fn resolved_at(&self, _: Span) -> Span {
            Span
        }
        pub fn located_at(&self, _: Span) -> Span {
            Span
        }
        pub fn unwrap(self) -> Span {
            Span
        }
    }

    /// An identifier; those of variants are numbered.
    #[derive(Clone, Copy, Debug)]
    pub struct Ident {
        pub text: &'static str,
        pub id: u8,
    }
    impl Ident {
        pub fn new<S: AsRef<str> + ?Sized>(_: &S, _: Span) -> Ident {
            Ident { text: "", id: NO_VARIANT }
        }
        pub fn new_raw<S: AsRef<str> + ?Sized>(_: &S, _: Span) -> Ident {
            Ident { text: "", id: NO_VARIANT }
        }
        pub fn span(&self) -> Span {
            Span
        }
        /// Shadows `ToString::to_string`.
        #[allow(clippy::inherent_to_string_shadow_display)]
        pub fn to_string(&self) -> String {
            String { text: self.text, id: self.id }
        }
    }
    impl ::std::fmt::Display for Ident {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            f.write_str(self.text)
        }
    }
    impl PartialEq for Ident {
        fn eq(&self, o: &Ident) -> bool {
            self.to_string() == o.to_string()
        }
    }
    impl Eq for Ident {}
    impl<T: AsRef<str> + ?Sized> PartialEq<T> for Ident {
        fn eq(&self, o: &T) -> bool {
            self.text == o.as_ref()
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct Literal {
        pub value: u128,
        pub wide: bool,
    }
    macro_rules! literal { ($($t:ident $a:ident $b:ident)*) => { impl Literal { $(
        pub fn $a(x: $t) -> Literal { Literal { value: x as u128, wide: ::std::mem::size_of::<$t>() > 8 } }
        pub fn $b(x: $t) -> Literal { Self::$a(x) }
    )* } } }
    literal!(u8 u8_unsuffixed u8_suffixed u16 u16_unsuffixed u16_suffixed u32 u32_unsuffixed u32_suffixed
             u64 u64_unsuffixed u64_suffixed u128 u128_unsuffixed u128_suffixed
             usize usize_unsuffixed usize_suffixed);

    /// Tokens: what was recorded of them.
    #[derive(Clone, Copy, Default)]
    pub struct TokenStream {
        pub rec: Rec,
    }
    impl TokenStream {
        pub fn new() -> TokenStream {
            TokenStream::default()
        }
        pub fn extend<I: super::quote::ToTokens>(&mut self, x: I) {
            x.to_rec(&mut self.rec)
        }
        pub fn is_empty(&self) -> bool {
            false
        }
    }
}
pub mod proc_macro {
    pub use super::proc_macro2::*;
}

pub mod quote {
    use super::{proc_macro2::*, std_vec::{String, Vec}, Rec};
    pub use crate::{mock_format_ident as format_ident, mock_quote as quote, mock_quote_spanned as quote_spanned};

    /// Something `#x` can stand for.
    pub trait ToTokens {
        fn to_rec(&self, _out: &mut Rec) {}
        /// As the value or the variant of a match arm.
        fn arm(&self) {}
        fn to_token_stream(&self) -> TokenStream {
            let mut t = TokenStream::new();
            self.to_rec(&mut t.rec);
            t
        }
        fn as_u32(&self) -> u32 {
            0
        }
    }
    impl ToTokens for Rec {
        fn to_rec(&self, o: &mut Rec) {
            if self.ty != 0 {
                o.ty = self.ty;
            }
            if self.len.is_some() {
                o.len = self.len;
            }
            if self.n_lits > 0 {
                o.lits = self.lits;
                o.n_lits = self.n_lits;
            }
            if self.serde != 0 {
                o.serde = self.serde;
            }
        }
    }
    impl ToTokens for TokenStream {
        fn to_rec(&self, o: &mut Rec) {
            self.rec.to_rec(o)
        }
    }
    impl ToTokens for Literal {
        fn to_rec(&self, o: &mut Rec) {
            if self.wide {
                o.lits = [self.value as u64, (self.value >> 64) as u64, 0, 0];
                o.n_lits = 2;
            } else if o.n_lits < 4 {
                o.lits[o.n_lits] = self.value as u64;
                o.n_lits += 1;
            }
        }
        fn arm(&self) {
            (self.value as u32).arm()
        }
        fn as_u32(&self) -> u32 {
            self.value as u32
        }
    }
    impl ToTokens for Ident {
        fn arm(&self) {
            let o = super::generated();
            if self.id != NO_VARIANT {
                if o.n_names < 4 {
                    o.arm_names[o.n_names] = self.id;
                }
                o.n_names += 1;
            }
        }
    }
    macro_rules! ints { ($($t:ty)*) => { $(impl ToTokens for $t {
        fn to_rec(&self, o: &mut Rec) {
            o.len = Some(*self as u32);
        }
        fn arm(&self) {
            let o = super::generated();
            if o.n_values < 4 {
                o.arm_values[o.n_values] = *self as u32;
            }
            o.n_values += 1;
        }
        fn as_u32(&self) -> u32 {
            *self as u32
        }
    })* } }
    ints!(u8 u16 u32 u64 u128 usize);
    impl ToTokens for str {}
    impl ToTokens for String {}
    impl ToTokens for bool {}
    impl<T: ToTokens + ?Sized> ToTokens for &T {
        fn to_rec(&self, o: &mut Rec) {
            (**self).to_rec(o)
        }
        fn arm(&self) {
            (**self).arm()
        }
        fn as_u32(&self) -> u32 {
            (**self).as_u32()
        }
    }
    impl<T: ToTokens> ToTokens for Option<T> {
        fn to_rec(&self, o: &mut Rec) {
            if let Some(x) = self {
                x.to_rec(o)
            }
        }
    }
    impl<T: ToTokens> ToTokens for [T] {
        fn to_rec(&self, o: &mut Rec) {
            let mut i = 0;
            while i < self.len() {
                self[i].to_rec(o);
                i += 1;
            }
        }
        fn arm(&self) {
            let mut i = 0;
            while i < self.len() {
                self[i].arm();
                i += 1;
            }
        }
    }
    impl<T: ToTokens> ToTokens for Vec<T> {
        fn to_rec(&self, o: &mut Rec) {
            self.as_slice().to_rec(o)
        }
        fn arm(&self) {
            self.as_slice().arm()
        }
    }
    impl ToTokens for super::syn::Visibility {}
}

#[macro_export]
macro_rules! mock_quote {
    ($($t:tt)*) => {{
        $crate::mock::generating();
        #[allow(unused_mut)]
        let mut out = $crate::mock::Rec::default();
        $crate::mock_q!(out; $($t)*);
        $crate::mock::proc_macro2::TokenStream { rec: out }
    }};
}
#[macro_export]
macro_rules! mock_quote_spanned {
    ($s:expr => $($t:tt)*) => {{
        let _ = $s;
        $crate::mock_quote!($($t)*)
    }};
}
#[macro_export]
macro_rules! mock_format_ident {
    ($($t:tt)*) => {
        $crate::mock::proc_macro2::Ident::new("", $crate::mock::proc_macro2::Span)
    };
}
/// Walks the tokens of a `quote!`, recording interpolations and what names the layout.
#[macro_export]
macro_rules! mock_q {
    ($o:ident;) => {};
    ($o:ident; EnumSetTypeWithRepr for # $n:ident { type Repr = # $i:ident ; } $($r:tt)*) => {
        $crate::mock::generated().with_repr = Some($crate::mock::quote::ToTokens::to_token_stream(&$i).rec);
        $crate::mock_q!($o; $($r)*);
    };
    // items of the generated impl, whatever type is written and whatever tokens give the value
    ($o:ident; type Repr = $($r:tt)*) => { $crate::mock_item!($o; repr []; $($r)*); };
    ($o:ident; ALL_BITS : $($r:tt)*) => { $crate::mock_typed!($o; all_bits; $($r)*); };
    ($o:ident; BIT_WIDTH : $($r:tt)*) => { $crate::mock_typed!($o; bit_width; $($r)*); };
    ($o:ident; VARIANT_COUNT : $($r:tt)*) => { $crate::mock_typed!($o; variant_count; $($r)*); };
    ($o:ident; <# $i:ident as # $j:ident :: Deserialize> $($r:tt)*) => {
        $o.serde = $crate::mock::quote::ToTokens::to_token_stream(&$i).rec.ty;
        $crate::mock_q!($o; $($r)*);
    };
    ($o:ident; serialize_seq $($r:tt)*) => { $o.serde = $crate::mock::LIST; $crate::mock_q!($o; $($r)*); };
    ($o:ident; serialize_map $($r:tt)*) => { $o.serde = $crate::mock::MAP; $crate::mock_q!($o; $($r)*); };
    ($o:ident; as_array $($r:tt)*) => { $o.serde = $crate::mock::WORDS; $crate::mock_q!($o; $($r)*); };
    ($o:ident; u8 $($r:tt)*) => { $o.ty = 8; $crate::mock_q!($o; $($r)*); };
    ($o:ident; u16 $($r:tt)*) => { $o.ty = 16; $crate::mock_q!($o; $($r)*); };
    ($o:ident; u32 $($r:tt)*) => { $o.ty = 32; $crate::mock_q!($o; $($r)*); };
    ($o:ident; u64 $($r:tt)*) => { $o.ty = 64; $crate::mock_q!($o; $($r)*); };
    ($o:ident; u128 $($r:tt)*) => { $o.ty = 128; $crate::mock_q!($o; $($r)*); };
    ($o:ident; ArrayRepr $($r:tt)*) => { $o.ty = $crate::mock::ARRAY; $crate::mock_q!($o; $($r)*); };
    ($o:ident; # $v:ident => # $n:ident :: # $m:ident $($r:tt)*) => {
        $crate::mock::quote::ToTokens::arm(&$v);
        $crate::mock::quote::ToTokens::arm(&$m);
        $crate::mock_q!($o; $($r)*);
    };
    ($o:ident; # $i:ident $($r:tt)*) => {
        $crate::mock::quote::ToTokens::to_rec(&$i, &mut $o);
        $crate::mock_q!($o; $($r)*);
    };
    ($o:ident; ( $($a:tt)* ) $($r:tt)*) => { $crate::mock_q!($o; $($a)*); $crate::mock_q!($o; $($r)*); };
    ($o:ident; [ $($a:tt)* ] $($r:tt)*) => { $crate::mock_q!($o; $($a)*); $crate::mock_q!($o; $($r)*); };
    ($o:ident; { $($a:tt)* } $($r:tt)*) => { $crate::mock_q!($o; $($a)*); $crate::mock_q!($o; $($r)*); };
    ($o:ident; $t:tt $($r:tt)*) => { $crate::mock_q!($o; $($r)*); };
}
/// Skips the type of a constant.
#[macro_export]
macro_rules! mock_typed {
    ($o:ident; $k:ident; = $($r:tt)*) => { $crate::mock_item!($o; $k []; $($r)*); };
    ($o:ident; $k:ident; $t:tt $($r:tt)*) => { $crate::mock_typed!($o; $k; $($r)*); };
}
/// Collects the value of an item, up to its semicolon.
#[macro_export]
macro_rules! mock_item {
    ($o:ident; $k:ident [$($v:tt)*]; ; $($r:tt)*) => {
        $crate::mock_value!($k $($v)*);
        $crate::mock_q!($o; $($r)*);
    };
    ($o:ident; $k:ident [$($v:tt)*]; $t:tt $($r:tt)*) => { $crate::mock_item!($o; $k [$($v)* $t]; $($r)*); };
}
#[macro_export]
macro_rules! mock_value {
    (repr $($v:tt)*) => { $crate::mock::generated().repr = Some($crate::mock_quote!($($v)*).rec); };
    (all_bits $($v:tt)*) => { $crate::mock::generated().all_bits = Some($crate::mock_quote!($($v)*).rec); };
    ($k:ident # $i:ident as $t:ident) => { $crate::mock_value!($k # $i) };
    ($k:ident # $i:ident) => {
        $crate::mock::generated().$k = Some($crate::mock::quote::ToTokens::as_u32(&$i));
    };
    ($k:ident $v:literal) => { $crate::mock::generated().$k = Some($v); };
    ($k:ident $($v:tt)*) => {};
}
/// The definition the macro is given, parsed.
pub static mut INPUT: Option<syn::DeriveInput> = None;
pub fn parsed() -> syn::DeriveInput {
    unsafe { INPUT.unwrap() }
}

pub mod syn {
    use super::std_vec::{IntoIter, Vec};
    pub use super::proc_macro2::Ident;
    use super::proc_macro2::{Span, TokenStream};
    pub use crate::mock_parse_macro_input as parse_macro_input;

    #[derive(Clone, Debug)]
    pub struct Error;
    pub type Result<T> = ::std::result::Result<T, Error>;
    impl Error {
        pub fn new<T: ::std::fmt::Display>(_: Span, _: T) -> Error {
            super::failing();
            Error
        }
        pub fn new_spanned<S, T: ::std::fmt::Display>(_: S, _: T) -> Error {
            super::failing();
            Error
        }
        pub fn to_compile_error(&self) -> TokenStream {
            let mut t = TokenStream::new();
            t.rec.error = true;
            t
        }
        pub fn into_compile_error(self) -> TokenStream {
            self.to_compile_error()
        }
        pub fn combine(&mut self, _: Error) {}
        pub fn span(&self) -> Span {
            Span
        }
    }
    impl ::std::fmt::Display for Error {
        fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            Ok(())
        }
    }
    pub mod spanned {
        pub trait Spanned {
            fn span(&self) -> super::Span {
                super::Span
            }
        }
        impl<T> Spanned for T {}
    }

    /// A sequence with separators.
    #[derive(Clone, Copy)]
    pub struct Punctuated<T: Copy>(pub Vec<T>);
    impl<T: Copy> ::std::ops::Deref for Punctuated<T> {
        type Target = Vec<T>;
        fn deref(&self) -> &Vec<T> {
            &self.0
        }
    }
    impl<'a, T: Copy> IntoIterator for &'a Punctuated<T> {
        type Item = &'a T;
        type IntoIter = ::std::slice::Iter<'a, T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    impl<T: Copy> IntoIterator for Punctuated<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }

    #[derive(Clone, Copy)]
    pub struct DeriveInput {
        pub attrs: Vec<Attribute>,
        pub vis: Visibility,
        pub ident: Ident,
        pub generics: Generics,
        pub data: Data,
        /// The words of `#[enumset(...)]`, which `darling` reads.
        pub enumset: super::darling::Words,
    }
    #[derive(Clone, Copy)]
    #[repr(u8)]
    pub enum Visibility {
        Public,
        Restricted,
        Inherited,
    }
    #[derive(Clone, Copy)]
    pub struct Generics {
        pub params: Punctuated<u8>,
        pub where_clause: Option<()>,
    }
    #[derive(Clone, Copy)]
    #[repr(u8)]
    pub enum Data {
        Struct(DataStruct),
        Enum(DataEnum),
        Union(DataUnion),
    }
    #[derive(Clone, Copy)]
    pub struct DataStruct {
        pub fields: Fields,
    }
    #[derive(Clone, Copy)]
    pub struct DataUnion;
    #[derive(Clone, Copy)]
    pub struct DataEnum {
        pub variants: Punctuated<Variant>,
    }
    #[derive(Clone, Copy)]
    pub struct Eq;
    #[derive(Clone, Copy)]
    pub struct Variant {
        pub attrs: Vec<Attribute>,
        pub ident: Ident,
        pub fields: Fields,
        pub discriminant: Option<(Eq, Expr)>,
    }
    #[derive(Clone, Copy)]
    #[repr(u8)]
    pub enum Fields {
        Named(FieldsNamed),
        Unnamed(FieldsUnnamed),
        Unit,
    }
    #[derive(Clone, Copy)]
    pub struct FieldsNamed {
        pub named: Punctuated<u8>,
    }
    #[derive(Clone, Copy)]
    pub struct FieldsUnnamed {
        pub unnamed: Punctuated<u8>,
    }
    impl Fields {
        pub fn len(&self) -> usize {
            match self {
                Fields::Named(f) => f.named.len(),
                Fields::Unnamed(f) => f.unnamed.len(),
                Fields::Unit => 0,
            }
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
    }
    /// Expressions: only literals and negations are told apart.
    #[derive(Clone, Copy)]
    #[repr(u8)]
    pub enum Expr {
        Lit(ExprLit),
        Unary(ExprUnary),
        Path(ExprPath),
        Paren(ExprPath),
        Group(ExprPath),
        Binary(ExprPath),
    }
    #[derive(Clone, Copy)]
    pub struct ExprPath;
    #[derive(Clone, Copy)]
    pub struct ExprLit {
        pub attrs: (),
        pub lit: Lit,
    }
    #[derive(Clone, Copy)]
    pub struct ExprUnary {
        pub attrs: (),
        pub op: UnOp,
        pub expr: ExprLit,
    }
    #[derive(Clone, Copy)]
    #[repr(u8)]
    pub enum UnOp {
        Deref(()),
        Not(()),
        Neg(()),
    }
    #[derive(Clone, Copy)]
    #[repr(u8)]
    pub enum Lit {
        Int(LitInt),
        Str(LitOther),
        Byte(LitOther),
        Char(LitOther),
        Bool(LitOther),
    }
    #[derive(Clone, Copy)]
    pub struct LitOther;
    #[derive(Clone, Copy)]
    pub struct LitInt(pub u64);
    impl LitInt {
        pub fn base10_parse<N: TryFrom<u64>>(&self) -> Result<N> {
            match N::try_from(self.0) {
                Ok(x) => Ok(x),
                Err(_) => Err(Error),
            }
        }
        pub fn suffix(&self) -> &str {
            ""
        }
    }

    #[derive(Clone, Copy)]
    pub struct Attribute {
        pub path: Path,
        /// The identifier in its parentheses; `None` if there is none, or not one.
        pub arg: Option<Ident>,
    }
    #[derive(Clone, Copy)]
    pub struct Path(pub Ident);
    impl Path {
        pub fn is_ident(&self, s: &str) -> bool {
            self.0.text == s
        }
        pub fn get_ident(&self) -> Option<&Ident> {
            Some(&self.0)
        }
    }
    impl Attribute {
        pub fn path(&self) -> &Path {
            &self.path
        }
        pub fn parse_args<T: From<Ident>>(&self) -> Result<T> {
            match self.arg {
                Some(i) => Ok(i.into()),
                None => Err(Error),
            }
        }
    }
}
#[macro_export]
macro_rules! mock_parse_macro_input {
    ($t:ident) => {
        {
        let _ = $t;
        $crate::mock::parsed()
    }
    };
    ($t:ident as $ty:ty) => {
        {
        let _ = $t;
        $crate::mock::parsed()
    }
    };
}

pub mod darling {
    use super::std_vec::String;
    use super::proc_macro2::{Span, TokenStream};
    #[derive(Clone, Debug)]
    pub struct Error;
    impl Error {
        pub fn write_errors(self) -> TokenStream {
            let mut t = TokenStream::new();
            t.rec.error = true;
            t
        }
    }
    /// The words of `#[enumset(...)]`.
    #[derive(Clone, Copy, Default, Debug)]
    pub struct Words {
        pub repr: Option<&'static str>,
        pub serialize_repr: Option<&'static str>,
        pub serialize_as_list: bool,
        pub serialize_as_map: bool,
        pub serialize_deny_unknown: bool,
        pub no_ops: bool,
        pub no_super_impls: bool,
    }
    pub trait FromDeriveInput: Sized {
        fn from_derive_input(_: &super::syn::DeriveInput) -> Result<Self, Error>;
    }
    /// A field is filled from the word of the same name, numbered as in build.rs.
    pub trait FromAttr {
        fn from_attr(word: u8, input: &super::syn::DeriveInput) -> Self;
    }
    impl FromAttr for bool {
        fn from_attr(word: u8, input: &super::syn::DeriveInput) -> bool {
            let w = &input.enumset;
            match word {
                2 => w.serialize_as_list,
                3 => w.serialize_as_map,
                4 => w.serialize_deny_unknown,
                5 => w.no_ops,
                6 => w.no_super_impls,
                _ => false,
            }
        }
    }
    impl FromAttr for Option<String> {
        fn from_attr(word: u8, input: &super::syn::DeriveInput) -> Option<String> {
            match word {
                0 => input.enumset.repr.map(String::from),
                1 => input.enumset.serialize_repr.map(String::from),
                _ => None,
            }
        }
    }
    impl<T: FromAttr> FromAttr for util::SpannedValue<T> {
        fn from_attr(word: u8, input: &super::syn::DeriveInput) -> Self {
            util::SpannedValue(T::from_attr(word, input))
        }
    }
    pub mod util {
        #[derive(Clone, Default, Debug)]
        pub struct SpannedValue<T>(pub T);
        impl<T> SpannedValue<T> {
            pub fn new(x: T, _: super::Span) -> Self {
                SpannedValue(x)
            }
            pub fn span(&self) -> super::Span {
                super::Span
            }
            pub fn into_inner(self) -> T {
                self.0
            }
        }
        impl<T> ::std::ops::Deref for SpannedValue<T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
        impl<T> AsRef<T> for SpannedValue<T> {
            fn as_ref(&self) -> &T {
                &self.0
            }
        }
    }
}
