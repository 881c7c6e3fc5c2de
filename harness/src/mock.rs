//! A data format for symbolic execution: a serde `Serializer` that records what it is told, and a
//! `Deserializer` that says what the (symbolic) input holds. Both can fail at a symbolic call.
use crate::{rt::*, *};
use core::cell::Cell;
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};

/// The only error. It drops its message, so that no formatting code has to be executed.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Fail;
impl core::fmt::Display for Fail {
    fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result {
        Ok(())
    }
}
impl ser::Error for Fail {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Fail
    }
}
impl de::Error for Fail {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Fail
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Fail
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Fail
    }
}
impl ser::StdError for Fail {}

// What kind of datum was written, or is asked for.
pub const NONE: u8 = 0;
pub const U8: u8 = 1;
pub const U16: u8 = 2;
pub const U32: u8 = 3;
pub const U64: u8 = 4;
pub const U128: u8 = 5;
pub const BOOL: u8 = 6;
pub const SEQ: u8 = 7;
pub const MAP: u8 = 8;
pub const ANY: u8 = 9;
pub const I64: u8 = 10;
pub const OTHER: u8 = 11;

pub const CAP: usize = 8;

/// Everything a serializer was told.
#[derive(Clone, Copy)]
pub struct Log {
    pub kind: u8,
    pub val: u128,
    pub hint: Option<usize>,
    pub n: usize,
    pub item: [(u8, u128); CAP],
    pub value: [(u8, u128); CAP],
    pub ended: bool,
    /// Calls so far, and the one that fails.
    pub calls: usize,
    pub fail_at: usize,
}
impl Log {
    pub fn new(fail_at: usize) -> Log {
        Log {
            kind: NONE,
            val: 0,
            hint: None,
            n: 0,
            item: [(NONE, 0); CAP],
            value: [(NONE, 0); CAP],
            ended: false,
            calls: 0,
            fail_at,
        }
    }
    fn call(&mut self) -> Result<(), Fail> {
        let i = self.calls;
        self.calls += 1;
        if i == self.fail_at {
            Err(Fail)
        } else {
            Ok(())
        }
    }
    pub fn failed(&self) -> bool {
        self.calls > self.fail_at
    }
}

macro_rules! scalars {
    ($self:ident, $($f:ident $t:ty, $k:ident;)*) => {
        $(fn $f(self, v: $t) -> Result<(), Fail> { self.put($k, v as u128) })*
    };
}
macro_rules! refused {
    () => {
        type Ok = ();
        type Error = Fail;
        type SerializeTuple = Impossible<(), Fail>;
        type SerializeTupleStruct = Impossible<(), Fail>;
        type SerializeTupleVariant = Impossible<(), Fail>;
        type SerializeStruct = Impossible<(), Fail>;
        type SerializeStructVariant = Impossible<(), Fail>;
        scalars!(self,
            serialize_bool bool, BOOL; serialize_u8 u8, U8; serialize_u16 u16, U16; serialize_u32 u32, U32;
            serialize_u64 u64, U64; serialize_u128 u128, U128; serialize_i8 i8, OTHER; serialize_i16 i16, OTHER;
            serialize_i32 i32, OTHER; serialize_i64 i64, OTHER; serialize_i128 i128, OTHER; serialize_f32 f32, OTHER;
            serialize_f64 f64, OTHER;);
        fn serialize_char(self, _: char) -> Result<(), Fail> { self.put(OTHER, 0) }
        fn serialize_str(self, _: &str) -> Result<(), Fail> { self.put(OTHER, 0) }
        fn serialize_bytes(self, _: &[u8]) -> Result<(), Fail> { self.put(OTHER, 0) }
        fn serialize_none(self) -> Result<(), Fail> { self.put(OTHER, 0) }
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), Fail> { self.put(OTHER, 0) }
        fn serialize_unit(self) -> Result<(), Fail> { self.put(OTHER, 0) }
        fn serialize_unit_struct(self, _: &'static str) -> Result<(), Fail> { self.put(OTHER, 0) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Fail> {
            self.put(OTHER, 0)
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<(), Fail> {
            self.put(OTHER, 0)
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(
            self, _: &'static str, _: u32, _: &'static str, _: &T,
        ) -> Result<(), Fail> {
            self.put(OTHER, 0)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
        fn serialize_tuple_variant(
            self, _: &'static str, _: u32, _: &'static str, _: usize,
        ) -> Result<Self::SerializeTuple, Fail> {
            Err(Fail)
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
        fn serialize_struct_variant(
            self, _: &'static str, _: u32, _: &'static str, _: usize,
        ) -> Result<Self::SerializeTuple, Fail> {
            Err(Fail)
        }
        fn collect_str<T: core::fmt::Display + ?Sized>(self, _: &T) -> Result<(), Fail> { self.put(OTHER, 0) }
    };
}

/// Writes one scalar: an element, a key or a value.
pub struct Put<'a>(pub &'a mut (u8, u128));
impl Put<'_> {
    fn put(self, k: u8, v: u128) -> Result<(), Fail> {
        *self.0 = (k, v);
        Ok(())
    }
}
impl Serializer for Put<'_> {
    type SerializeSeq = Impossible<(), Fail>;
    type SerializeMap = Impossible<(), Fail>;
    refused!();
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> {
        Err(Fail)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> {
        Err(Fail)
    }
}

/// Writes a whole set.
pub struct Whole<'a>(pub &'a mut Log);
impl Whole<'_> {
    fn put(self, k: u8, v: u128) -> Result<(), Fail> {
        self.0.call()?;
        self.0.kind = k;
        self.0.val = v;
        self.0.ended = true;
        Ok(())
    }
}
impl Serializer for Whole<'_> {
    type SerializeSeq = Self;
    type SerializeMap = Self;
    refused!();
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Fail> {
        self.0.call()?;
        self.0.kind = SEQ;
        self.0.hint = n;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Fail> {
        self.0.call()?;
        self.0.kind = MAP;
        self.0.hint = n;
        Ok(self)
    }
}
impl ser::SerializeSeq for Whole<'_> {
    type Ok = ();
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.call()?;
        let i = self.0.n;
        self.0.n += 1;
        check!(i < CAP, "no more is serialized than there is");
        v.serialize(Put(&mut self.0.item[i]))
    }
    fn end(self) -> Result<(), Fail> {
        self.0.call()?;
        self.0.ended = true;
        Ok(())
    }
}
impl ser::SerializeMap for Whole<'_> {
    type Ok = ();
    type Error = Fail;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.call()?;
        let i = self.0.n;
        check!(i < CAP, "no more is serialized than there is");
        v.serialize(Put(&mut self.0.item[i]))
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.call()?;
        let i = self.0.n;
        self.0.n += 1;
        v.serialize(Put(&mut self.0.value[i]))
    }
    fn end(self) -> Result<(), Fail> {
        self.0.call()?;
        self.0.ended = true;
        Ok(())
    }
}

// ---------------------------------------------------------------------------- deserializing
/// Where a deserializer's answer comes from.
pub trait Source {
    fn asked(&self, kind: u8);
    fn go<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail>;
}
pub struct In<S>(pub S);
macro_rules! asked {
    ($($f:ident $k:ident)*) => {
        $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
            self.0.asked($k);
            self.0.go(v)
        })*
    };
}
impl<'de, S: Source> Deserializer<'de> for In<S> {
    type Error = Fail;
    asked! {
        deserialize_any ANY deserialize_bool BOOL deserialize_u8 U8 deserialize_u16 U16 deserialize_u32 U32
        deserialize_u64 U64 deserialize_u128 U128 deserialize_i8 OTHER deserialize_i16 OTHER deserialize_i32 OTHER
        deserialize_i64 OTHER deserialize_i128 OTHER deserialize_f32 OTHER deserialize_f64 OTHER deserialize_char OTHER
        deserialize_str OTHER deserialize_string OTHER deserialize_bytes OTHER deserialize_byte_buf OTHER
        deserialize_option OTHER deserialize_unit OTHER deserialize_seq SEQ deserialize_map MAP
        deserialize_identifier OTHER deserialize_ignored_any OTHER
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> {
        self.0.asked(OTHER);
        self.0.go(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> {
        self.0.asked(OTHER);
        self.0.go(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Fail> {
        self.0.asked(OTHER);
        self.0.go(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Fail> {
        self.0.asked(OTHER);
        self.0.go(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], v: V,
    ) -> Result<V::Value, Fail> {
        self.0.asked(OTHER);
        self.0.go(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], v: V,
    ) -> Result<V::Value, Fail> {
        self.0.asked(OTHER);
        self.0.go(v)
    }
}

/// Put integer or boolean, presented to the visitor as the given kind.
pub struct Scalar<'a> {
    pub asked: &'a Cell<u8>,
    pub kind: u8,
    pub val: u128,
}
impl Source for Scalar<'_> {
    fn asked(&self, k: u8) {
        self.asked.set(k)
    }
    fn go<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        match self.kind {
            U8 => v.visit_u8(self.val as u8),
            U16 => v.visit_u16(self.val as u16),
            U32 => v.visit_u32(self.val as u32),
            U64 => v.visit_u64(self.val as u64),
            U128 => v.visit_u128(self.val),
            I64 => v.visit_i64(self.val as i64),
            BOOL => v.visit_bool(self.val != 0),
            _ => Err(Fail),
        }
    }
}
/// An element: exactly what is asked of it, unless it is unreadable.
struct Elem {
    kind: Cell<u8>,
    val: u128,
    bad: bool,
}
impl Source for Elem {
    fn asked(&self, k: u8) {
        self.kind.set(k)
    }
    fn go<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        if self.bad {
            return Err(Fail);
        }
        match self.kind.get() {
            U32 => v.visit_u32(self.val as u32),
            U64 => v.visit_u64(self.val as u64),
            BOOL => v.visit_bool(self.val != 0),
            _ => Err(Fail),
        }
    }
}
/// The input of a list or a map: entry `i < n` is `item[i]` (mapped to `flag[i]`).
#[derive(Clone, Copy)]
pub struct Input {
    pub item: [u128; CAP],
    pub flag: [bool; CAP],
    pub n: usize,
    /// The step (of reading an entry, or the end) that fails.
    pub fail_at: usize,
    /// The element that cannot be read as what it should be.
    pub bad_at: usize,
    /// What `size_hint` says, true or not.
    pub hint: Option<usize>,
}
pub struct Compound<'a> {
    pub asked: &'a Cell<u8>,
    pub input: &'a Input,
    pub kind: u8,
    /// How many entries were read.
    pub read: &'a Cell<usize>,
    pub at_end: &'a Cell<bool>,
    pub failed: &'a Cell<bool>,
}
impl Source for Compound<'_> {
    fn asked(&self, k: u8) {
        self.asked.set(k)
    }
    fn go<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        if self.kind == SEQ {
            v.visit_seq(Entries(self))
        } else {
            v.visit_map(Entries(self))
        }
    }
}
pub struct Entries<'a>(Compound<'a>);
impl Entries<'_> {
    /// The next entry's index.
    fn step(&self) -> Result<Option<usize>, Fail> {
        let i = self.0.read.get();
        if i == self.0.input.fail_at {
            self.0.failed.set(true);
            return Err(Fail);
        }
        if i == self.0.input.n {
            self.0.at_end.set(true);
            return Ok(None);
        }
        self.0.read.set(i + 1);
        Ok(Some(i))
    }
    fn elem(&self, i: usize) -> In<Elem> {
        let bad = i == self.0.input.bad_at;
        if bad {
            self.0.failed.set(true);
        }
        In(Elem { kind: Cell::new(NONE), val: self.0.input.item[i], bad })
    }
}
impl<'de> SeqAccess<'de> for Entries<'_> {
    type Error = Fail;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fail> {
        match self.step()? {
            None => Ok(None),
            Some(i) => match seed.deserialize(self.elem(i)) {
                Ok(v) => Ok(Some(v)),
                Err(e) => Err(e),
            },
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.input.hint
    }
}
impl<'de> MapAccess<'de> for Entries<'_> {
    type Error = Fail;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fail> {
        match self.step()? {
            None => Ok(None),
            Some(i) => match seed.deserialize(self.elem(i)) {
                Ok(v) => Ok(Some(v)),
                Err(e) => Err(e),
            },
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Fail> {
        let i = self.0.read.get() - 1;
        let v = self.0.input.flag[i] as u128;
        seed.deserialize(In(Elem { kind: Cell::new(NONE), val: v, bad: false }))
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.input.hint
    }
}

/// Reads a compound input; says whether it was asked for as `kind`, read to its end, and whether
/// the input failed.
pub struct Outcome<T> {
    pub got: Result<T, Fail>,
    pub asked: u8,
    pub read: usize,
    pub at_end: bool,
    pub failed: bool,
}
pub fn read_compound<'de, T: de::Deserialize<'de>>(kind: u8, input: &Input) -> Outcome<T> {
    let (asked, read) = (Cell::new(NONE), Cell::new(0));
    let (at_end, failed) = (Cell::new(false), Cell::new(false));
    let got = T::deserialize(In(Compound {
        asked: &asked,
        input,
        kind,
        read: &read,
        at_end: &at_end,
        failed: &failed,
    }));
    Outcome { got, asked: asked.get(), read: read.get(), at_end: at_end.get(), failed: failed.get() }
}
pub fn read_scalar<'de, T: de::Deserialize<'de>>(kind: u8, val: u128) -> (Result<T, Fail>, u8) {
    let asked = Cell::new(NONE);
    let got = T::deserialize(In(Scalar { asked: &asked, kind, val }));
    (got, asked.get())
}
/// An input of up to `cap` entries, free of failures.
pub fn any_input(cap: usize) -> Input {
    let mut input = Input {
        item: [0; CAP],
        flag: [false; CAP],
        n: any(),
        fail_at: usize::MAX,
        bad_at: usize::MAX,
        hint: if any() { Some(any()) } else { None },
    };
    assume(input.n <= cap);
    let mut i = 0;
    while i < cap {
        input.item[i] = any::<u64>() as u128;
        input.flag[i] = any();
        i += 1;
    }
    input
}

/// Serde impls by discriminant, for enums whose sets are serialized by variant.
#[macro_export]
macro_rules! serde_enum {
    ($name:ident { $($v:ident),* $(,)? }) => {
        impl serde::Serialize for $name {
            fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
                ser.serialize_u32(*self as u32)
            }
        }
        impl<'de> serde::Deserialize<'de> for $name {
            fn deserialize<D: serde::Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
                let d = <u32 as serde::Deserialize>::deserialize(de)?;
                $(if d == $name::$v as u32 { return Ok($name::$v); })*
                Err(<D::Error as serde::de::Error>::custom("no such variant"))
            }
        }
    };
}

/// Input of some kind that nothing was said about.
pub struct Junk<'a> {
    pub kind: u8,
    pub input: &'a Input,
}
pub const JUNK: u8 = 10;
impl Source for Junk<'_> {
    fn asked(&self, _: u8) {}
    fn go<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        let (asked, read) = (Cell::new(NONE), Cell::new(0));
        let (at_end, failed) = (Cell::new(false), Cell::new(false));
        let c = Compound {
            asked: &asked,
            input: self.input,
            kind: NONE,
            read: &read,
            at_end: &at_end,
            failed: &failed,
        };
        match self.kind {
            0 => v.visit_seq(Entries(c)),
            1 => v.visit_map(Entries(c)),
            2 => v.visit_bool(any()),
            3 => v.visit_i64(-1 - (any::<u32>() as i64)),
            4 => v.visit_f64(any::<u32>() as f64),
            5 => v.visit_unit(),
            6 => v.visit_none(),
            7 => v.visit_str("A"),
            8 => v.visit_bytes(&[any::<u8>()]),
            9 => v.visit_u64(any()),
            _ => Err(Fail),
        }
    }
}
