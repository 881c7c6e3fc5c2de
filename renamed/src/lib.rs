//! Enums of a crate without the standard library that imports enumset under another name, so that whatever the
//! derive generates must go through the name it is given.
#![no_std]
use es::EnumSetType;

macro_rules! renamed {
    ($($(#[$a:meta])* $name:ident { $($v:ident = $d:tt),* })*) => {$(
        #[derive(EnumSetType, Debug)]
        #[enumset(crate_name = "es")]
        $(#[$a])*
        pub enum $name { $($v = $d),* }
        impl serde::Serialize for $name {
            fn serialize<X: serde::Serializer>(&self, ser: X) -> Result<X::Ok, X::Error> {
                ser.serialize_unit()
            }
        }
        impl<'de> serde::Deserialize<'de> for $name {
            fn deserialize<X: serde::Deserializer<'de>>(_: X) -> Result<Self, X::Error> {
                Err(serde::de::Error::custom("not used"))
            }
        }
    )*};
}
renamed! {
    Default { A = 1, B = 9, C = 0 }
    #[enumset(repr = "u32")] Forced { A = 1, B = 9, C = 0 }
    Array { A = 1, B = 130, C = 64 }
    #[enumset(repr = "array")] ForcedArray { A = 1, B = 9, C = 0 }
    #[enumset(serialize_repr = "u64", serialize_deny_unknown)] Int { A = 1, B = 9, C = 0 }
    #[enumset(serialize_repr = "list")] List { A = 1, B = 9, C = 0 }
    #[enumset(serialize_repr = "list", serialize_deny_unknown)] DenyList { A = 1, B = 9, C = 0 }
    #[enumset(serialize_repr = "map")] Map { A = 1, B = 9, C = 0 }
    #[enumset(serialize_repr = "array")] Words { A = 1, B = 9, C = 0 }
    #[enumset(serialize_repr = "array", serialize_deny_unknown)] DenyWords { A = 1, B = 130, C = 0 }
    #[enumset(no_ops)] NoOps { A = 1, B = 9, C = 0 }
}

/// The macros for constants, called by another name of the crate.
pub const NONE: es::EnumSet<Array> = es::enum_set!();
pub const SOME: es::EnumSet<Array> = es::enum_set!(Array::A | Array::B);
pub const UNION: es::EnumSet<Array> = es::enum_set_union!(SOME, Array::C);
pub const INTERSECTION: es::EnumSet<Array> = es::enum_set_intersection!(SOME, Array::B);
pub const DIFFERENCE: es::EnumSet<Array> = es::enum_set_difference!(SOME, Array::A);
pub const SYMMETRIC_DIFFERENCE: es::EnumSet<Array> = es::enum_set_symmetric_difference!(SOME, Array::C);
pub const COMPLEMENT: es::EnumSet<Array> = es::enum_set_complement!(SOME);
