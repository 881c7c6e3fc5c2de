//! C23: which definitions the derive macro accepts, and the layout it gives those it accepts.
//!
//! The macro's own source runs on a symbolic syntax tree. `expected` is the documented rule.
use crate::{derive, mock::darling::Words, mock::proc_macro2::*, mock::syn::*, mock::*, rt::*, *};

/// The most variants of a definition.
#[cfg(not(feature = "thorough"))]
pub const N: usize = 3;
#[cfg(feature = "thorough")]
pub const N: usize = 4;
/// No discriminant may reach this.
const LIMIT: u64 = 0xFFFF_FFC0;

// What a variant declares.
const IMPLICIT: u8 = 0;
const LITERAL: u8 = 1;
const NEGATIVE: u8 = 2;
const NOT: u8 = 3;
const PATH: u8 = 4;
const TEXT: u8 = 5;

#[derive(Clone, Copy)]
struct Var {
    name: u8,
    /// 0: no fields; 1: named; 2: unnamed
    fields: u8,
    kind: u8,
    value: u64,
}
fn any_variant() -> Var {
    let v = Var { name: any(), fields: any(), kind: any(), value: any() };
    assume(v.name < 4 && v.fields <= 2 && v.kind <= TEXT);
    v
}
const NAMES: [&str; 4] = ["A", "B", "C", "D"];

impl Var {
    fn syntax(&self) -> Variant {
        let int = |x| ExprLit { attrs: (), lit: Lit::Int(LitInt(x)) };
        let e = match self.kind {
            LITERAL => Expr::Lit(int(self.value)),
            NEGATIVE => Expr::Unary(ExprUnary { attrs: (), op: UnOp::Neg(()), expr: int(self.value) }),
            NOT => Expr::Unary(ExprUnary { attrs: (), op: UnOp::Not(()), expr: int(self.value) }),
            TEXT => Expr::Lit(ExprLit { attrs: (), lit: Lit::Byte(LitOther) }),
            _ => Expr::Path(ExprPath),
        };
        Variant {
            attrs: std_vec::Vec::new(),
            ident: Ident { text: NAMES[self.name as usize & 3], id: self.name },
            fields: match self.fields {
                0 => Fields::Unit,
                1 => Fields::Named(FieldsNamed { named: Punctuated(std_vec::Vec::new()) }),
                _ => Fields::Unnamed(FieldsUnnamed { unnamed: Punctuated(std_vec::Vec::new()) }),
            },
            discriminant: if self.kind == IMPLICIT { None } else { Some((Eq, e)) },
        }
    }
    fn text(&self) -> String {
        let e = match self.kind {
            IMPLICIT => String::new(),
            LITERAL => format!(" = {}", self.value),
            NEGATIVE => format!(" = -{}", self.value),
            NOT => format!(" = !{}", self.value),
            TEXT => " = b'x'".into(),
            _ => " = K".into(),
        };
        format!("{}{}{}", NAMES[self.name as usize & 3], ["", " {}", "()"][self.fields as usize % 3], e)
    }
}

/// A definition.
struct Def {
    vars: [Var; N],
    n: usize,
    words: Words,
    /// `#[repr(..)]`: none, one without an identifier, or an identifier
    rust_repr: Option<Option<&'static str>>,
    /// 0: an enum; 1: a struct; 2: a union
    data: u8,
    params: usize,
}
fn any_def() -> Def {
    let mut vars = [Var { name: 0, fields: 0, kind: IMPLICIT, value: 0 }; N];
    let mut i = 0;
    while i < N {
        vars[i] = any_variant();
        i += 1;
    }
    Def { vars, n: N, words: Words::default(), rust_repr: None, data: 0, params: 0 }
}

/// The discriminants, as Rust assigns them, and whether the variants are those of an enum set.
struct Rule {
    ok: bool,
    /// Rust itself rejects the definition, whatever the macro says
    moot: bool,
    discs: [u64; N],
    max: u64,
}
impl Def {
    fn rule(&self) -> Rule {
        let mut r = Rule { ok: true, moot: self.rust_rejects(), discs: [0; N], max: 0 };
        let mut next = 0;
        let mut i = 0;
        while i < N {
            if i < self.n {
                let v = self.vars[i];
                let d = if v.kind == LITERAL { v.value } else { next };
                r.ok &= v.fields == 0 && v.kind <= LITERAL && d < LIMIT;
                let mut j = 0;
                while j < i {
                    r.moot |= r.discs[j] == d || self.vars[j].name == v.name;
                    j += 1;
                }
                r.moot |= match self.rust_repr {
                    Some(Some("u8")) => d > u8::MAX as u64,
                    Some(Some("u16")) => d > u16::MAX as u64,
                    Some(Some("i8")) => d > i8::MAX as u64,
                    Some(Some("i16")) => d > i16::MAX as u64,
                    Some(Some("i32")) => d > i32::MAX as u64,
                    _ => false,
                };
                r.discs[i] = d;
                if d > r.max {
                    r.max = d;
                }
                next = d.wrapping_add(1);
            }
            i += 1;
        }
        r
    }
    fn rust_rejects(&self) -> bool {
        matches!(self.rust_repr, Some(Some("packed" | "u7" | "f32")))
    }
    /// Valid exactly when ...
    fn valid(&self, r: &Rule) -> bool {
        let rust = match self.rust_repr {
            None => true,
            Some(None) => false,
            Some(Some(x)) => {
                matches!(x, "C" | "Rust" | "u8" | "u16" | "u32" | "u64" | "u128" | "usize")
                    || matches!(x, "i8" | "i16" | "i32" | "i64" | "i128" | "isize")
            }
        };
        let fits = |x: Option<&str>| match x {
            None => true,
            Some("u8") => r.max < 8,
            Some("u16") => r.max < 16,
            Some("u32") => r.max < 32,
            Some("u64") => r.max < 64,
            Some("u128") => r.max < 128,
            Some("array") => true,
            Some(_) => false,
        };
        let list_or_map = self.words.serialize_as_list || self.words.serialize_as_map;
        let serde = match self.words.serialize_repr {
            Some("list" | "map") => true,
            // the legacy attributes win, but what they override must still be a representation
            Some("u8" | "u16" | "u32" | "u64" | "u128") if list_or_map => true,
            x => fits(x),
        };
        self.data == 0 && self.params == 0 && rust && r.ok && fits(self.words.repr) && serde
    }
    fn syntax(&self) -> DeriveInput {
        let mut variants = std_vec::Vec::new();
        let mut i = 0;
        while i < N {
            if i < self.n {
                variants.push(self.vars[i].syntax());
            }
            i += 1;
        }
        let id = |text| Ident { text, id: NO_VARIANT };
        let mut attrs = mock_vec![
            Attribute { path: Path(id("doc")), arg: None },
            Attribute { path: Path(id("cfg")), arg: Some(id("transparent")) },
        ];
        if let Some(x) = self.rust_repr {
            attrs.push(Attribute { path: Path(id("repr")), arg: x.map(id) });
        }
        let mut params = std_vec::Vec::new();
        if self.params > 0 {
            params.push(0);
        }
        DeriveInput {
                attrs,
                vis: Visibility::Inherited,
                ident: id("E"),
                generics: Generics { params: Punctuated(params), where_clause: None },
                data: match self.data {
                    0 => Data::Enum(DataEnum { variants: Punctuated(variants) }),
                    1 => Data::Struct(DataStruct { fields: Fields::Unit }),
                    _ => Data::Union(DataUnion),
                },
                enumset: self.words,
        }
    }
    /// The definition as Rust source, for the replay against the compiled macro.
    #[cfg(not(kani))]
    fn show(&self, r: &Rule) {
        let mut a = vec![];
        let w = &self.words;
        for (k, v) in [("repr", w.repr), ("serialize_repr", w.serialize_repr)] {
            v.map(|v| a.push(format!("{k} = {v:?}")));
        }
        for (k, v) in [("serialize_as_list", w.serialize_as_list), ("serialize_as_map", w.serialize_as_map)] {
            if v {
                a.push(k.to_string());
            }
        }
        let attr = if a.is_empty() { String::new() } else { format!("#[enumset({})] ", a.join(", ")) };
        let rust = match self.rust_repr {
            None => String::new(),
            Some(None) => "#[repr(align(2))] ".into(),
            Some(Some(x)) => format!("#[repr({x})] "),
        };
        let vars: Vec<_> = self.vars[..self.n].iter().map(|v| v.text()).collect();
        let p = if self.params > 0 { "<T>" } else { "" };
        let body = match self.data {
            0 => format!("enum E{p} {{ {} }}", vars.join(", ")),
            1 => format!("struct E{p};"),
            _ => format!("union E{p} {{ a: u8 }}"),
        };
        println!("DEFINITION: {attr}{rust}{body}");
        println!("VALID: {}", if r.moot { "moot".into() } else { self.valid(r).to_string() });
        let names: Vec<_> = self.vars[..self.n].iter().map(|v| NAMES[v.name as usize & 3]).collect();
        let (ty, len) = storage_of(w.repr, r.max);
        println!("SIZE: {}", if ty == ARRAY { len * 8 } else { ty as usize / 8 });
        let forms = (w.serialize_as_list, w.serialize_as_map);
        println!("SERDE: {}", if forms.0 { LIST } else if forms.1 { MAP } else { serde_of(w.serialize_repr, r.max) });
        println!("VARIANTS: {}", names.join(" "));
        println!("DISCRIMINANTS: {}", r.discs[..self.n].iter().map(|d| d.to_string()).collect::<Vec<_>>().join(" "));
    }
    /// Runs the macro: `None` if it reports an error.
    fn derive(&self, r: &Rule) -> Option<Rec> {
        #[cfg(not(kani))]
        self.show(r);
        unsafe { INPUT = Some(self.syntax()) };
        let out = derive::entry(TokenStream::new()).rec;
        if out.error {
            None
        } else {
            Some(out)
        }
    }
}

/// Accepted exactly if valid; the macro never panics.
fn decided(d: &Def) {
    let r = d.rule();
    unsafe {
        DECIDE = true;
        VALID = d.valid(&r) || r.moot;
    }
    let out = d.derive(&r);
    check!(out.is_none(), "harness: only errors come back");
    check!(!d.valid(&r) || r.moot, "a definition is rejected only if it is not valid");
    reach!();
}

/// Variants of every kind, under every name, with every discriminant.
fn variants() {
    decided(&any_def())
}
/// Variants with discriminants alone, so that more of them fit.
fn discriminants() {
    let mut d = any_def();
    let mut i = 0;
    while i < N {
        d.vars[i].name = i as u8;
        d.vars[i].fields = 0;
        assume(d.vars[i].kind <= LITERAL);
        i += 1;
    }
    decided(&d)
}
/// Anything but an enum without type parameters.
fn other<const DATA: usize, const PARAMS: usize>() {
    let mut d = any_def();
    plain_vars(&mut d);
    d.data = DATA as u8;
    d.params = PARAMS;
    decided(&d)
}

// ---------------------------------------------------------------- representations
const WORD_OF: [Option<&str>; 12] = [
    None, Some("u8"), Some("u16"), Some("u32"), Some("u64"), Some("u128"), Some("array"), Some("list"), Some("map"),
    Some("u7"), Some(""), Some("U8"),
];
const RUST: [Option<&str>; 19] = [
    None, Some("C"), Some("Rust"), Some("u8"), Some("u16"), Some("u32"), Some("u64"), Some("u128"), Some("usize"),
    Some("i8"), Some("i16"), Some("i32"), Some("i64"), Some("i128"), Some("isize"), Some("transparent"),
    Some("packed"), Some("u7"), Some("f32"),
];
fn plain_vars(d: &mut Def) {
    let mut i = 0;
    while i < N {
        d.vars[i].name = i as u8;
        d.vars[i].fields = 0;
        assume(d.vars[i].kind <= LITERAL);
        i += 1;
    }
}
/// The storage asked for fits exactly when every discriminant does.
fn storage<const R: usize>() {
    let mut d = any_def();
    plain_vars(&mut d);
    d.words.repr = WORD_OF[R];
    decided(&d)
}
/// So does the serialized representation, which the legacy attributes override.
fn serialized<const R: usize>() {
    let mut d = any_def();
    plain_vars(&mut d);
    d.words.serialize_repr = WORD_OF[R];
    d.words.serialize_as_list = any();
    d.words.serialize_as_map = any();
    d.words.serialize_deny_unknown = any();
    d.words.no_ops = any();
    d.words.no_super_impls = any();
    decided(&d)
}
/// The enum's own representation is an integer type, `C` or `Rust`.
fn rust_repr<const R: usize>() {
    let mut d = any_def();
    plain_vars(&mut d);
    d.rust_repr = Some(RUST[R]);
    decided(&d)
}

// ---------------------------------------------------------------- layout
#[cfg(not(feature = "thorough"))]
const BITS: u64 = 192;
#[cfg(feature = "thorough")]
const BITS: u64 = 256;

/// The storage asked for, or the smallest that fits, and its words if it is an array.
fn storage_of(repr: Option<&str>, max: u64) -> (u8, usize) {
    let words = max as usize / 64 + 1;
    match repr {
        Some("u8") => (8, 0),
        Some("u16") => (16, 0),
        Some("u32") => (32, 0),
        Some("u64") => (64, 0),
        Some("u128") => (128, 0),
        Some("array") => (ARRAY, words),
        _ if max < 8 => (8, 0),
        _ if max < 16 => (16, 0),
        _ if max < 32 => (32, 0),
        _ if max < 64 => (64, 0),
        _ => (ARRAY, words),
    }
}
/// The serialized form asked for, or the smallest integer that fits, or words.
fn serde_of(repr: Option<&str>, max: u64) -> u8 {
    match repr {
        Some("u8") => 8,
        Some("u16") => 16,
        Some("u32") => 32,
        Some("u64") => 64,
        Some("u128") => 128,
        Some("list") => LIST,
        Some("map") => MAP,
        Some(_) => WORDS,
        _ if max < 8 => 8,
        _ if max < 16 => 16,
        _ if max < 32 => 32,
        _ if max < 64 => 64,
        _ if max < 128 => 128,
        _ => WORDS,
    }
}
/// What is generated for a valid definition; `decided` shows that it is accepted.
fn accepted(d: &Def, r: &Rule) -> Rec {
    unsafe { ACCEPTED = true };
    let o = d.derive(r);
    assume(o.is_some());
    o.unwrap()
}
/// A valid definition has the storage asked for, or the smallest that fits; exactly the declared bits
/// are valid; numbers and variants convert as Rust numbers them; and serde gets what was asked for.
fn layout<const R: usize, const S: usize>() {
    layout_with(R, S, false)
}
/// The same with the legacy attributes, which win.
fn legacy<const R: usize, const S: usize>() {
    layout_with(R, S, true)
}
fn layout_with(repr: usize, serialize_repr: usize, legacy: bool) {
    let mut d = any_def();
    let mut i = 0;
    while i < N {
        d.vars[i].name = i as u8;
        d.vars[i].fields = 0;
        assume(d.vars[i].kind <= LITERAL);
        assume(d.vars[i].kind == LITERAL || d.vars[i].value == 0);
        i += 1;
    }
    d.words.repr = WORD_OF[repr];
    d.words.serialize_repr = WORD_OF[serialize_repr];
    if legacy {
        d.words.serialize_as_list = any();
        d.words.serialize_as_map = any();
    }
    let r = d.rule();
    assume(d.valid(&r) && !r.moot && r.max < BITS);
    let o = accepted(&d, &r);

    let (ty, len) = storage_of(WORD_OF[repr], r.max);
    let l = generated();
    check!(l.repr.is_some(), "the set has a storage");
    let got = l.repr.unwrap();
    check!(got.ty == ty, "the storage is the one asked for, or the smallest that fits");
    if ty == ARRAY {
        check!(got.len == Some(len as u32), "an array has just enough words");
    }
    check!(l.with_repr.is_some() == (repr != 0 && ty != ARRAY), "the storage is public if an integer was asked for");
    if let Some(x) = l.with_repr {
        check!(x.ty == ty, "the public storage is the storage");
    }

    let mut bits = [0u64; 4];
    let mut i = 0;
    while i < N {
        bits[r.discs[i] as usize / 64 & 3] |= 1 << (r.discs[i] % 64);
        i += 1;
    }
    check!(l.all_bits.is_some(), "the set has a mask of valid bits");
    let m = l.all_bits.unwrap();
    if ty == ARRAY {
        check!(m.n_lits == len, "the mask is as long as the storage");
    } else {
        check!(m.n_lits == if ty == 128 { 2 } else { 1 }, "the mask is as long as the storage");
    }
    let k: usize = any();
    assume(k < 4);
    check!(m.lits[k] == bits[k], "exactly the declared bits are valid");
    check!(l.bit_width == Some(r.max as u32 + 1), "the bit width is the highest discriminant plus one");
    check!(l.variant_count == Some(N as u32), "every variant is counted");
    if l.n_values > 0 || l.n_names > 0 {
        check!(l.n_values == N && l.n_names == N, "every variant converts from its number");
        let k: usize = any();
        assume(k < N);
        check!(l.arm_names[k] == d.vars[k].name, "numbers and variants are paired in order");
        check!(l.arm_values[k] as u64 == r.discs[k], "variants are numbered as Rust numbers them");
    }

    let serde = if d.words.serialize_as_list {
        LIST
    } else if d.words.serialize_as_map {
        MAP
    } else {
        serde_of(WORD_OF[serialize_repr], r.max)
    };
    check!(o.serde == serde, "the serialized form is the one asked for, or the smallest integer that fits");
    reach!();
}
/// Without variants there are no bits; with one, there is one.
fn few<const COUNT: usize>() {
    let mut d = any_def();
    d.n = COUNT;
    d.vars[0].name = 0;
    d.vars[0].fields = 0;
    assume(d.vars[0].kind <= LITERAL && d.vars[0].value < BITS);
    let r = d.rule();
    assume(d.valid(&r) && !r.moot);
    accepted(&d, &r);
    let l = generated();
    check!(l.variant_count == Some(COUNT as u32), "every variant is counted");
    check!(l.bit_width == Some(if COUNT == 0 { 0 } else { r.max as u32 + 1 }), "the bit width is that of the variants");
    let m = l.all_bits.unwrap();
    let k: usize = any();
    assume(k < 4);
    let mask = if COUNT == 1 && r.max as usize / 64 == k { 1u64 << (r.max % 64) } else { 0 };
    check!(m.n_lits == r.max as usize / 64 + 1, "the mask has just enough words");
    check!(m.lits[k] == mask, "exactly the declared bits are valid");
    reach!();
}

macro_rules! each {
    ($group:ident $f:ident @ $u:tt $($name:ident = $($v:tt),+);* $(;)?) => {
        pub mod $group {
            $(
                #[cfg_attr(kani, kani::proof)]
                #[cfg_attr(kani, kani::unwind($u))]
                pub fn $name() { super::$f::<$($v),+>() }
            )*
            #[cfg(not(kani))]
            pub const TABLE: &[&[(&str, fn())]] = &[&[
                $((concat!(module_path!(), "::", stringify!($name)), $name as fn())),*
            ]];
        }
    };
}
plain!(decide variants @ 6, discriminants @ 6);
each!(decide_other other @ 7 structs = 1, 0; unions = 2, 0; generic = 0, 1; generic_struct = 1, 1);
each!(decide_storage storage @ 7 none = 0; u8 = 1; u16 = 2; u32 = 3; u64 = 4; u128 = 5; array = 6; list = 7; odd = 9;
      empty = 10; upper = 11);
each!(decide_serialized serialized @ 7 none = 0; u8 = 1; u16 = 2; u32 = 3; u64 = 4; u128 = 5; array = 6; list = 7;
      map = 8; odd = 9; empty = 10; upper = 11);
each!(decide_rust_repr rust_repr @ 7 not_a_word = 0; c = 1; rust = 2; u8 = 3; u16 = 4; u32 = 5; u64 = 6; u128 = 7;
      usize = 8; i8 = 9; i16 = 10; i32 = 11; i64 = 12; i128 = 13; isize = 14; transparent = 15; packed = 16; odd = 17;
      f32 = 18);
each!(layouts layout @ 7 none = 0, 0; u8 = 1, 0; u16 = 2, 0; u32 = 3, 0; u64 = 4, 0; u128 = 5, 0; array = 6, 0;
      none_u8 = 0, 1; none_u16 = 0, 2; none_u32 = 0, 3; none_u64 = 0, 4; none_u128 = 0, 5; none_array = 0, 6;
      none_list = 0, 7; none_map = 0, 8; array_u128 = 6, 5);
each!(layouts_legacy legacy @ 7 none = 0, 0; u8 = 0, 1; array = 0, 6);
each!(layouts_few few @ 7 none = 0; one = 1);
groups!(decide, decide_other, decide_storage, decide_serialized, decide_rust_repr, layouts, layouts_legacy, layouts_few);
