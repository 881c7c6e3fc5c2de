//! C21: the `Debug` and `Display` text of a set.
use crate::{rt::*, shapes::*, *};
use core::fmt::{self, Display, Write};
use enumset::*;

/// Compares what is written, byte by byte, with what should be.
pub struct Text {
    want: [u8; Text::CAP],
    len: usize,
    pos: usize,
    ok: bool,
    /// Write calls so far, and the one that fails.
    calls: usize,
    fail_at: usize,
    failed: bool,
}
impl Text {
    const CAP: usize = 64;
    fn new() -> Text {
        Text { want: [0; Text::CAP], len: 0, pos: 0, ok: true, calls: 0, fail_at: usize::MAX, failed: false }
    }
    fn expect(&mut self, s: &str) {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            self.want[self.len] = b[i];
            self.len += 1;
            i += 1;
        }
    }
    fn matched(&self) -> bool {
        self.ok && self.pos == self.len
    }
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if n == self.fail_at {
            self.failed = true;
            return Err(fmt::Error);
        }
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            self.ok &= self.pos < self.len && self.want[self.pos] == b[i];
            self.pos += 1;
            i += 1;
        }
        Ok(())
    }
}
/// The variants' own text.
pub trait Named<const W: usize>: Shape<W> + Display {
    const N: usize;
    /// The `i`th variant in ascending order of discriminants, and its names.
    fn sorted(i: usize) -> (u32, &'static str, &'static str);
}
fn members<E: Named<W>, const W: usize>(t: &mut Text, m: &[u64; W], debug: bool) {
    let mut first = true;
    let mut i = 0;
    while i < E::N {
        let (d, name, shown) = E::sorted(i);
        if has(m, d) {
            if !first {
                t.expect(" | ");
            }
            first = false;
            t.expect(if debug { name } else { shown });
        }
        i += 1;
    }
}
fn debug<E: Named<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut t = Text::new();
    t.expect("EnumSet(");
    members::<E, W>(&mut t, &m, true);
    t.expect(")");
    let r = write!(t, "{:?}", a);
    check!(r.is_ok(), "formatting succeeds if the writer does");
    check!(t.matched(), "Debug is `EnumSet(`, the members in ascending order between ` | `, and `)`");
    reach!();
}
fn debug_alternate<E: Named<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut t = Text::new();
    t.expect("EnumSet(");
    members::<E, W>(&mut t, &m, true);
    t.expect(")");
    let r = write!(t, "{:#?}", a);
    check!(r.is_ok(), "formatting succeeds if the writer does");
    check!(t.matched(), "alternate Debug is the same, on one line");
    reach!();
}
fn display<E: Named<W>, const W: usize>() {
    let (a, m) = any_set::<E, W>();
    let mut t = Text::new();
    members::<E, W>(&mut t, &m, false);
    let r = write!(t, "{}", a);
    check!(r.is_ok(), "formatting succeeds if the writer does");
    check!(t.matched(), "Display is the members in ascending order between ` | `");
    reach!();
}
fn failures<E: Named<W>, const W: usize>() {
    let (a, _) = any_set::<E, W>();
    let mut t = Text::new();
    t.fail_at = any();
    let r = if any() { write!(t, "{:?}", a) } else { write!(t, "{}", a) };
    check!(r.is_err() == t.failed, "formatting fails iff the writer does");
    reach!();
}
/// Variants whose text says whether they are shown with the options `+#3.5`.
macro_rules! telling {
    ($name:ident : $w:tt { $($v:ident = $d:tt),* }) => {
        #[derive(EnumSetType)]
        pub enum $name { $($v = $d),* }
        shape_impl!($name : $w { $($v),* });
        impl Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let all = f.sign_plus() && f.alternate() && f.width() == Some(3) && f.precision() == Some(5);
                let none = !f.sign_plus() && !f.alternate() && f.width().is_none() && f.precision().is_none();
                f.write_str(if all { "a" } else if none { "n" } else { "s" })
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                Display::fmt(self, f)
            }
        }
    };
}
telling!(Tell8: 1 { A = 3, B = 0 });
telling!(TellArr: 3 { A = 130, B = 5 });
macro_rules! options {
    ($($f:ident $form:literal $open:literal $each:literal $close:literal;)*) => {$(
        fn $f<E: Shape<W> + Display, const W: usize>() {
            let (a, m) = any_set::<E, W>();
            let mut t = Text::new();
            t.expect($open);
            let n = count(&m);
            if n > 0 {
                t.expect($each);
            }
            if n > 1 {
                t.expect(" | ");
                t.expect($each);
            }
            t.expect($close);
            let r = write!(t, $form, a);
            check!(r.is_ok() && t.matched(), "the members are shown with the format options given");
            reach!();
        }
    )*};
}
options! {
    options "{:+#3.5}" "" "a" "";
    no_options "{}" "" "n" "";
    debug_options "{:+#3.5?}" "EnumSet(" "a" ")";
    debug_no_options "{:?}" "EnumSet(" "n" ")";
}
inst!(o {options@12, no_options@12, debug_options@12, debug_no_options@12} Tell8: 1, TellArr: 3);
/// Variants in declaration order, then the same in ascending order with their `Display` text.
macro_rules! named {
    ($(#[$a:meta])* $name:ident : $w:tt { $($v:ident = $d:tt),* } $($s:ident $shown:literal),*) => {
        shape!($(#[$a])* $name: $w { $($v = $d),* });
        impl Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self { $($name::$s => f.write_str($shown)),* }
            }
        }
        impl Named<$w> for $name {
            const N: usize = <Self as Shape<$w>>::DISCS.len();
            #[inline(always)]
            fn sorted(i: usize) -> (u32, &'static str, &'static str) {
                let k = 0usize;
                $(if i == k { return ($name::$s as u32, stringify!($s), $shown); } let k = k + 1;)*
                unreachable!()
            }
        }
    };
}
named!(N8: 1 { C = 7, A = 0, Bb = 3 } A "", Bb "b", C "c!");
named!(N16: 1 { A = 15, B = 2 } B "b", A "high");
named!(N32: 1 { A = 31, B = 2, C = 16 } B "b", C "", A "high");
named!(N64: 1 { Zz = 63, A = 32, B = 0 } B "b", A "a", Zz "z");
named!(#[enumset(repr = "u128")] N128: 2 { Zz = 127, A = 63, B = 64 } A "a", B "b", Zz "z");
named!(NArr: 3 { Zz = 150, A = 63, B = 64 } A "a", B "b", Zz "z");
named!(N1: 1 { Only = 5 } Only "only");
named!(Lots: 3 { Zz = 150, A = 63, B = 64, C = 65, D = 1, E = 0, F = 127, G = 128, H = 9 }
    E "", D "d", H "h", A "a", B "b", C "c", F "f", G "g", Zz "z");
inst!(lots {debug@12, display@12} Lots: 3);
inst!(w1 {debug@12, debug_alternate@12, display@12, failures@12} N1: 1, N8: 1, N16: 1, N32: 1, N64: 1);
inst!(w2 {debug@12, debug_alternate@12, display@12, failures@12} N128: 2);
inst!(w3 {debug@12, debug_alternate@12, display@12, failures@12} NArr: 3);
groups!(o, lots, w1, w2, w3);
