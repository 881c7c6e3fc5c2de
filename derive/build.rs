//! Turns the source of the real derive macro, as it is now in /repo, into a module of this crate.
//!
//! Only what ties the file to being a procedural macro is touched: the inner attributes, the `extern
//! crate`, the `proc_macro_derive` and `darling` attributes. `darling`'s derive becomes an impl that
//! fills every field from the attribute of the same name. The names `syn`, `quote`, `darling`,
//! `proc_macro` and `proc_macro2` then resolve to the stand-ins in src/mock.rs.
use std::{env, fs, path::Path};

/// The words of `#[enumset(...)]`, numbered as in src/mock.rs.
const WORDS: [&str; 7] = [
    "repr", "serialize_repr", "serialize_as_list", "serialize_as_map", "serialize_deny_unknown", "no_ops",
    "no_super_impls",
];
const SOURCE: &str = "/repo/enumset_derive/src/lib.rs";

/// Where the attribute starting at `i` (at its `#`) ends.
fn attr_end(s: &str, i: usize) -> usize {
    let (mut depth, mut in_str, mut esc) = (0, false, false);
    for (k, c) in s[i..].char_indices() {
        if in_str {
            match c {
                _ if esc => esc = false,
                '\\' => esc = true,
                '"' => in_str = false,
                _ => {}
            }
            continue;
        }
        match c {
            '"' => in_str = true,
            '[' => depth += 1,
            ']' => {
                depth -= 1;
                if depth == 0 {
                    return i + k + 1;
                }
            }
            _ => {}
        }
    }
    panic!("unterminated attribute");
}
fn drop_attrs(s: &mut String, start: &str) {
    while let Some(i) = s.find(start) {
        let e = attr_end(s, i);
        s.replace_range(i..e, "");
    }
}
/// The text inside the braces that open at or after `i`.
fn braces(s: &str, i: usize) -> &str {
    let a = i + s[i..].find('{').unwrap();
    let mut depth = 0;
    for (k, c) in s[a..].char_indices() {
        match c {
            '{' => depth += 1,
            '}' => {
                depth -= 1;
                if depth == 0 {
                    return &s[a + 1..a + k];
                }
            }
            _ => {}
        }
    }
    panic!("unterminated braces");
}
fn is_ident(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn word(s: &str) -> String {
    s.trim_start().chars().take_while(|c| is_ident(*c)).collect()
}

fn main() {
    println!("cargo:rerun-if-changed={SOURCE}");
    println!("cargo:rerun-if-changed=build.rs");
    let text = fs::read_to_string(SOURCE).unwrap();
    // whole-line comments go: they may mention what is looked for below
    let mut s: String = text.lines().filter(|l| !l.trim_start().starts_with("//")).map(|l| format!("{l}\n")).collect();
    drop_attrs(&mut s, "#![");
    s = s.replace("extern crate proc_macro;", "");

    // the entry point
    let i = s.find("#[proc_macro_derive(").expect("the derive macro");
    let e = attr_end(&s, i);
    let f = e + s[e..].find("fn ").unwrap() + 3;
    let entry = word(&s[f..]);
    s.replace_range(i..e, "");

    // the attributes darling reads
    let mut impls = String::new();
    while let Some(i) = s.find("FromDeriveInput,").or_else(|| s.find("FromDeriveInput)]")) {
        // in a `derive` list
        let start = s[..i].rfind("#[derive").expect("derive");
        let end = attr_end(&s, start);
        let list = s[start..end].replace("FromDeriveInput,", "").replace("FromDeriveInput", "");
        s.replace_range(start..end, &list);
        let k = start + s[start..].find("struct ").unwrap() + 7;
        let name = word(&s[k..]);
        let body = {
            let mut b = braces(&s, k).to_string();
            drop_attrs(&mut b, "#[");
            b
        };
        let mut fields = String::new();
        // fields are separated by commas outside angle brackets
        let (mut depth, mut cur, mut all) = (0, String::new(), vec![]);
        for l in body.lines() {
            let l = l.split("//").next().unwrap();
            for c in l.chars() {
                match c {
                    '<' | '(' => depth += 1,
                    '>' | ')' => depth -= 1,
                    ',' if depth == 0 => {
                        all.push(std::mem::take(&mut cur));
                        continue;
                    }
                    _ => {}
                }
                cur.push(c);
            }
        }
        all.push(cur);
        for f in all {
            let Some((n, _)) = f.split_once(':') else { continue };
            let n = n.trim().rsplit(' ').next().unwrap();
            fields += &format!("{n}: crate::mock::darling::FromAttr::from_attr({}, input), ",
                WORDS.iter().position(|w| *w == n).unwrap_or(WORDS.len()));
        }
        impls += &format!(
            "impl crate::mock::darling::FromDeriveInput for {name} {{
                fn from_derive_input(input: &crate::mock::syn::DeriveInput)
                    -> ::core::result::Result<Self, crate::mock::darling::Error> {{
                    Ok({name} {{ {fields} }})
                }}
            }}\n"
        );
    }
    drop_attrs(&mut s, "#[darling");

    // the standard library, but for its hash tables
    let mut out = String::new();
    let mut prev = ' ';
    let mut rest = s.as_str();
    while let Some(c) = rest.chars().next() {
        if rest.starts_with("std::") && !is_ident(prev) && prev != ':' {
            out += "crate::mock::std_::";
            rest = &rest[5..];
            prev = ':';
            continue;
        }
        out.push(c);
        prev = c;
        rest = &rest[c.len_utf8()..];
    }
    out += &impls;
    out += &format!("pub fn entry(x: TokenStream) -> TokenStream {{ {entry}(x) }}\n");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("derive.rs"), out).unwrap();
}
