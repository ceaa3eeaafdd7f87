//! C28: the macros work wherever they are used. States are program contexts: a name the program
//! defines, of every kind, or a placement, an edition and lint settings; the transition is the real
//! compiler on the real macros. A context counts only if the program is accepted without the
//! macros; then it has to be accepted with them and has to compute the right values.
use checks::rustc::{build_lits, compile_as, run};
use mc::{Check, Cx};

const OUTCOMES: &[&str] = &["works", "context not accepted by itself"];

/// Names from the prelude, of the crate, and short ones. The first letter decides what they can be.
const NAMES: &[&str] = &[
    "Option", "Some", "Result", "Ok", "Err", "Vec", "String", "Box", "From", "Into", "TryFrom", "TryInto", "Fn", "FnMut", "FnOnce", "Copy", "Clone", "Send",
    "Sized", "Drop", "Default", "Iterator", "AsRef", "ToString", "Eq", "PartialEq", "Ord", "FixedPoint", "ArithmeticError", "ConvertError", "Precision",
    "CheckedAdd", "CheckedSub", "CheckedMul", "RoundingMul", "RoundingDiv", "RoundMode", "Bounded", "Zero", "One", "Operand", "Literal", "Int", "Promotion",
    "Output", "Error", "Value", "VALUE", "VALUE_INNER", "INNER", "POW_10", "Number", "Money", "Sqrt", "A", "B", "E", "F", "I", "L", "N", "O", "P", "R", "S", "T", "U", "V",
    "X", "core", "std", "alloc", "ops", "typenum", "macros", "errors", "up", "promote", "parse_fixed", "parse_int", "pow10", "find", "from", "into", "from_bits", "identity", "result", "convert",
];
/// Macros a program may define.
const MACROS: &[&str] = &["stringify", "concat", "assert", "panic", "matches", "impl_op", "fixnum", "fixnum_const", "fixnum_const_priv"];
/// Methods that a trait in scope may give to everything.
const METHODS: &[&str] = &[
    "cadd", "csub", "cmul", "rmul", "rdiv", "saturating_add", "saturating_sub", "saturating_mul", "saturating_rmul", "promote", "from", "into", "try_into", "try_from", "map",
    "map_err", "ok_or", "from_bits", "into_bits", "up", "call_once", "clone", "and_then",
];
const KINDS: &[&str] = &["wrapper", "unit struct", "trait", "type alias", "result alias", "enum", "module", "function", "constant", "generic parameter"];
const EDITIONS: &[&str] = &["2015", "2018", "2021", "2024"];
const PLACES: &[&str] = &["root", "module", "function", "own macro", "other crate name", "imported", "renamed", "nested function", "trait", "no prelude"];
const LINTS: &[&str] = &[
    "",
    "#![deny(warnings)]",
    "#![deny(unused, nonstandard_style, future_incompatible, let_underscore)]",
    "#![deny(rust_2018_idioms, rust_2021_compatibility, rust_2024_compatibility)]",
    "#![deny(missing_docs)]",
    "#![forbid(unsafe_code)]",
    "#![no_std]",
];

/// What a program consists of.
#[derive(Clone)]
struct Context {
    edition: &'static str,
    /// inner attributes
    attrs: String,
    /// the definitions under which the macros have to work
    names: String,
    /// the name of one of the wrappers
    wrapper: String,
    /// type parameters of the functions with literals
    generics: String,
    place: &'static str,
    says: String,
}

fn context(says: String) -> Context {
    Context { edition: "2021", attrs: String::new(), names: String::new(), wrapper: "Price_".into(), generics: String::new(), place: "root", says }
}

/// The program. `macros`: whether the macros are used, or only everything around them.
fn program(c: &Context, macros: bool) -> String {
    let w = &c.wrapper;
    let (open, close, at) = match c.place {
        "module" => ("mod inside { pub mod deep {", "} }", "inside::deep::"),
        "function" | "nested function" => ("", "", ""),
        _ => ("", "", ""),
    };
    let path = match c.place {
        "imported" => String::new(),
        "renamed" => "mac::".to_string(),
        "other crate name" => "money::".to_string(),
        _ => "::lits::fixnum::".to_string(),
    };
    let imports = match c.place {
        "imported" => "use ::lits::fixnum::{impl_op, fixnum, fixnum_const};",
        "renamed" => "mod mac { pub use ::lits::fixnum::{impl_op, fixnum, fixnum_const}; }",
        "other crate name" => "use ::lits::fixnum as money;",
        _ => "",
    };
    let imports = if macros { imports } else { "" };
    let imp = |s: &str| if macros { format!("{path}impl_op!({s});\n") } else { String::new() };
    let ops: String = [
        "Count_ [cadd] Count_ = Count_",
        "Count_ [csub] Count_ = Count_",
        &format!("Count_ [cmul] {w} = {w}"),
        &format!("{w} [cadd] {w} = {w}"),
        &format!("{w} [csub] {w} = {w}"),
        &format!("{w} [rmul] Ratio_ = {w}"),
        &format!("{w} [rdiv] Ratio_ = {w}"),
        &format!("{w} [rdiv] {w} = Ratio_"),
        &format!("{w} [rdiv] Count_ = {w}"),
    ]
    .iter()
    .map(|s| imp(s))
    .collect();
    let ops = match c.place {
        "function" if macros => format!("pub fn around() {{ {ops} }}"),
        "nested function" if macros => format!("pub fn around<Q1_>(_: &Q1_) {{ fn deep() {{ {ops} }} deep() }}"),
        "own macro" if macros => format!(
            "macro_rules! ops_ {{ ($c:ident $w:ident $r:ident) => {{ {} }} }}\nops_!(Count_ {w} Ratio_);",
            ops.replace("Count_", "$c").replace("Ratio_", "$r").replace(&format!("{w} "), "$w ").replace(&format!("{w})"), "$w)")
        ),
        _ => ops,
    };
    // a literal, or the number by itself
    let lit = |m: &str, t: &str| if macros { format!("{path}{m}!({t}, 4)") } else { format!("F_::from_bits({})", if t.starts_with('-') { "-12500" } else { "12500" }) };
    let own = if c.place == "own macro" && macros { format!("macro_rules! lit_ {{ ($l:literal) => {{ {path}fixnum_const!($l, 4) }} }}") } else { String::new() };
    let konst = if c.place == "own macro" && macros { "lit_!(1.25)".to_string() } else { lit("fixnum_const", "1.25") };
    let neg = if c.place == "own macro" && macros { "lit_!(-1.25)".to_string() } else { lit("fixnum_const", "-1.25") };
    let g = if c.generics.is_empty() { String::new() } else { format!("<{}>", c.generics) };
    let turbo = if c.generics.is_empty() { "" } else { "::<u8>" };
    let lits = format!(
        "{own}\npub const A_: F_ = {konst};\npub static S_: F_ = {neg};\npub const fn in_const_() -> F_ {{ {konst} }}\npub static ALL_: [F_; 2] = [{konst}, {neg}];\npub fn literal_{g}() -> F_ {{ {} }}\npub fn wrapped_{g}() -> {w} {{ {} }}\n{}",
        lit("fixnum", "1.25"),
        if macros { lit("fixnum", "-1.25") } else { format!("{w}(F_::from_bits(-12500))") },
        if c.place == "trait" { format!("pub trait Has_ {{ const K_: F_ = {konst}; fn lit_(&self) -> F_ {{ {} }} }}\nimpl Has_ for Count_ {{}}", lit("fixnum", "1.25")) } else { String::new() },
    );
    let types = format!(
        "#[derive(Clone, Copy, Debug)] pub struct Count_(pub i16);\n#[derive(Clone, Copy, Debug)] pub struct Ratio_(pub F_);\n{}",
        if c.names.contains("WRAPPER") || c.wrapper == "Price_" { format!("#[derive(Clone, Copy, Debug)] pub struct {w}(pub F_);") } else { String::new() }
    );
    let derives = |s: String| s.replace("#[derive(Clone, Copy, Debug)]", "");
    // plain implementations, with nothing taken from the scope
    let by_hand: String = [("Count_", "i16"), ("Ratio_", "F_"), (w.as_str(), "F_")]
        .iter()
        .map(|(t, of)| {
            format!(
                "impl ::core::clone::Clone for {t} {{ fn clone(&self) -> Self {{ *self }} }}\nimpl ::core::marker::Copy for {t} {{}}\n\
                 impl ::core::fmt::Debug for {t} {{ fn fmt(&self, x_: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ ::core::fmt::Debug::fmt(&self.0, x_) }} }}\n\
                 impl ::core::convert::From<{of}> for {t} {{ fn from(x_: {of}) -> Self {{ {t}(x_) }} }}\n\
                 impl ::core::cmp::PartialEq for {t} {{ fn eq(&self, x_: &Self) -> bool {{ self.0 == x_.0 }} }}\n\
                 impl ::core::cmp::PartialOrd for {t} {{ fn partial_cmp(&self, x_: &Self) -> ::core::option::Option<::core::cmp::Ordering> {{ ::core::cmp::PartialOrd::partial_cmp(&self.0, &x_.0) }} }}\n\
                 impl ::lits::fixnum::ops::Zero for {t} {{ const ZERO: Self = {t}(<{of} as ::lits::fixnum::ops::Zero>::ZERO); }}\n\
                 impl ::lits::fixnum::ops::Bounded for {t} {{ const MIN: Self = {t}(<{of} as ::lits::fixnum::ops::Bounded>::MIN); const MAX: Self = {t}(<{of} as ::lits::fixnum::ops::Bounded>::MAX); }}\n"
            )
        })
        .collect();
    let ask = if macros {
        format!(
            "mod ask {{
    use super::{at}{{Count_, Ratio_, F_, {w} as Price_, A_, S_, ALL_, in_const_, literal_, wrapped_}};
    use lits::fixnum::ops::{{CheckedAdd, CheckedSub, CheckedMul, RoundingMul, RoundingDiv, RoundMode}};
    pub fn go() {{
        let n = |v: i64| Price_(F_::from_bits(v));
        let raw = |r: Result<Price_, lits::fixnum::ArithmeticError>| r.map(|x| x.0.into_bits());
        let m = RoundMode::Ceil;
        let r = Ratio_(F_::from_bits(15000));
        ::std::assert_eq!(Count_(3).cadd(Count_(4)).map(|x| x.0), Ok(7));
        ::std::assert_eq!(Count_(3).csub(Count_(4)).map(|x| x.0), Ok(-1));
        ::std::assert!(Count_(i16::MAX).cadd(Count_(1)).is_err());
        ::std::assert_eq!(Count_(i16::MAX).saturating_add(Count_(1)).0, i16::MAX);
        ::std::assert_eq!(raw(Count_(3).cmul(n(12345))), Ok(37035));
        ::std::assert_eq!(raw(n(12345).cadd(n(1))), Ok(12346));
        ::std::assert_eq!(raw(n(12345).csub(n(1))), Ok(12344));
        ::std::assert_eq!(n(i64::MAX).saturating_add(n(1)).0.into_bits(), i64::MAX);
        ::std::assert_eq!(n(i64::MIN).saturating_sub(n(1)).0.into_bits(), i64::MIN);
        ::std::assert_eq!(raw(n(12345).rmul(r, m)), Ok(18518));
        ::std::assert_eq!(raw(n(12345).rdiv(r, m)), Ok(8230));
        ::std::assert_eq!(n(12345).rdiv(n(2), m).map(|x: Ratio_| x.0.into_bits()), Ok(61725000));
        ::std::assert_eq!(raw(n(12345).rdiv(Count_(2), m)), Ok(6173));
        ::std::assert!(raw(n(12345).rdiv(Count_(0), m)).is_err());
        ::std::assert_eq!((A_.into_bits(), S_.into_bits()), (12500, -12500));
        ::std::assert_eq!((in_const_().into_bits(), ALL_[0].into_bits(), ALL_[1].into_bits()), (12500, 12500, -12500));
        ::std::assert_eq!((literal_{turbo}().into_bits(), wrapped_{turbo}().0.into_bits()), (12500, -12500));
        {}
        ::std::println!(\"fine\");
    }}
}}
fn main() {{ ask::go() }}",
            if c.place == "trait" { "use super::Has_; ::std::assert_eq!((Count_(1).lit_().into_bits(), <Count_ as Has_>::K_.into_bits()), (12500, 12500));" } else { "" }
        )
    } else {
        format!("mod ask {{ use super::{at}{{Count_, {w} as Price_}}; pub fn go() {{ let _ = (Count_(1), Price_(super::{at}A_)); ::std::println!(\"fine\"); }} }}\nfn main() {{ ask::go() }}")
    };
    let crates = if c.edition == "2015" && c.attrs.contains("no_std") { "extern crate lits;" } else if c.edition == "2015" { "extern crate core; extern crate lits;" } else { "" };
    let crates = if c.attrs.contains("no_std") { format!("{crates} extern crate std;") } else { crates.to_string() };
    let (path0, prelude) = match c.place {
        "no prelude" => ("#![no_implicit_prelude]\n", "#[allow(unused_imports)] use ::std::prelude::v1::{derive};\n#[macro_use] extern crate std;\n".to_string()),
        _ => ("", String::new()),
    };
    let _ = prelude;
    if c.place == "no prelude" {
        // only the part with the macros lacks the prelude
        return format!(
            "{}\n#![allow(dead_code, non_camel_case_types, non_upper_case_globals)]\n{crates}\npub mod bare {{\n{path0}pub type F_ = ::lits::fixnum::FixedPoint<i64, ::lits::fixnum::typenum::U4>;\n{}\n{by_hand}\n{ops}\n{lits}\n}}\nuse bare::*;\n{}",
            c.attrs,
            derives(types),
            ask.replace("super::{", "super::bare::{").replace("super::A_", "super::bare::A_")
        );
    }
    // what the context defines must not reach what is written by hand, so that goes by absolute paths
    format!(
        "{}\n//! Generated.\n{}\n{crates}\n{imports}\n{open}\n{}\n{}\n{by_hand}\n{}\n{ops}\n{lits}\n{close}\n{ask}\n",
        c.attrs,
        if c.attrs.is_empty() { "#![allow(warnings)]" } else { "#![allow(dead_code, unused_macros, non_camel_case_types, non_upper_case_globals, missing_docs, unreachable_pub, unused_imports, missing_debug_implementations, missing_copy_implementations, unused_qualifications, unused_results)]" },
        "pub type F_ = ::lits::fixnum::FixedPoint<i64, ::lits::fixnum::typenum::U4>;",
        derives(types),
        c.names.replace("WRAPPER", ""),
    )
    .replace("impl_op,", "impl_op,")
}

fn contexts(thorough: bool) -> Vec<Context> {
    let mut v = vec![];
    for k in KINDS {
        for n in NAMES {
            let mut c = context(format!("a {k} named {n}"));
            match *k {
                "wrapper" => {
                    c.wrapper = n.to_string();
                    c.names = "WRAPPER".into();
                }
                "unit struct" => c.names = format!("pub struct {n};"),
                "trait" => c.names = format!("pub trait {n} {{ fn method_(&self) {{}} }}\nimpl {n} for Count_ {{}}"),
                "type alias" => c.names = format!("pub type {n} = u8;"),
                "result alias" => c.names = format!("pub type {n}<T_> = ::core::result::Result<T_, Count_>;"),
                "enum" => c.names = format!("pub enum {n} {{ A, B }}"),
                "module" => c.names = format!("pub mod {n} {{ pub struct Inside_; }}"),
                "function" => c.names = format!("pub fn {n}() -> u8 {{ 1 }}"),
                "constant" => c.names = format!("pub const {n}: u8 = 1;"),
                _ => c.generics = n.to_string(),
            }
            v.push(c);
        }
    }
    for n in MACROS {
        let mut c = context(format!("a macro named {n}"));
        c.names = format!("macro_rules! {n} {{ ($($x:tt)*) => {{ compile_error!(\"the program's own macro\") }} }}");
        v.push(c);
    }
    for n in METHODS {
        for by in ["self", "&self"] {
            let mut c = context(format!("a trait that gives everything a method {n}({by})"));
            c.names = format!("pub trait Ext_: ::core::marker::Sized {{ fn {n}({by}) -> u8 {{ 1 }} }}\nimpl<T_> Ext_ for T_ {{}}");
            v.push(c);
        }
    }
    for place in PLACES {
        for edition in EDITIONS {
            for (l, lints) in LINTS.iter().enumerate() {
                if !thorough && l > 0 && *place != "root" && *place != "module" {
                    continue;
                }
                let mut c = context(format!("{place}, edition {edition}{}{lints}", if l > 0 { ", " } else { "" }));
                c.place = place;
                c.edition = edition;
                c.attrs = lints.to_string();
                v.push(c);
            }
        }
    }
    v
}

fn visit(c: &Context, profile: &str, i: u64, cx: &mut Cx) {
    cx.states += 1;
    cx.traces += 1;
    let case = || format!("{} ({profile} build)", c.says);
    let text = program(c, true);
    let (r, exe) = compile_as("c28", &format!("m{i}{profile}"), profile, &["--edition", c.edition], &text);
    if r.ok {
        let (out, end) = run(&exe);
        cx.judge(0, end && out.trim() == "fine", case, || "the program compiles, but computes something else".into());
        if i % 50 == 3 {
            cx.sample(|| format!("{}: compiles and computes", c.says));
        }
        return;
    }
    let (plain, exe) = compile_as("c28", &format!("p{i}{profile}"), profile, &["--edition", c.edition], &program(c, false));
    if !plain.ok {
        cx.step(1);
        if std::env::var_os("C28_SHOW").is_some() {
            eprintln!("{}: {}", c.says, plain.text.lines().find(|l| l.starts_with("error")).unwrap_or(""));
        }
        return;
    }
    let _ = std::fs::remove_file(exe);
    let first = r.text.lines().find(|l| l.starts_with("error")).unwrap_or("no message").to_string();
    if std::env::var_os("C28_SHOW").is_some() {
        eprintln!("{}:\n{}", c.says, r.text);
    }
    cx.judge(0, false, case, || format!("the program compiles without the macros, but not with them ({first})"));
}

fn main() {
    let mut c = Check::new("C28", OUTCOMES);
    let thorough = c.thorough;
    c.rule(
        "states are contexts of a program: every name of a list as every kind of item, trait methods on everything, macros of the same names, and every \
         placement x edition x lint setting; the transition is the compiler on a program with all macros in that context. A context that is accepted without \
         the macros must be accepted with them, and the compiled program must compute the known values.",
    );
    let all = std::sync::Arc::new(contexts(thorough));
    let profiles: &[&'static str] = if thorough { &["debug", "release"] } else { &["debug"] };
    if !std::env::args().any(|a| a == "--child") {
        profiles.iter().for_each(|p| build_lits(p));
    }
    c.bound(format!(
        "{} names x {} kinds, {} methods x 2, {} macros, {} placements x {} editions x {} lint settings{}: {} contexts x {} builds of the crate",
        NAMES.len(),
        KINDS.len(),
        METHODS.len(),
        MACROS.len(),
        PLACES.len(),
        EDITIONS.len(),
        LINTS.len(),
        if thorough { "" } else { " (lints at two placements)" },
        all.len(),
        profiles.len()
    ));
    for p in profiles {
        let all = all.clone();
        c.job(format!("contexts, {p}"), all.len() as u64, move |i, cx| visit(&all[i as usize], p, i, cx));
    }
    c.run()
}
