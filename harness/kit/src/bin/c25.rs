//! C25: the derive works on every kind of type and whatever names its surroundings define.
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;

struct Feature {
    name: &'static str,
    files: Vec<(&'static str, Vec<N>)>,
    /// The template itself names `Some` and `None`.
    names: bool,
}

fn forx(v: &str, iter: E, cond: Option<E>, body: Vec<N>, els: Option<Vec<N>>) -> N {
    N::For(Box::new(For { ws1: N0, var: pn(v), iter, cond, body, els: els.map(|e| (N0, e)), ws2: N0 }))
}

fn features() -> Vec<Feature> {
    let mut v = vec![];
    let mut add = |name, nodes: Vec<N>| v.push(Feature { name, files: vec![("a.html", nodes)], names: false });
    let lp = |n| out(E::Loop(n));
    let fl = |n: &str, b| N::Filter(vec![(n.into(), vec![])], N0, b, N0);
    add("text", vec![t("<text>")]);
    add("nothing", vec![]);
    add("expressions", vec![outv("n"), outv("s"), outv("g"), out(st("<"))]);
    add("self", vec![out(E::SelfF("n".into())), out(E::SelfF("s".into()))]);
    add("operators", vec![out(bin("+", var("n"), int(1))), out(bin("==", bin("*", var("n"), int(2)), int(4))), out(un("!", var("b"))), out(un("-", var("n"))), out(bin("&&", bin("<", var("n"), int(9)), var("b")))]);
    add("if", vec![ifelse(var("b"), vec![t("y")], vec![t("n")]), ifelse(bin(">", var("n"), int(1)), vec![outv("s")], vec![]), if_(un("!", var("b")), vec![t("not")])]);
    add("if and", vec![ifelse(bin("&&", var("b"), bin("==", var("n"), int(2))), vec![t("y")], vec![t("n")])]);
    add("else if", vec![N::If(vec![(N0, Some(Cond::Expr(bin("==", var("n"), int(1)))), vec![t("1")]), (N0, Some(Cond::Expr(var("b"))), vec![t("b")]), (N0, None, vec![t("e")])], N0)]);
    add("match", vec![N::Match(N0, var("n"), "".into(), vec![(N0, P::Lit(i(2)), vec![t("two")]), (N0, pn("k"), vec![outv("k")])], N0)]);
    add("match of text", vec![N::Match(N0, var("s"), "".into(), vec![(N0, P::Lit(s("a<b")), vec![t("x")]), (N0, P::Wild, vec![outv("s")])], N0)]);
    add("for", vec![forx("x", var("v"), None, vec![outv("x"), lp("index"), lp("index0"), lp("first"), lp("last")], None)]);
    add("for else", vec![forx("x", var("v"), None, vec![outv("x")], Some(vec![t("none")]))]);
    add("for if", vec![forx("x", var("v"), Some(bin("!=", E::Via(Box::new(var("x")), ".abs()".into()), int(5))), vec![outv("x"), lp("index"), lp("last")], Some(vec![t("none")]))]);
    add("for in a range", vec![forx("x", E::Range(Some(Box::new(int(0))), Some(Box::new(int(3))), false), None, vec![outv("x"), outv("n")], None)]);
    add("for in an array", vec![forx("x", E::Arr(vec![int(4), int(5)]), None, vec![outv("x"), lp("last")], None)]);
    add("for in a call", vec![forx("x", E::Via(Box::new(var("v")), ".iter()".into()), None, vec![outv("x")], None)]);
    add("cycle", vec![forx("x", var("v"), None, vec![out(E::Cycle(vec![int(1), int(2)]))], None)]);
    add("break and continue", vec![forx("x", var("v"), None, vec![t("<"), if_(E::Loop("first"), vec![t("f"), N::Continue(N0)]), outv("x"), if_(E::Loop("last"), vec![N::Break(N0)]), t(">")], Some(vec![t("e")]))]);
    add("nested loops", vec![forx("x", var("v"), None, vec![forx("y", var("v"), None, vec![outv("x"), outv("y"), lp("index")], None), lp("index")], None)]);
    add("let", vec![let_("k", bin("+", var("n"), int(1))), outv("k"), let_("n", st("t>")), outv("n"), let_("s", var("s")), outv("s")]);
    add("late let", vec![N::Let(pn("k"), None, N0), ifelse(var("b"), vec![let_("k", int(1))], vec![let_("k", int(2))]), outv("k")]);
    add("let of a tuple", vec![N::Let(P::Tuple("".into(), vec![pn("p"), pn("q")]), Some(E::Tup(vec![int(1), st("<")])), N0), outv("p"), outv("q")]);
    add("macro", vec![macro_("m", &["p", "q"], vec![t("("), outv("p"), outv("q"), t(")")]), call("m", vec![int(1), var("s")]), call("m", vec![var("g"), var("n")])]);
    add("macro of macro", vec![macro_("m", &["p"], vec![t("("), outv("p"), t(")")]), macro_("k", &["p"], vec![call("m", vec![var("p")]), call("m", vec![st("&")])]), call("k", vec![var("s")])]);
    add("filter block", vec![fl("upper", vec![t("ab"), outv("s"), fl("lower", vec![t("CD"), outv("n")])])]);
    add("filter block in a loop", vec![forx("x", var("v"), None, vec![fl("upper", vec![t("ab"), if_(E::Loop("last"), vec![N::Break(N0)]), outv("x")])], None)]);
    add("filters", vec![out(filt(var("s"), "upper", vec![])), out(filt(var("s"), "safe", vec![])), out(filt(var("n"), "escape", vec![])), out(filt(filt(var("s"), "trim", vec![]), "upper", vec![]))]);
    add("format", vec![out(E::Via(Box::new(var("n")), "|fmt(\"{:>1}\")".into())), out(E::Known("\"{}-{}\"|format(1, 2)".into(), s("1-2"))), out(E::Known("[1, 2]|join(\"-\")".into(), s("1-2")))]);
    add("blocks", vec![t("["), block("p", vec![outv("n"), block("q", vec![outv("s")])]), t("]")]);
    add("method calls", vec![out(E::Via(Box::new(var("n")), ".abs()".into())), out(E::Index(Box::new(var("v")), Box::new(int(1))))]);
    add("white space and comments", vec![t("a \n "), N::Comment("c".into(), (W::Suppress, W::Suppress).into_ws()), t(" \n b"), N::Raw("{{ n }}".into(), N0, N0)]);
    v.push(Feature { name: "if let", files: vec![("a.html", vec![N::If(vec![(N0, Some(Cond::Let(P::Tuple("Some".into(), vec![pn("k")]), var("o"))), vec![outv("k")]), (N0, None, vec![t("none")])], N0)])], names: true });
    v.push(Feature { name: "match of an option", files: vec![("a.html", vec![N::Match(N0, var("o"), "".into(), vec![(N0, P::Tuple("Some".into(), vec![pn("k")]), vec![outv("k")]), (N0, P::Path("None".into()), vec![t("none")])], N0)])], names: true });
    v.push(Feature { name: "no extension", files: vec![("noext", vec![outv("n"), outv("s")])], names: false });
    v.push(Feature { name: "include", files: vec![("a.html", vec![t("<"), N::Include("b.html".into(), N0), t(">")]), ("b.html", vec![outv("n"), outv("s")])], names: false });
    v.push(Feature { name: "import", files: vec![("a.html", vec![N::Import("b.html".into(), "sc".into(), N0), N::Call(Some("sc".into()), "m".into(), vec![(None, var("s"))], N0)]), ("b.html", vec![macro_("m", &["p"], vec![outv("p"), t("!")])])], names: false });
    v.push(Feature { name: "extends", files: vec![("a.html", vec![N::Extends("b.html".into()), block("p", vec![outv("n"), N::Super(N0)])]), ("b.html", vec![t("<"), block("p", vec![outv("s")]), t(">")])], names: false });
    v
}

trait IntoWs {
    fn into_ws(self) -> Ws;
}
impl IntoWs for (W, W) {
    fn into_ws(self) -> Ws {
        Ws(Some(self.0), Some(self.1))
    }
}

/// Type definitions around the fields `n: i32, s: text, v: list, o: option, b: bool, g: i32`.
fn items() -> Vec<(String, String)> {
    const F: &str = "pub n: i32, pub s: &'static str, pub v: &'static [i32], pub o: ::std::option::Option<i32>, pub b: bool";
    const MF: &str = "n: @0, s: @1, v: @2, o: @3, b: @4";
    let mut v: Vec<(String, String)> = vec![];
    // Generics; how the value is made: of `T`, with more fields.
    let l = F.replace("'static", "'a");
    let d = "::std::fmt::Display";
    let gens: Vec<(String, String, &str, &str)> = vec![
        ("".into(), "".into(), F, "g: i32"),
        ("<'a>".into(), "".into(), &l, "g: i32"),
        ("<'a,>".into(), "".into(), &l, "g: &'a i32"),
        ("<'a, 'c: 'a>".into(), "".into(), &l, "g: &'c i32"),
        ("<'a, 'c>".into(), " where 'c: 'a".into(), &l, "g: &'a &'c i32"),
        ("<'a, 'a1, 'askama, 'askama1, 'f, 'writer>".into(), "".into(), &l, "g: i32, pub l: ::std::marker::PhantomData<(&'a1 (), &'askama (), &'askama1 (), &'f (), &'writer ())>"),
        (format!("<G: {d}>"), "".into(), F, "g: G"),
        (format!("<G: {d} + ::std::marker::Copy,>"), "".into(), F, "g: G"),
        ("<G>".into(), format!(" where G: {d}"), F, "g: G"),
        ("<G>".into(), format!(" where G: {d}, G: ::std::marker::Copy,"), F, "g: G"),
        (format!("<G: {d} = i32>"), "".into(), F, "g: G"),
        ("<G = i32>".into(), format!(" where G: {d}"), F, "g: G"),
        (format!("<'a, G: ?::std::marker::Sized + {d}>"), "".into(), &l, "g: &'a G"),
        (format!("<'a, G: 'a + {d}>"), " where &'a G: ::std::marker::Copy".into(), &l, "g: &'a G"),
        ("<G>".into(), format!(" where for<'x> &'x G: {d}"), F, "g: G"),
        ("<G>".into(), format!(" where [G; 1]: ::std::marker::Sized, G: {d}, ::std::vec::Vec<G>: ::std::marker::Send"), F, "g: G"),
        (format!("<G: ::std::ops::Deref<Target = H> + {d}, H: {d} + 'static>"), "".into(), F, "g: G"),
        ("<G: ::std::iter::Iterator>".into(), format!(" where G::Item: {d}"), F, "g: i32, pub l: ::std::marker::PhantomData<G>"),
        ("<const K: usize>".into(), "".into(), F, "g: i32, pub l: [u8; K]"),
        ("<const K: usize = 2>".into(), "".into(), F, "g: i32, pub l: [u8; K]"),
        ("<const B: bool, const C: char = 'x', const I: i64 = { -1 }>".into(), "".into(), F, "g: i32, pub l: [u8; 2]"),
        (format!("<'a, G: {d}, const K: usize>"), " where [G; K]: ::std::marker::Sized".into(), &l, "g: G, pub l: [G; K]"),
        (format!("<const K: usize, G: {d} = i32, H = [u8; K]>"), " where H: ::std::marker::Sized".into(), F, "g: G, pub l: H"),
        (format!("<W: {d}, F, E, R>"), " where F: ::std::marker::Sized".into(), F, "g: W, pub l: ::std::marker::PhantomData<(F, E, R)>"),
        (format!("<Template: {d}, Display, Formatter, Write, Error, Self_>"), "".into(), F, "g: Template, pub l: ::std::marker::PhantomData<(Display, Formatter, Write, Error, Self_)>"),
        (format!("<String: {d}, Ok, Vec, Result, Box, Option, Cow, askama, std, core>"), "".into(), F, "g: String, pub l: ::std::marker::PhantomData<(Ok, Vec, Result, Box, Option, Cow, askama, std, core)>"),
    ];
    for (g, w, f, x) in gens {
        let gv = match x {
            _ if x.contains("Target") || g.contains("Target") => "&@5",
            _ if x.starts_with("g: &'a &") => "&&@5",
            _ if x.starts_with("g: &") => "&@5",
            _ => "@5",
        };
        let lv = match x.split_once("pub l: ").map(|y| y.1) {
            None => String::new(),
            Some(y) if y.starts_with("::std::marker") => ", l: ::std::marker::PhantomData".into(),
            Some(y) if y.contains("G; ") => ", l: [1, 2]".into(),
            _ => ", l: [1, 2]".into(),
        };
        // What cannot be inferred.
        let turbo = match g.as_str() {
            _ if g.contains("const B") => "::<true>",
            _ if g.contains("H = [u8; K]") => "::<2, _, _>",
            _ if g.contains("Iterator") => "::<::std::vec::IntoIter<i32>>",
            _ if g.starts_with("<W:") => "::<i32, (), (), ()>",
            _ if g.starts_with("<Template:") => "::<i32, (), (), (), (), ()>",
            _ if g.starts_with("<String:") => "::<i32, (), (), (), (), (), (), (), (), ()>",
            _ => "",
        };
        v.push((format!("#D pub struct T{g} {w} {{ {f}, pub {x} }}"), format!("inner::T{turbo} {{ {MF}, g: {gv}{lv} }}")));
    }
    // Bounds that are on no type parameter.
    for (pre, g, w, x) in [
        ("", "<const K: usize>", "where [u8; K]: ::std::default::Default", "l: [u8; K]"),
        ("pub struct Num<const K: usize>; pub trait Even {} impl Even for Num<2> {}", "<const K: usize>", "where Num<K>: Even", "l: [u8; K]"),
        ("pub trait Is {} impl Is for [u8; 2] {}", "<const K: usize>", "where [u8; K]: Is,", "l: [u8; K]"),
        ("pub struct Life<'x>(&'x ()); pub trait Long {} impl Long for Life<'static> {}", "<'a>", "where Life<'a>: Long", "l: ::std::marker::PhantomData<&'a ()>"),
        ("pub struct Life<'x>(&'x ()); pub trait Long {} impl<'x> Long for Life<'x> {}", "<'a>", "where for<'x> Life<'x>: Long", "l: ::std::marker::PhantomData<&'a ()>"),
        ("", "", "where i32: ::std::marker::Copy, for<'x> &'x str: ::std::marker::Copy,", "l: [u8; 2]"),
        ("", "<'a, 'c>", "where 'a: 'c, 'c: 'a", "l: ::std::marker::PhantomData<fn(&'a ()) -> &'c ()>"),
    ] {
        let lv = if x.contains("Phantom") { "::std::marker::PhantomData" } else { "[1, 2]" };
        v.push((format!("{pre} #D pub struct T{g} {w} {{ {F}, pub g: i32, pub {x} }}"), format!("inner::T {{ {MF}, g: @5, l: {lv} }}")));
    }
    let all = format!("{F}, pub g: i32");
    let mf = format!("{MF}, g: @5");
    // Names, visibility, attributes.
    for name in ["r#type", "r#struct", "Template_", "t", "String", "Option", "Vec", "Result", "Formatter", "ä", "_T", "__T", "Writer", "std", "core", "askama", "str", "i32", "bool"] {
        // The fields are spelled with absolute paths.
        let a = all.replace("i32", "::std::primitive::i32").replace("str,", "::std::primitive::str,").replace("b: bool", "b: ::std::primitive::bool");
        v.push((format!("#D pub struct {name} {{ {a} }}"), format!("inner::{name} {{ {mf} }}")));
    }
    for (a, b, c) in [
        ("", "pub(crate)", ""),
        ("", "pub(super)", ""),
        ("", "pub(in super::super)", ""),
        ("#[derive(Clone, Debug)]", "pub", ""),
        ("", "#[derive(Clone, Debug, PartialEq)] pub", ""),
        ("/// Documentation", "/** of \"T\" */ #[allow(dead_code)] pub", "/// of a field"),
        ("#[allow(non_snake_case)] #[repr(C)] #[must_use]", "pub", ""),
        ("#[non_exhaustive] #[doc = \"{{ n }}\"]", "pub", "#[allow(unused)] #[doc(hidden)]"),
        ("#[cfg(all())]", "pub", "#[cfg(any())] pub undefined: Undefined, #[cfg(all())]"),
        ("#[cfg_attr(all(), derive(Clone))]", "pub", ""),
    ] {
        let a = a.replace("/// Documentation", "/// Documentation\n");
        let c = c.replace("/// of a field", "/// of a field\n");
        v.push((format!("{a} #D {b} struct T {{ {c} {all} }}"), format!("inner::T {{ {mf} }}")));
    }
    // Places.
    let params = "n: i32, s: &'static str, v: &'static [i32], o: ::std::option::Option<i32>, b: bool, g: i32";
    let ret = "impl ::askama::Template + ::std::fmt::Display + 'static";
    let make = "inner::make(@0, @1, @2, @3, @4, @5)".to_string();
    let st = format!("#D struct T {{ {} }}", all.replace("pub ", ""));
    for body in [
        format!("pub fn make({params}) -> {ret} {{ {st} T {{ n, s, v, o, b, g }} }}"),
        format!("pub fn make({params}) -> {ret} {{ T {{ n, s, v, o, b, g }} }} const _: () = {{ () }}; {st}"),
        format!("pub fn make({params}) -> {ret} {{ if b {{ }} {{ fn inner({params}) -> {ret} {{ {st} T {{ n, s, v, o, b, g }} }} inner(n, s, v, o, b, g) }} }}"),
        format!("struct U; impl U {{ fn make({params}) -> {ret} {{ {st} T {{ n, s, v, o, b, g }} }} }} pub fn make({params}) -> {ret} {{ U::make(n, s, v, o, b, g) }}"),
        format!("trait Tr {{ fn make({params}) -> {ret}; }} impl Tr for () {{ fn make({params}) -> {ret} {{ {st} T {{ n, s, v, o, b, g }} }} }} pub fn make({params}) -> {ret} {{ <() as Tr>::make(n, s, v, o, b, g) }}"),
        format!("pub fn make({params}) -> {ret} {{ let f = move || {{ {st} T {{ n, s, v, o, b, g }} }}; f() }}"),
        format!("pub fn make<X>({params}, _x: X) -> {ret} {{ {st} T {{ n, s, v, o, b, g }} }}"),
        format!("mod deep {{ pub mod er {{ #D pub struct T {{ {all} }} }} }} pub fn make({params}) -> {ret} {{ deep::er::T {{ n, s, v, o, b, g }} }}"),
        format!("macro_rules! mk {{ () => {{ {st} }} }} mk!(); pub fn make({params}) -> {ret} {{ T {{ n, s, v, o, b, g }} }}"),
        format!("macro_rules! mk {{ ($n:ident, $v:vis, $($f:ident: $t:ty),*) => {{ #D $v struct $n {{ $($v $f: $t),* }} }} }} mk!(T, pub, {params}); pub fn make({params}) -> {ret} {{ T {{ n, s, v, o, b, g }} }}"),
        format!("macro_rules! mk {{ ($($t:tt)*) => {{ $($t)* }} }} mk! {{ {st} }} pub fn make({params}) -> {ret} {{ T {{ n, s, v, o, b, g }} }}"),
        format!("macro_rules! mk {{ ($i:item) => {{ $i }} }} mk! {{ {st} }} pub fn make({params}) -> {ret} {{ T {{ n, s, v, o, b, g }} }}"),
    ] {
        let m = if body.contains("make<X>") { make.replace(")", ", ())") } else { make.clone() };
        v.push((body, m));
    }
    v
}

/// What the surroundings define, and whether that concerns the template's own `Some` and `None`.
fn surroundings() -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = vec![(String::new(), false)];
    for n in ["String", "Vec", "Option", "Result", "Box", "Cow", "Error", "Formatter", "Template", "Display", "Write", "Iterator", "IntoIterator", "Default", "ToString", "From", "Into", "AsRef", "Clone", "Copy", "Drop", "Fn", "Html", "Text", "MarkupDisplay", "Escaper", "TemplateLoop", "DynTemplate"] {
        v.push((format!("struct {n};"), false));
        v.push((format!("trait {n} {{}}"), false));
        v.push((format!("type {n} = ();"), false));
        v.push((format!("mod {n} {{}}"), false));
    }
    for n in ["bool", "str", "usize", "i32", "u8", "u64", "char", "f64"] {
        v.push((format!("pub struct {n};"), false));
        v.push((format!("pub type {n} = ();"), false));
        v.push((format!("mod {n} {{}}"), false));
    }
    for n in ["std", "core", "alloc", "askama", "askama_escape", "fmt", "string", "vec", "result", "option", "helpers", "error", "primitive", "io", "borrow", "iter", "prelude", "proc_macro", "format", "write"] {
        v.push((format!("mod {n} {{}}"), false));
        v.push((format!("pub mod {n} {{ pub mod fmt {{}} pub struct String; pub mod primitive {{}} }}"), false));
        v.push((format!("fn {n}() {{}}"), false));
    }
    for n in ["Ok", "Err", "Some", "None"] {
        v.push((format!("struct {n};"), matches!(n, "Some" | "None")));
        v.push((format!("fn {n}<X>(x: X) -> X {{ x }}"), matches!(n, "Some" | "None")));
        v.push((format!("enum E {{ {n}, B(i8) }} use E::*;"), matches!(n, "Some" | "None")));
    }
    for n in ["write", "writeln", "format", "format_args", "vec", "include_bytes", "include_str", "include", "concat", "panic", "print", "println", "eprintln", "matches", "assert", "debug_assert", "unreachable", "todo", "stringify", "env", "file", "line", "compile_error", "cfg", "r#try"] {
        v.push((format!("macro_rules! {n} {{ ($($x:tt)*) => {{ compile_error!(\"wrong macro\") }} }}").replace("compile_error!(\"wrong macro\")", if n == "compile_error" { "wrong" } else { "compile_error!(\"wrong macro\")" }), false));
    }
    for n in ["render", "render_into", "write_into", "escape", "upper", "join", "fmt_", "writer", "f", "e", "loop_", "drop", "into", "from", "main", "expr0", "_iter", "_len", "_cycle", "_loop_item", "_did_loop"] {
        v.push((format!("fn {n}() {{}}"), false));
        v.push((format!("mod {n} {{}}"), false));
        v.push((format!("macro_rules! {n} {{ ($($x:tt)*) => {{ wrong }} }}"), false));
    }
    v.push(("use ::std::string::String as Text; use ::std::collections::*;".into(), false));
    v.push(("use ::std::fmt::*;".into(), false));
    v.push(("use ::std::io::{*, Write}; use ::std::fmt::Write as _;".into(), false));
    v.push(("use ::std::io::*; use ::std::result::*;".into(), false));
    v.push(("use ::askama::*;".into(), false));
    v
}

/// Kinds of types that have no named fields: the item, templates, and pairs of a value and the
/// outputs.
fn kinds() -> Vec<(&'static str, Vec<&'static str>, Vec<(&'static str, Vec<&'static str>)>)> {
    vec![
        ("#D pub struct T;", vec!["x{{ 1 }}", "{% let a = self %}y", "{% block b %}z{% endblock %}"], vec![("inner::T", vec!["x1", "y", "z"])]),
        ("#D pub struct T {}", vec!["x{{ 1 }}"], vec![("inner::T {}", vec!["x1"])]),
        ("#D pub struct T();", vec!["x{{ 1 }}"], vec![("inner::T()", vec!["x1"])]),
        (
            "#D pub struct T(pub i32, pub &'static str);",
            vec!["{{ self.0 }}{{ self.1 }}{{ self.0 + 1 }}{{ self.1.len() }}", "{% if self.0 == 7 %}y{% else %}{{ self.1|upper }}{% endif %}", "{% match self.0 %}{% when 7 %}y{% when k %}{{ k }}{% endmatch %}", "{% let (a, b) = (self.1, self.0) %}{{ a }}{{ b }}", "{% macro m(p, q) %}{{ q }}{{ p }}{% endmacro %}{% call m(self.1, self.0) %}", "{% filter upper %}a{{ self.1 }}{% endfilter %}", "{% match self %}{% when Self(a, b) %}{{ b }}{{ a }}{% endmatch %}", "{% if let Self(8, b) = self %}{{ b }}{% endif %}"],
            vec![
                ("inner::T(7, \"<>\")", vec!["7&lt;&gt;82", "y", "y", "&lt;&gt;7", "7&lt;&gt;", "A&amp;LT;&amp;GT;", "&lt;&gt;7", ""]),
                ("inner::T(8, \"b\")", vec!["8b91", "B", "8", "b8", "8b", "AB", "b8", "b"]),
            ],
        ),
        ("#D pub struct T<A, B>(pub A, pub B) where A: ::std::fmt::Display, B: ::std::fmt::Display;", vec!["{{ self.0 }}{{ self.1 }}", "{{ self.1|lower }}"], vec![("inner::T(7, \"<A\")", vec!["7&lt;A", "&lt;a"])]),
        (
            "#D pub struct T(pub Vec<i32>);",
            vec!["{% for x in self.0 %}{{ x }}{{ loop.index }}{% else %}e{% endfor %}", "{% for x in self.0.iter() %}{{ x }}{% endfor %}", "{% let v = self.0.len() %}{{ v }}", "{% macro m(p) %}{{ p.len() }}{% endmacro %}{% call m(self.0) %}", "{% for x in self.0 if x.abs() > 5 %}{{ x }}{% endfor %}", "{{ self.0|join(\", \") }}"],
            vec![("inner::T(vec![7, 5])", vec!["7152", "75", "2", "2", "7", "7, 5"]), ("inner::T(vec![])", vec!["e", "", "0", "0", "", ""])],
        ),
        ("#D pub struct T(pub (i32, (u8, u8)));", vec!["{{ self.0.0 }}{{ self.0.1.0 }}{{ self.0.1.1 }}"], vec![("inner::T((7, (8, 9)))", vec!["789"])]),
        ("#D pub struct T<const N: usize>(pub [i32; N]);", vec!["{{ N }}{{ self.0.len() }}{% for x in self.0 %}{{ x }}{% endfor %}"], vec![("inner::T([])", vec!["00"]), ("inner::T([5, 6])", vec!["2256"])]),
        (
            "#D pub enum T { A, B(i32), C { x: i32 } }",
            vec![
                "{% match self %}{% when Self::A %}a{% when Self::B(n) %}{{ n }}{% when Self::C { x } %}<{{ x }}{% endmatch %}",
                "{% match self %}{% when T::B(n) %}{{ n }}{% when _ %}o{% endmatch %}",
                "{% if let Self::B(n) = self %}{{ n }}{% else if let T::C { x: y } = self %}{{ y }}{% else %}-{% endif %}",
                "{% match self %}{% when Self::B(3) %}three{% when Self::C { x: 5 } %}five{% when Self::A %}{% else %}other{% endmatch %}",
            ],
            vec![
                ("inner::T::A", vec!["a", "o", "-", ""]),
                ("inner::T::B(3)", vec!["3", "3", "3", "three"]),
                ("inner::T::B(4)", vec!["4", "4", "4", "other"]),
                ("inner::T::C { x: 5 }", vec!["<5", "o", "5", "five"]),
            ],
        ),
        ("#D pub enum T<G> where G: ::std::fmt::Display { A(G), B }", vec!["{% match self %}{% when Self::A(g) %}{{ g }}{% when Self::B %}b{% endmatch %}", "{% if let T::A(g) = self %}{{ g }}{% endif %}"], vec![("inner::T::A(\"&\")", vec!["&amp;", "&amp;"]), ("inner::T::<i32>::B", vec!["b", ""])]),
        ("#D pub enum T<'a, G: ?::std::marker::Sized + ::std::fmt::Display = str> { A(&'a G), B }", vec!["{% match self %}{% when Self::A(g) %}{{ g }}{% when Self::B %}b{% endmatch %}"], vec![("inner::T::A(\"&\")", vec!["&amp;"]), ("inner::T::<str>::B", vec!["b"])]),
        ("#D pub union T { pub a: i32, pub b: u32 } impl T { fn m(&self) -> i32 { 5 } }", vec!["u{{ self.m() }}"], vec![("inner::T { a: 1 }", vec!["u5"])]),
        (
            "#D pub enum T { A } impl T { const N: i32 = 5; fn f(x: i32) -> i32 { x + 1 } fn m(&self) -> &str { \"<m\" } fn l(&self) -> Vec<i32> { vec![1, 2] } fn r(&self) -> Result<i32, ::std::fmt::Error> { Ok(6) } }",
            vec!["{{ Self::N }}{{ T::N }}{{ Self::f(2) }}", "{{ self.m() }}{% let s = self.m() %}{{ s }}{% if self.m() == \"<m\" %}y{% endif %}", "{% for x in self.l() %}{{ x }}{% endfor %}{{ self.r()? }}", "{% for x in self.l() %}{% for y in self.l() %}{{ y }}{% endfor %}{% endfor %}", "{% match self.m() %}{% when \"<m\" %}q{% else %}{% endmatch %}{% filter upper %}{{ self.m() }}{% endfilter %}"],
            vec![("inner::T::A", vec!["553", "&lt;m&lt;my", "126", "1212", "q&amp;LT;M"])],
        ),
    ]
}

fn main() {
    let mut p = Part::from_args();
    let fs = features();
    let its = items();
    let sur = surroundings();
    let inputs: Vec<Vec<V>> = vec![
        vec![i(2), s("a<b"), V::L(vec![i(5), i(6), i(7)]), some(i(3)), V::B(true), i(8)],
        vec![i(1), s(" \"&' "), V::L(vec![i(9), i(4)]), V::None_, V::B(false), i(-1)],
    ];
    let mut su = Suite::new();
    let add = |su: &mut Suite, f: &Feature, around: &str, it: &(String, String)| {
        let mut files = f.files.clone();
        // Everything prints the generic field.
        if !matches!(files[0].1.first(), Some(N::Extends(_))) {
            files[0].1.push(t("|"));
            files[0].1.push(outv("g"));
        }
        let root = files[0].0;
        let mut m = Model::files(root, files);
        if root == "noext" {
            m.attrs = ", escape = \"none\"".into();
        }
        for (n, ty) in [("n", "i32"), ("s", "&'static str"), ("v", "&'static [i32]"), ("o", "Option<i32>"), ("b", "bool"), ("g", "i32")] {
            m = m.field(n, ty);
        }
        let (mut c, steps, states) = m.case(&format!("{} in: {around} {}", f.name, it.0), &inputs);
        // Not everything is spelled absolutely in this item.
        c.item = Some((format!("{around} {}", it.0), it.1.clone()));
        su.cases.push(c);
        su.steps += steps;
        su.states += states;
    };
    // Plain items in all surroundings.
    let plain = {
        let f = "pub n: ::std::primitive::i32, pub s: &'static ::std::primitive::str, pub v: &'static [::std::primitive::i32], pub o: ::std::option::Option<::std::primitive::i32>, pub b: ::std::primitive::bool, pub g: ::std::primitive::i32";
        (format!("#D pub struct T {{ {f} }}"), "inner::T { n: @0, s: @1, v: @2, o: @3, b: @4, g: @5 }".to_string())
    };
    for (a, names) in &sur {
        for f in &fs {
            // `Some` and `None`: see the known findings.
            if *names && !matches!(f.name, "text" | "no extension") {
                continue;
            }
            add(&mut su, f, a, &plain);
        }
    }
    for it in &its {
        for f in &fs {
            // Such a type is named in the template.
            if f.names && it.0.contains("struct Option") {
                continue;
            }
            add(&mut su, f, "", it);
        }
    }
    p.add("surroundings", sur.len() as u64);
    p.add("items", its.len() as u64);
    su.run(&mut p, "c25", 150);
    // Other kinds of types.
    let mut cases = vec![];
    for (it, srcs, runs) in kinds() {
        for (k, src) in srcs.iter().enumerate() {
            // Each with everything else in front.
            for (pre, out) in [("", ""), ("a{# c #} ", "a "), ("{% for q in 0..2 %}{{ q }}{% endfor %}", "01"), ("{% let q = 1 %}{{ q }}{% macro z(n) %}<{{ n }}>{% endmacro %}{% call z(q) %}", "1<1>")] {
                for (make, outs) in &runs {
                    let src = format!("{pre}{src}");
                    let mut c = Case::source(format!("{it} with {src} of {make}"), src, "html");
                    c.item = Some((it.to_string(), make.to_string()));
                    c.runs = vec![Run { init: vec![], expect: Expect::Out(format!("{out}{}", outs[k])), trace: None, code: None }];
                    p.add("states", 1);
                    p.add("transitions", 1);
                    cases.push(c);
                }
            }
        }
    }
    check(&mut p, "c25k", &cases, 60);
    // No lint finds fault with what is derived.
    set_lints(true);
    let mut su = Suite::new();
    for a in ["#![deny(warnings)]", "#![forbid(unsafe_code)]"] {
        for f in &fs {
            add(&mut su, f, a, &plain);
        }
    }
    su.run(&mut p, "c25l", 30);
    p.finish();
}
