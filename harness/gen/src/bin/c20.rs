//! C20: deriving Template yields valid Rust or an error, never a panic, and always the same.
#[path = "../common.rs"]
mod common;
#[path = "../tokens.rs"]
mod tokens;
use common::*;
use tokens::*;
use std::time::Duration;

/// Fields of every template: names used by the alphabets.
const FIELDS: &str = "a: i32, b: i32, s: String, o: Option<i32>, v: Vec<i32>";

/// `strict`: the source is put together of constructs that are fine on their own, so what is
/// accepted must be valid Rust. Otherwise paths and Rust tokens are passed to the compiler as they are.
fn check(src: &str, log: &mut Log, key: &str) -> bool {
    check_(src, log, key, true)
}

fn check_(src: &str, log: &mut Log, key: &str, strict: bool) -> bool {
    log.add("transitions", 1);
    let ts = input(&source(src, "html"), FIELDS);
    match derive_ts(ts.clone()) {
        Out::Panic(p) => {
            log.violation(key, format!("template {:?}\npanic: {p}", short(src, 300)));
            false
        }
        Out::Error(e) => {
            log.add("rejected", 1);
            if e.is_empty() {
                log.violation(key, "error without a message");
            }
            false
        }
        Out::Code(c) => {
            log.add("traces", 1);
            if let (true, Err(e)) = (strict, valid(&c)) {
                log.violation(key, format!("template {:?}\nthe generated code is not valid Rust: {e}", short(src, 300)));
            }
            match derive_ts(ts) {
                Out::Code(d) if c == d => {}
                _ => log.violation(key, format!("template {:?}\na second run yields something else", short(src, 300))),
            }
            if log.samples.len() < 2 {
                log.samples.push(short(src, 100));
            }
            true
        }
    }
}

fn sequences(p: &mut Part, job: &str, pre: &str, toks: &[&str], sep: &str, post: &str, n: usize, strict: bool) {
    let t = toks.len();
    let total: usize = t.pow(n as u32);
    let make = |i: usize| {
        let d = digits(i, t, n);
        format!("{pre}{}{post}", d.iter().map(|k| toks[*k]).collect::<Vec<_>>().join(sep))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let src = make(i);
        check_(&src, log, &src, strict);
    };
    iso::run(p, job, total, Duration::from_secs(20), f, make);
}

/// A construct as (opening, inner, closing) that can be nested in itself.
const NEST: &[(&str, &str, &str)] = &[
    ("{% if a == 1 %}", "x", "{% endif %}"),
    ("{% if a == 1 %}x{% else %}", "y", "{% endif %}"),
    ("{% if let Some(b) = o %}", "x", "{% endif %}"),
    ("{% for a in v %}", "x", "{% endfor %}"),
    ("{% for a in v %}{% else %}", "x", "{% endfor %}"),
    ("{% match o %}{% when Some(b) %}", "x", "{% endmatch %}"),
    ("{% match o %}{% when Some(b) %}{% else %}", "x", "{% endmatch %}"),
    ("{% filter upper %}", "x", "{% endfilter %}"),
    ("{% macro m() %}", "x", "{% endmacro %}"),
    ("{#", "x", "#}"),
    ("{{ (", "a", ") }}"),
    ("{{ [", "a", "] }}"),
    ("{{ (", "a", ",) }}"),
    ("{{ s|truncate(", "1", ") }}"),
    ("{{ f(", "a", ") }}"),
    ("{{ a.f(", "a", ") }}"),
    ("{{ v[", "0", "] }}"),
    ("{{ -", "a", " }}"),
    ("{{ !", "a", " }}"),
    ("{{ &", "a", " }}"),
    ("{{ a", "", ".b }}"),
    ("{{ a", "", "? }}"),
    ("{{ a", "", "[0] }}"),
    ("{{ a", "", "() }}"),
    ("{{ a", "", "|upper }}"),
    ("{{ a", "", "::b }}"),
    ("{{ a", "", " + a }}"),
    ("{{ a", "", " && a }}"),
    ("{{ a", "", " .. a }}"),
    ("{{ a", "", " == a }}"),
    ("{{ m!(", "a", ") }}"),
    ("{{ m!{", "a", "} }}"),
    ("{% let ", "a", " = b %}"),
    ("{% let (", "a", ",) = b %}"),
    ("{% let Some(", "a", ") = b %}"),
    ("{% let S {a: ", "a", "} = b %}"),
    ("{% if let ", "a", " or b = b %}{% endif %}"),
    ("{% let (a", "", ", a) = b %}"),
    ("{% let (", "a", ") = b %}"),
    ("{% call m(", "a", ") %}"),
    ("{% match (", "a", ") %}{% when _ %}{% endmatch %}"),
    ("{% for x in (", "a", ") %}{% endfor %}"),
];

/// Things that may follow each other any number of times.
const MANY: &[&str] = &[
    "x", "{ ", "{{ a }}", "{{- a -}}", "{{ s|upper }}", "{{ (a) }}", "{{ [a, b,] }}", "{{ f(a)[0].b? }}", "{{ -a }}", "{{ !true }}", "{{ a + b * a }}", "{{ a && b }}", "{{ m!(a) }}", "{{ v[0] }}", "{% if a == 1 %}x{% endif %}", "{% if a == 1 %}x{% else if b == 1 %}y{% else %}z{% endif %}",
    "{% if let Some(b) = o %}x{% endif %}", "{% if let Some(b,) = o %}x{% endif %}", "{% if let S { a, } = o %}x{% endif %}", "{% if let S { a: x } = o %}x{% endif %}", "{% if let S {} = o %}x{% endif %}", "{% if let S() = o %}x{% endif %}", "{% if let 1 or 2 or 3 = a %}x{% endif %}", "{% for a in v %}{{ loop.index }}{% else %}e{% endfor %}", "{% for (a, b,) in v %}{% break %}{% continue %}{% endfor %}",
    "{% for a in v if a == 1 %}x{% endfor %}", "{% match o %}{% when Some(b) %}x{% when None %}y{% endmatch %}", "{% match o %}{% when Some with (b,) %}x{% else %}y{% endmatch %}", "{% let a = 1 %}", "{% let (a, b) = (b, a) %}", "{% let (a,) = o %}", "{% let (a) = o %}", "{% set x %}", "{% filter upper %}x{% endfilter %}", "{% filter upper|lower %}{{ a }}{% endfilter %}", "{% raw %}{{{% endraw %}",
    "{# c #}", "{# c {# d #} #}", "{% if a == 1 or_ %}", "{{ \"s\" }}", "{{ 'c' }}", "{{ 1.5e3 }}", "{{ (a, b) }}", "{{ a..b }}", "{{ a::b }}", "{{ self.a }}",
];

/// As many of them, in one list, expression or tag.
const LISTS: &[(&str, &str, &str)] = &[
    ("{{ [a", ", a", "] }}"),
    ("{{ f(a", ", a", ") }}"),
    ("{{ (a", ", a", ") }}"),
    ("{{ a", " + a", " }}"),
    ("{{ a", " == a && a", " }}"),
    ("{{ a", "|upper", " }}"),
    ("{{ a", ".b", " }}"),
    ("{{ a", ".b()", " }}"),
    ("{{ a", "[0]", " }}"),
    ("{{ a", "?", " }}"),
    ("{{ a", "::a", " }}"),
    ("{% let (a", ", a", ") = o %}"),
    ("{% let S {a", ", a", "} = o %}"),
    ("{% let S {a", ", a: (b,)", "} = o %}"),
    ("{% if let Some(a", ", Some(a)", ") = o %}{% endif %}"),
    ("{% if let 1", " or 2", " = a %}{% endif %}"),
    ("{% if a == 1 %}", "{% else if a == 2 %}x", "{% endif %}"),
    ("{% match a %}", "{% when 1 %}x", "{% endmatch %}"),
    ("{% macro m(a", ", a", ") %}{% endmacro %}"),
    ("{% filter upper", "|lower", " %}{% endfilter %}"),
    ("{% let a::a", "::a", " = o %}"),
    ("x", "\n", "x"),
    ("{{ \"", "s", "\" }}"),
    ("{{ a", "0", " }}"),
    ("{{ m!(", "(a)", ") }}"),
    ("{# ", "{# x #}", " #}"),
    ("{% raw %}", "{% raw", "{% endraw %}"),
];

fn nested(p: &mut Part) {
    let depths: Vec<usize> = if thorough() { (1..=140).chain([150, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 3000]).collect() } else { vec![1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 600, 2000] };
    let pick = |i: usize| (NEST[i / depths.len()], depths[i % depths.len()]);
    let build = |(o, x, c): (&str, &str, &str), d: usize| -> String {
        // Expressions and targets nest within one tag.
        let inner = |o: &str| o.starts_with("{{ ") || o.starts_with("{% let ") || o.starts_with("{% call ") || o.starts_with("{% match (") || o.starts_with("{% for x in (") || o.starts_with("{% if let ") && c.contains(" = b");
        if inner(o) && o != "{% match o %}" {
            let skip = |t: &str| -> usize { ["{{ ", "{% let ", "{% call ", "{% match ", "{% for x in ", "{% if let "].iter().find(|p| t.starts_with(**p)).map_or(0, |p| p.len()) };
            let k = skip(o);
            let (head, rep) = o.split_at(k);
            let e = [" }}", " = b %}", " %}"].iter().filter_map(|t| c.find(t)).min().unwrap();
            let (crep, tail) = c.split_at(e);
            // A left operand is not repeated.
            let (once, rep) = if x.is_empty() { (rep, "") } else { ("", rep) };
            format!("{head}{once}{}{x}{}{tail}", rep.repeat(d), crep.repeat(d))
        } else {
            format!("{}{x}{}", o.repeat(d), c.repeat(d))
        }
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (n, d) = pick(i);
        let src = build(n, d);
        check(&src, log, &format!("{} nested {d} times", build(n, 1)));
    };
    iso::run(p, "nest", NEST.len() * depths.len(), Duration::from_secs(30), f, |i| { let (n, d) = pick(i); format!("{} nested {d} times", build(n, 1)) });
    // Two constructs in turn.
    let block: Vec<_> = NEST.iter().filter(|n| !n.0.starts_with("{{") && !n.0.starts_with("{% let") && !n.0.starts_with("{% call") && !n.0.contains(" in (") && !n.0.starts_with("{% match (") && !n.2.contains(" = b")).collect();
    let ds = [2usize, 20, 32, 33, 63, 64, 65, 130, 300];
    let name = |i: usize| {
        let (x, y, d) = (block[i / ds.len() / block.len()], block[i / ds.len() % block.len()], ds[i % ds.len()]);
        (format!("{}{}x{}{}", x.0, y.0, y.2, x.2), format!("{}x{}", format!("{}{}", x.0, y.0).repeat(d), format!("{}{}", y.2, x.2).repeat(d)), d)
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (one, src, d) = name(i);
        check(&src, log, &format!("{one} nested {d} times"));
    };
    iso::run(p, "nest2", block.len() * block.len() * ds.len(), Duration::from_secs(30), f, |i| { let (n, _, d) = name(i); format!("{n} nested {d} times") });
}

/// What grows with the nesting: the size of the text inside, and how the nesting goes on.
fn weights(p: &mut Part) {
    let open = [("{% for a in v %}", "{% endfor %}"), ("{% if a == 1 %}", "{% endif %}"), ("{% match o %}{% when Some(b) %}", "{% endmatch %}"), ("{% for a in v %}x{% else %}", "{% endfor %}"), ("{% filter upper %}", "{% endfilter %}"), ("{% for a in v %}{% if a == 1 %}", "{% endif %}{% endfor %}")];
    let sizes = [0usize, 1, 7, 100, 10_000, 300_000];
    let depths: Vec<usize> = if thorough() { (1..=126).collect() } else { vec![1, 10, 40, 62, 63, 80, 95, 105, 110, 115, 118, 120, 122, 124, 125, 126] };
    // All in one template, through macros, through blocks and through included files.
    let vias = 5;
    let total = open.len() * sizes.len() * depths.len() * vias;
    let pick = |i: usize| {
        let (i, via) = (i / vias, i % vias);
        let (i, d) = (i / depths.len(), depths[i % depths.len()]);
        (open[i / sizes.len()], sizes[i % sizes.len()], d, via)
    };
    let name = |i: usize| {
        let ((o, c), n, d, via) = pick(i);
        format!("{o}{c} nested {d} times around {n} characters, {}", ["in one template", "in macros", "in blocks", "in files", "with text at every level"][via])
    };
    let dir = format!("{}/templates/c20", std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let _ = std::fs::create_dir_all(&dir);
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let ((o, c), n, d, via) = pick(i);
        let x = "x".repeat(n);
        let (os, cs) = (o.repeat(d), c.repeat(d));
        let src = match via {
            0 => format!("{os}{x}{cs}"),
            1 => (0..3).map(|k| format!("{{% macro m{k}() %}}{os}{}{cs}{{% endmacro %}}", if k == 0 { x.clone() } else { format!("{{% call m{}() %}}", k - 1) })).collect::<String>() + "{% call m2() %}",
            2 => format!("{{% block b %}}{os}{{% block c %}}{os}{x}{cs}{{% endblock %}}{cs}{{% endblock %}}"),
            3 => {
                for k in 0..3 {
                    let inner = if k == 0 { x.clone() } else { format!("{{% include \"c20/{i}-{}.txt\" %}}", k - 1) };
                    std::fs::write(format!("{dir}/{i}-{k}.txt"), format!("{os}{inner}{cs}")).unwrap();
                }
                format!("{{% include \"c20/{i}-2.txt\" %}}")
            }
            _ => format!("{}{x}{}", format!("{o}abc").repeat(d), format!("d{c}").repeat(d)),
        };
        check(&src, log, &name(i));
        for k in 0..3 {
            let _ = std::fs::remove_file(format!("{dir}/{i}-{k}.txt"));
        }
    };
    iso::run(p, "weights", total, Duration::from_secs(25), f, name);
}

fn repeated(p: &mut Part) {
    let ns: &[usize] = if thorough() { &[2, 3, 10, 63, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 400, 1000, 2000] } else { &[2, 3, 64, 129, 200, 300] };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (m, n) = (MANY[i / ns.len()], ns[i % ns.len()]);
        for sep in ["", "\n", " "] {
            let key = format!("{m:?} {n} times with {sep:?} between");
            let once = check(m, log, &key);
            let many = check(&vec![m; n].join(sep), log, &key);
            if once && !many && !m.contains("macro") {
                log.violation(&key, format!("one of it compiles, {n} do not"));
            }
        }
    };
    iso::run(p, "many", MANY.len() * ns.len(), Duration::from_secs(25), f, |i| format!("{:?} {} times", MANY[i / ns.len()], ns[i % ns.len()]));
    // Pairs: constructs have no influence on each other's limits.
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (x, y) = (MANY[i / MANY.len()], MANY[i % MANY.len()]);
        let src = format!("{x}{y}");
        let key = format!("{src:?} 70 times");
        let ok = check(x, log, &key) && check(&src, log, &key);
        if ok && !check(&src.repeat(70), log, &key) {
            log.violation(&key, "one of it compiles, 70 do not");
        }
    };
    iso::run(p, "pairs", MANY.len() * MANY.len(), Duration::from_secs(25), f, |i| format!("{:?} {:?} 70 times", MANY[i / MANY.len()], MANY[i % MANY.len()]));
    let ns: &[usize] = &[1, 2, 10, 63, 64, 65, 126, 127, 128, 129, 130, 200, 256, 300];
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let ((a, b, c), n) = (LISTS[i / ns.len()], ns[i % ns.len()]);
        let key = format!("{a}({b}) x {n} {c}");
        let ok = check(&format!("{a}{b}{c}"), log, &key);
        let many = check(&format!("{a}{}{c}", b.repeat(n)), log, &key);
        // Left operands nest in the syntax tree, lists do not.
        if ok && !many && !a.contains("macro") && !b.contains("let S") {
            log.violation(&key, format!("one of it compiles, {n} do not"));
        }
    };
    iso::run(p, "lists", LISTS.len() * ns.len(), Duration::from_secs(25), f, |i| format!("{:?} x {}", LISTS[i / ns.len()], ns[i % ns.len()]));
}

/// Whole tags: which of them may follow which.
const BLOCKS: &[&str] = &[
    "{% if a == 1 %}", "{% else %}", "{% else if b == 1 %}", "{% elif b == 2 %}", "{% endif %}", "{% for x in v %}", "{% endfor %}", "{% match o %}", "{% when Some(q) %}", "{% when None %}", "{% endmatch %}", "{% filter upper %}", "{% endfilter %}", "{% block k %}", "{% endblock %}", "{% macro m() %}", "{% endmacro %}", "{% call m() %}", "{% let z = 1 %}", "{% set z %}", "{% break %}",
    "{% continue %}", "x", "{{ a }}", "{% raw %}", "{% endraw %}", "{% call super() %}", "{# c #}",
];
/// What may stand inside of one construct.
const INSIDE: &[(&str, &[&str], &str)] = &[
    ("{% if a == 1 %}", &["{% if a == 1 %}", "{% else %}", "{% else if b == 1 %}", "{% elif b == 1 %}", "{% endif %}", "x"], "{% endif %}"),
    ("{% for x in v %}", &["{% for y in v %}", "{% else %}", "{% break %}", "{% continue %}", "{% endfor %}", " x ", "{%- if a == 1 -%}", "{%- endif %}"], "{% endfor %}"),
    ("{% match o %}", &["{% when None %}", "{% when Some(x) %}", "{% else %}", "{% match o %}", "{% endmatch %}", "x", " ", "{# c #}"], "{% endmatch %}"),
    ("{% match o %}{%- when None ~%} ", &["{%- when Some(x) %}", "{% else +%}", " x", "\n", "{% break %}", "{{- x ~}}", "{%- for x in v %}", "{% endfor -%}"], "{% endmatch %}"),
];

const ATTR: &[&str] = &[
    "source = \"x{{ 1 }}\"", "ext = \"txt\"", "ext = \"html.j2\"", "ext = \"\"", "path = \"nope.html\"", "path = \"\"", "path = \"/\"", "path = \"..\"", "escape = \"html\"", "escape = \"nope\"", "block = \"b\"", "whitespace = \"minimize\"", "whitespace = \"x\"", "syntax = \"nope\"", "config = \"nope.toml\"", "print = \"none\"", "print = \"x\"", "source = 1", "ext = 'c'", "ext = b\"x\"", "path", "path(\"x\")", "nope = \"x\"", "\"x\"", "1", "", "source = concat!(\"a\", \"b\")", "a::b = \"x\"", "source = \"{% block b %}{% endblock %}\"", "source = \"{{\"",
];
const ITEMS: &[&str] = &["struct T { a: i32 }", "struct T;", "struct T(i32);", "enum T { A, B(i32) }", "union T { a: i32 }", "struct T<'a, U: Clone + 'a, const N: usize = 3> where U: Copy { a: &'a [U; N] }", "struct r#type { r#fn: i32 }", "pub(crate) struct T {}"];

/// Attributes in every combination, on every kind of item.
fn attributes(p: &mut Part) {
    let deep = thorough();
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..ATTR.len() {
        lists.push(vec![a]);
        for b in 0..ATTR.len() {
            lists.push(vec![a, b]);
            for c in 0..ATTR.len() {
                if deep || (a < 4 || b < 2) && c % 2 == 0 {
                    lists.push(vec![a, b, c]);
                }
            }
        }
    }
    let make = |i: usize| {
        let (l, it) = (&lists[i / ITEMS.len()], ITEMS[i % ITEMS.len()]);
        let a: Vec<&str> = l.iter().map(|k| ATTR[*k]).collect();
        match i % 3 {
            0 if a.len() > 1 => format!("#[template({})] #[template({})] {it}", a[0], a[1..].join(", ")),
            1 if a.len() == 1 && i % 2 == 0 => format!("#[template = {}] {it}", a[0].split(" = ").last().unwrap()),
            2 if a.is_empty() => it.to_string(),
            _ => format!("#[template({})] {it}", a.join(", ")),
        }
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        log.add("transitions", 1);
        let t = make(i);
        let Ok(ts) = t.parse::<proc_macro2::TokenStream>() else { return };
        if syn::parse2::<syn::DeriveInput>(ts.clone()).is_err() {
            return;
        }
        match derive_ts(ts) {
            Out::Panic(e) => log.violation(&t, format!("panic: {e}")),
            Out::Error(e) if e.is_empty() => log.violation(&t, "error without a message"),
            Out::Error(_) => log.add("rejected", 1),
            Out::Code(c) => {
                log.add("traces", 1);
                if let Err(e) = valid(&c) {
                    log.violation(&t, format!("the generated code is not valid Rust: {e}"));
                }
            }
        }
    };
    iso::run(p, "attr", lists.len() * ITEMS.len(), Duration::from_secs(20), f, make);
}

fn main() {
    std::env::set_var("CARGO_MANIFEST_DIR", "/verif/out");
    if std::env::var("VK_OUT").is_ok() {
        std::env::set_var("CARGO_MANIFEST_DIR", std::env::var("VK_OUT").unwrap());
    }
    let mut p = Part::from_args();
    let deep = thorough();
    for n in 1..=if deep { 4 } else { 3 } {
        sequences(&mut p, &format!("expr{n}"), "{{ ", EXPR, " ", " }}", n, false);
        sequences(&mut p, &format!("tag{n}"), "{% ", TAG, " ", " %}", n, false);
        sequences(&mut p, &format!("raw{n}"), "", RAW, "", "", n, false);
        sequences(&mut p, &format!("num{n}"), "{{ ", NUM, "", " }}", n, false);
        sequences(&mut p, &format!("str{n}"), "{{ \"", STR, "", "\" }}", n, false);
        sequences(&mut p, &format!("chr{n}"), "{{ '", STR, "", "' }}", n, false);
        if n <= 3 {
            sequences(&mut p, &format!("tight{n}"), "{{", EXPR, "", "}}", n, false);
            sequences(&mut p, &format!("tags{n}"), "", TAGS, "", "", n, true);
            sequences(&mut p, &format!("rust{n}"), "{{ m!(", RUST, "", ") }}", n, false);
            sequences(&mut p, &format!("iftag{n}"), "{% if let Some(", TAG, " ", ") = o %}x{% endif %}", n, false);
        }
        if n <= if deep { 3 } else { 2 } {
            sequences(&mut p, &format!("match{n}"), "{% match o %}{% when ", TAG, " ", " %}x{% endmatch %}", n, false);
            sequences(&mut p, &format!("for{n}"), "{% for ", TAG, " ", " in v %}x{% endfor %}", n, false);
            sequences(&mut p, &format!("cond{n}"), "{% if ", EXPR, " ", " %}x{% endif %}", n, false);
            sequences(&mut p, &format!("arg{n}"), "{{ s|truncate(", EXPR, " ", ") }}", n, false);
            sequences(&mut p, &format!("call{n}"), "{% macro m(p, q) %}{{ p }}{{ q }}{% endmacro %}{% call m(", EXPR, " ", ") %}", n, false);
            sequences(&mut p, &format!("par{n}"), "{% macro m(", TAG, " ", ") %}{{ p }}{% endmacro %}{% call m(1, 2) %}", n, false);
            sequences(&mut p, &format!("letv{n}"), "{% let p = ", EXPR, " ", " %}{{ p }}{{ p }}", n, false);
            sequences(&mut p, &format!("lit{n}"), "{% match a %}{% when ", NUM, "", " %}{% endmatch %}", n, false);
            sequences(&mut p, &format!("lis{n}"), "{% match a %}{% when \"", STR, "", "\" %}{% endmatch %}", n, false);
            sequences(&mut p, &format!("inc{n}"), "{% include \"", STR, "", "\" %}", n, false);
        }
    }
    for n in 1..=if deep { 5 } else { 4 } {
        sequences(&mut p, &format!("blocks{n}"), "", BLOCKS, "", "", n, true);
    }
    for n in 1..=if deep { 7 } else { 6 } {
        for (k, (a, m, c)) in INSIDE.iter().enumerate() {
            sequences(&mut p, &format!("inside{k}-{n}"), a, m, "", c, n, true);
        }
    }
    attributes(&mut p);
    nested(&mut p);
    weights(&mut p);
    repeated(&mut p);
    p.finish();
}
