//! C03: parsing any input terminates with a result.
#[path = "../common.rs"]
mod common;
#[path = "../tokens.rs"]
mod tokens;
use common::*;
use parser::{Ast, Syntax};
use std::time::{Duration, Instant};
use tokens::*;

fn run(src: &str, syntax: &Syntax<'_>, log: &mut Log, key: impl Fn() -> String) {
    log.add("transitions", 1);
    let r = catch(|| match Ast::from_str(src, None, syntax) {
        Ok(a) => {
            std::hint::black_box(a.nodes().len());
            Ok(())
        }
        Err(e) => Err(e.to_string()),
    });
    match r {
        Err(p) => log.violation(key(), format!("panic: {p}")),
        Ok(Ok(())) => log.add("traces", 1),
        Ok(Err(e)) if e.is_empty() => log.violation(key(), "error without a message"),
        Ok(Err(_)) => log.add("rejected", 1),
    }
}

/// Delimiter sets that are accepted.
const SYNTAXES: &[[&str; 6]] = &[
    ["{%", "%}", "{{", "}}", "{#", "#}"],
    ["<%", "%>", "<=", "=>", "<#", "#>"],
    ["{%", "%%}", "{{{", "}}}", "{#!", "#}"],
    ["{~", "~}", "{{", "}}", "{#", "#}"],
    ["[[", "]]", "((", "))", "/*", "*/"],
    ["{%", "}}", "{{", "}}", "{#", "}}"],
    ["👉🙂", "🙃👈", "🤜🤜", "🤛🤛", "é#", "#é"],
    ["if", "fi", "ex", "xe", "co", "oc"],
    ["{-", "-}", "{+", "+}", "{~", "~}"],
    ["$$", "$$", "@@", "@@", "##", "##"],
    ["\"%", "%\"", "\"{", "}\"", "'#", "#'"],
    ["{%-", "-%}", "{{-", "-}}", "{#-", "-#}"],
    ["aaaa", "aa", "baaa", "bb", "caaa", "cc"],
];

fn syntax(s: &[&'static str; 6]) -> Syntax<'static> {
    Syntax { block_start: s[0], block_end: s[1], expr_start: s[2], expr_end: s[3], comment_start: s[4], comment_end: s[5] }
}

fn sequences(p: &mut Part, job: &str, sy: &[&'static str; 6], pre: &str, toks: &[&str], sep: &str, post: &str, n: usize) {
    let s = syntax(sy);
    let t = toks.len();
    let make = |i: usize| {
        let d = digits(i, t, n);
        format!("{pre}{}{post}", d.iter().map(|k| toks[*k]).collect::<Vec<_>>().join(sep))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let src = make(i);
        run(&src, &s, log, || format!("{src:?} with {sy:?}"));
    };
    iso::run(p, job, t.pow(n as u32), Duration::from_secs(20), f, |i| format!("{:?} with {sy:?}", make(i)));
}

/// Pieces that open something, with what closes them.
const OPEN: &[(&str, &str)] = &[
    ("{% if a %}", "{% endif %}"),
    ("{% if a %}x{% else %}", "{% endif %}"),
    ("{% if let Some(b) = o %}", "{% endif %}"),
    ("{% for a in v %}", "{% endfor %}"),
    ("{% for a in v %}{% else %}", "{% endfor %}"),
    ("{% match o %}{% when Some(b) %}", "{% endmatch %}"),
    ("{% match o %}{% when Some(b) %}{% else %}", "{% endmatch %}"),
    ("{% match o %}", "{% when x %}{% endmatch %}"),
    ("{% filter upper %}", "{% endfilter %}"),
    ("{% macro m() %}", "{% endmacro %}"),
    ("{% block b %}", "{% endblock %}"),
    ("{% raw %}", "{% endraw %}"),
    ("{#", "#}"),
    ("{{", "}}"),
    ("{%", "%}"),
    ("{", "}"),
    ("\"", "\""),
    ("\\", "\\"),
    ("'", "'"),
    ("\n", "\n"),
    (" ", " "),
    ("x", "y"),
    ("é", "é"),
];

/// The same within an expression or target.
const INNER: &[(&str, &str)] = &[
    ("(", ")"), ("[", "]"), ("(a, ", ")"), ("(", ",)"), ("[a, ", "]"), ("f(", ")"), ("f(a, ", ")"), ("a.f(", ")"), ("a[", "]"), ("m!(", ")"), ("m!([", "])"), ("-", ""), ("!", ""), ("&", ""), ("*", ""), ("- ", ""), ("a + ", ""), ("a && ", ""), ("a || ", ""), ("a == ", ""), ("a .. ", ""), (".. ", ""), ("a | ", ""), ("a|upper", ""), ("a|f(", ")"),
    ("a.b", ""), ("a::", ""), ("::a", ""), ("a?", ""), (".b", ""), ("?", ""), ("[0]", ""), ("()", ""), ("|f", ""), (".0", ""), ("1", ""), ("1.", ""), ("_", ""), ("\"", "\""), ("'", "'"), ("\\", ""), ("{", "}"), ("S {a: ", "}"), ("Some(", ")"), ("Some with (", ")"), ("a or ", ""), (",", ""), ("x,", ""), ("'a'", ""), ("\"s\"", ""), ("as ", ""), ("#", ""), ("(a", ")"), ("(-", ")"), ("!(", ")"), ("((", "))"), ("a((", "))"), ("a < ", ""), ("a >> ", ""), ("a\n+\n", ""),
];

/// Where an expression or target may stand.
const HOLES: &[(&str, &str)] = &[("{{ ", " }}"), ("{% if ", " %}x{% endif %}"), ("{% if let ", " = a %}x{% endif %}"), ("{% let ", " = a %}"), ("{% let a = ", " %}"), ("{% for ", " in b %}{% endfor %}"), ("{% for a in ", " %}{% endfor %}"), ("{% for a in b if ", " %}{% endfor %}"), ("{% match ", " %}{% when a %}{% endmatch %}"), ("{% match a %}{% when ", " %}{% endmatch %}"), ("{% call m(", ") %}"), ("{% macro m(", ") %}{% endmacro %}"), ("{% filter f(", ") %}{% endfilter %}"), ("{{ a|f(", ") }}"), ("{{ a[", "] }}"), ("{{ m!(", ") }}"), ("{# ", " #}"), ("{% raw %}", "{% endraw %}")];

fn depths(deep: bool) -> Vec<usize> {
    if deep {
        (1..=140).chain([200, 255, 256, 257, 500, 1000, 5000, 20_000, 100_000]).collect()
    } else {
        (1..=24).chain([31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 256, 300, 1000, 10_000]).collect()
    }
}

/// Constructs that are opened again and again, closed or not, or closed only.
fn nested(p: &mut Part) {
    let deep = thorough();
    let ds = depths(deep);
    // Quadratic behaviour of huge inputs is acceptable, hence the limit per item.
    let limit = Duration::from_secs(if deep { 120 } else { 30 });
    let build = |o: &str, c: &str, d: usize, form: usize| match form {
        0 => o.repeat(d) + &c.repeat(d),
        1 => o.repeat(d),
        2 => c.repeat(d),
        3 => o.repeat(d) + "x" + &c.repeat(d.saturating_sub(1)),
        _ => o.repeat(d) + "x" + &c.repeat(d + 1),
    };
    let name = |i: usize| {
        let form = i % 5;
        let d = ds[i / 5 % ds.len()];
        let (o, c) = OPEN[i / 5 / ds.len()];
        (format!("{o:?} and {c:?} {d} times, form {form}"), build(o, c, d, form))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (k, src) = name(i);
        time(&src, log, &k);
    };
    iso::run(p, "open", OPEN.len() * 5 * ds.len(), limit, f, |i| name(i).0);
    // Two of them in turn.
    let dd: &[usize] = if deep { &[2, 10, 20, 30, 40, 63, 64, 65, 100, 127, 128, 129, 200, 1000, 10_000] } else { &[2, 10, 20, 32, 64, 65, 200, 2000] };
    let name2 = |i: usize| {
        let form = [0, 1, 3][i % 3];
        let d = dd[i / 3 % dd.len()];
        let k = i / 3 / dd.len();
        let (x, y) = (OPEN[k / OPEN.len()], OPEN[k % OPEN.len()]);
        (format!("{:?} and {:?} {d} times, form {form}", format!("{}{}", x.0, y.0), format!("{}{}", y.1, x.1)), build(&format!("{}{}", x.0, y.0), &format!("{}{}", y.1, x.1), d, form))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (k, src) = name2(i);
        time(&src, log, &k);
    };
    iso::run(p, "open2", OPEN.len() * OPEN.len() * 3 * dd.len(), limit, f, |i| name2(i).0);
    // Expressions and targets.
    let name3 = |i: usize| {
        let form = i % 5;
        let d = ds[i / 5 % ds.len()];
        let k = i / 5 / ds.len();
        let ((o, c), h) = (INNER[k / HOLES.len()], HOLES[k % HOLES.len()]);
        (format!("{o:?} and {c:?} {d} times, form {form} in {:?}", format!("{}..{}", h.0, h.1)), format!("{}{}{}", h.0, build(o, c, d, form), h.1))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (k, src) = name3(i);
        time(&src, log, &k);
    };
    iso::run(p, "inner", INNER.len() * HOLES.len() * 5 * ds.len(), limit, f, |i| name3(i).0);
    // What may follow an operand, arbitrarily often.
    let suffixes = [".b", ".0", "[0]", "[a]", "()", "(1)", "(a, b)", "?", "|f", "|f(1)", "|f(a)|g", "::b", " + 1", " - a", " * (a)", " && a", " || !a", " == 1", " | a", " & a", " << a", "..", "..1", ".b()", ".b[0]?", ".b|f", "!()", "!(a)", ", a", ", a: b", " or a", " | Some(a)", "\n+\n\"s\"", "+a", "-1", "%a", " as a", "\"s\"", "'c'", " ", " a"];
    let heads = [("{{ a", " }}"), ("{{ 1", " }}"), ("{{ \"s\"", " }}"), ("{{ (a", ") }}"), ("{{ f(a", ") }}"), ("{{ [a", "] }}"), ("{% if a", " %}x{% endif %}"), ("{% let a = a", " %}"), ("{% for b in a", " %}{% endfor %}"), ("{% for b in c if a", " %}{% endfor %}"), ("{% match a", " %}{% when a %}{% endmatch %}"), ("{% match a %}{% when A", " %}{% endmatch %}"), ("{% match a %}{% when (a", ") %}{% endmatch %}"), ("{% let a", " = a %}"), ("{% call m(a", ") %}"), ("{% macro m(a", ") %}{% endmacro %}"), ("{% filter a", " %}{% endfilter %}"), ("{{ m!(a", ") }}"), ("{{ a::a", " }}")];
    let far: &[usize] = if deep { &[2, 10, 100, 127, 128, 129, 1000, 2000, 5000, 10_000, 20_000] } else { &[100, 1000, 20_000] };
    let name5 = |i: usize| {
        let d = far[i % far.len()];
        let k = i / far.len();
        let (x, h) = (suffixes[k / heads.len()], heads[k % heads.len()]);
        (format!("{x:?} {d} times in {:?}", format!("{}..{}", h.0, h.1)), format!("{}{}{}", h.0, x.repeat(d), h.1))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (k, src) = name5(i);
        time(&src, log, &k);
    };
    iso::run(p, "chains", suffixes.len() * heads.len() * far.len(), limit, f, |i| name5(i).0);
    // Beyond that the tree of the expression is too deep to be dropped.
    let f = |_: usize, log: &mut Log| {
        log.add("states", 1);
        let src = format!("{{{{ a{} }}}}", ".b()".repeat(100_000));
        time(&src, log, "an expression of 200000 suffixes");
    };
    iso::run(p, "huge", 1, limit, f, |_| "an expression of 200000 suffixes".into());
    // Far more than may be nested.
    let far = [50_000usize, 200_000, 600_000];
    let opens = ["!", "-", "- ", "-!", "!- ", "(", "[", "f(", "a[", "(a, ", "!(", "-[", "a.f(", "a|f(", "a + (", "!a[", "\"a\"[", "((", "m!(", "(-"];
    let ends = [("{{ ", "a }}"), ("{{ ", " }}"), ("{{ ", ""), ("{% if ", "a %}x{% endif %}"), ("{% let a = ", "a %}"), ("{% for b in ", "a %}{% endfor %}"), ("{{ b|f(", "a) }}"), ("{% call m(", "a) %}"), ("{% match a %}{% when Some(", "a) %}{% endmatch %}"), ("{% when ", "a %}")];
    let name6 = |i: usize| {
        let d = far[i % far.len()];
        let (o, h) = (opens[i / far.len() / ends.len()], ends[i / far.len() % ends.len()]);
        (format!("{o:?} {d} times in {:?}", format!("{}..{}", h.0, h.1)), format!("{}{}{}", h.0, o.repeat(d), h.1))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (k, src) = name6(i);
        time(&src, log, &k);
    };
    iso::run(p, "far", opens.len() * ends.len() * far.len(), limit, f, |i| name6(i).0);
    let holes: &[usize] = if deep { &[0, 1, 2, 3, 9, 10, 13] } else { &[0, 2] };
    let name4 = |i: usize| {
        let form = [0, 1, 3][i % 3];
        let d = dd[i / 3 % dd.len()];
        let k = i / 3 / dd.len();
        let h = HOLES[holes[k % holes.len()]];
        let k = k / holes.len();
        let (x, y) = (INNER[k / INNER.len()], INNER[k % INNER.len()]);
        let (o, c) = (format!("{}{}", x.0, y.0), format!("{}{}", y.1, x.1));
        (format!("{o:?} and {c:?} {d} times, form {form} in {:?}", format!("{}..{}", h.0, h.1)), format!("{}{}{}", h.0, build(&o, &c, d, form), h.1))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (k, src) = name4(i);
        time(&src, log, &k);
    };
    iso::run(p, "inner2", INNER.len() * INNER.len() * holes.len() * 3 * dd.len(), limit, f, |i| name4(i).0);
}

/// A small input must not take long: 2 ms per byte and 5 s are far above what parsing takes.
fn time(src: &str, log: &mut Log, key: &str) {
    let t = Instant::now();
    run(src, &Syntax::default(), log, || key.to_string());
    let e = t.elapsed();
    if e > Duration::from_secs(5) && e > Duration::from_millis(2) * src.len() as u32 {
        // Once more, the machine may have been busy.
        let t = Instant::now();
        run(src, &Syntax::default(), log, || key.to_string());
        if t.elapsed() > Duration::from_secs(5) {
            log.violation(key, format!("parsing {} bytes took {e:?}", src.len()));
        }
    }
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    for n in 1..=if deep { 5 } else { 4 } {
        sequences(&mut p, &format!("raw{n}"), &SYNTAXES[0], "", RAW, "", "", n);
        if n <= 4 {
            sequences(&mut p, &format!("expr{n}"), &SYNTAXES[0], "{{ ", EXPR, " ", " }}", n);
            sequences(&mut p, &format!("tag{n}"), &SYNTAXES[0], "{% ", TAG, " ", " %}", n);
            sequences(&mut p, &format!("tagt{n}"), &SYNTAXES[0], "{%", TAG, "", "", n);
            sequences(&mut p, &format!("rust{n}"), &SYNTAXES[0], "{{ m!(", RUST, "", ") }}", n);
        }
        if n <= 4 {
            sequences(&mut p, &format!("num{n}"), &SYNTAXES[0], "{{", NUM, "", "", n);
            sequences(&mut p, &format!("str{n}"), &SYNTAXES[0], "{{\"", STR, "", "\" }}", n);
            sequences(&mut p, &format!("chr{n}"), &SYNTAXES[0], "{{ '", STR, "", "'", n);
        }
    }
    // Custom delimiters: sequences of the delimiters, their halves, and what may stand between.
    for (k, s) in SYNTAXES.iter().enumerate() {
        let mut toks: Vec<String> = s.iter().map(|x| x.to_string()).collect();
        for x in s {
            let c: Vec<char> = x.chars().collect();
            toks.push(c[..c.len() / 2].iter().collect());
            toks.push(c[c.len() / 2..].iter().collect());
        }
        toks.extend(["a", " ", "\n", "\"", "-", "raw", "endraw", "if", "endif", "(", "é"].map(String::from));
        let mut seen = vec![];
        toks.retain(|t| {
            let new = !seen.contains(t);
            seen.push(t.clone());
            new
        });
        let toks: Vec<&str> = toks.iter().map(|t| t.as_str()).collect();
        for n in 1..=if deep { 5 } else { 4 } {
            sequences(&mut p, &format!("syn{k}_{n}"), s, "", &toks, "", "", n);
        }
    }
    nested(&mut p);
    p.finish();
}
