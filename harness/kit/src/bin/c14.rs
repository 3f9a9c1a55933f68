//! C14: all entry points agree, and no failure is swallowed.
use vkit::contexts::*;
use vkit::e2e::*;
use vkit::filters::USER_FILTERS;
use vkit::model::*;
use vkit::part::*;

const PRE: &str = "use crate::{Boom, MB};";

fn known(n: i64) -> E {
    E::Known(n.to_string(), i(n))
}

fn mb(fail: bool) -> V {
    V::Show(format!("MB({:?}, {fail})", "é<m"), "é<m".into())
}

fn good() -> Vec<V> {
    vec![s("a<b"), mb(false), V::Ok_(Box::new(i(5))), V::B(false), V::Show("vec![MB(\"u\", false), MB(\"<v\", false)]".into(), String::new())]
}

/// What fails: index of the field, its failing value, the cause.
fn failing(what: char) -> (Vec<V>, &'static str) {
    let mut v = good();
    match what {
        'm' => {
            v[1] = mb(true);
            (v, "fmt")
        }
        'r' => {
            v[2] = V::Show("Err(Boom(3))".into(), String::new());
            (v, "boom 3")
        }
        'b' => {
            v[3] = V::B(true);
            (v, "boom 7")
        }
        'f' => {
            v[3] = V::B(true);
            (v, "fmt")
        }
        _ => {
            v[4] = V::Show("vec![MB(\"u\", false), MB(\"<v\", true)]".into(), String::new());
            (v, "fmt")
        }
    }
}

fn fields(m: Model) -> Model {
    let mut m = m.field("x", "&'static str").field("m", "MB").field("r", "Result<i32, Boom>").field("bf", "bool").field("lm", "Vec<MB>");
    m.prelude = format!("{PRE}{USER_FILTERS}");
    m
}

const VARS: [&str; 5] = ["x", "m", "r", "bf", "lm"];

/// Adds the model with working values, and with each of the values that fail.
fn add(su: &mut Suite, m: &Model, whats: &[char]) {
    let mut inputs = vec![good()];
    let mut causes = vec![""];
    for w in whats {
        // The model only computes the text the failing rendering has to be the start of.
        inputs.push(good());
        causes.push(failing(*w).1);
    }
    su.add(m, &inputs);
    let c = su.cases.last_mut().unwrap();
    for (k, r) in c.runs.iter_mut().enumerate() {
        r.code = Some(format!("crate::probe(&t, {:?})", causes[k]));
        if k > 0 {
            r.init = failing(whats[k - 1]).0.iter().map(V::rust).collect();
            r.expect = match &r.expect {
                Expect::Out(x) => Expect::Err(x.clone()),
                x => x.clone(),
            };
        }
    }
}

/// Failing expressions that are text, with what makes them fail.
fn texts() -> Vec<(E, char)> {
    let m = || var("m");
    let mut v = vec![
        (m(), 'm'),
        (filt(var("x"), "boom", vec![var("bf")]), 'b'),
        (filt(var("x"), "fmterr", vec![var("bf")]), 'f'),
        (filt(filt(var("x"), "boom", vec![var("bf")]), "upper", vec![]), 'b'),
        (filt(filt(m(), "wrap", vec![]), "boom", vec![var("bf")]), 'b'),
        (filt(var("x"), "cat", vec![filt(var("x"), "boom", vec![var("bf")])]), 'b'),
        (filt(var("x"), "cat2", vec![st("1"), E::Try(Box::new(var("r")))]), 'r'),
        (filt(E::Try(Box::new(var("r"))), "wrap", vec![]), 'r'),
        (E::Known("\"{}-{}\"|format(x, r?)".into(), s("a<b-5")), 'r'),
        (E::Known("lm|join(\", \")".into(), s("u, <v")), 'l'),
        (E::Known("[x, \"y\"]|join(m)".into(), s("a<bé<my")), 'm'),
    ];
    for (f, a) in [
        ("upper", vec![]),
        ("lower", vec![]),
        ("uppercase", vec![]),
        ("lowercase", vec![]),
        ("trim", vec![]),
        ("capitalize", vec![]),
        ("title", vec![]),
        ("linebreaks", vec![]),
        ("linebreaksbr", vec![]),
        ("paragraphbreaks", vec![]),
        ("urlencode", vec![]),
        ("urlencode_strict", vec![]),
        ("wordcount", vec![]),
        ("truncate", vec![int(2)]),
        ("truncate", vec![int(9)]),
        ("center", vec![int(9)]),
        ("indent", vec![int(2)]),
        ("escape", vec![]),
        ("e", vec![]),
        ("e", vec![st("none")]),
        ("escape", vec![st("html")]),
        ("safe", vec![]),
    ] {
        v.push((filt(m(), f, a.clone()), 'm'));
        v.push((filt(filt(m(), f, a), "safe", vec![]), 'm'));
    }
    v
}

/// Failing expressions that are numbers.
fn numbers() -> Vec<(E, char)> {
    let r = || E::Try(Box::new(var("r")));
    vec![
        (r(), 'r'),
        (E::Group(Box::new(bin("+", r(), int(1)))), 'r'),
        (E::Call("crate::tr".into(), vec![r()]), 'r'),
        (filt(E::Group(Box::new(bin("*", int(2), r()))), "inc", vec![int(1)]), 'r'),
        (filt(int(4), "inc", vec![r()]), 'r'),
        (un("-", r()), 'r'),
    ]
}

/// Places an expression may fail at.
fn places(e: &E, number: bool) -> Vec<Vec<N>> {
    let e = || e.clone();
    let m = macro_("pm", &["a", "b"], vec![t("<m>"), outv("a"), outv("b"), t("</m>")]);
    let mut v = vec![
        vec![t("a<"), out(e()), t("z")],
        vec![out(e())],
        vec![outv("x"), out(e()), outv("x"), out(e()), t("z")],
        vec![t("1"), let_("n", e()), t("2"), outv("n"), t("3")],
        vec![m.clone(), t("1"), call("pm", vec![e(), var("x")]), t("2")],
        vec![m, t("1"), call("pm", vec![var("x"), e()]), t("2")],
        vec![t("1"), N::Filter(vec![("wrap".into(), vec![])], N0, vec![t("2"), out(e()), t("3")], N0), t("4")],
        vec![t("1"), N::Filter(vec![("safe".into(), vec![])], N0, vec![out(e())], N0), t("4")],
        vec![t("1"), N::Filter(vec![("cat".into(), vec![e()]), ("wrap".into(), vec![])], N0, vec![t("2")], N0), t("4")],
    ];
    if number {
        v.extend([
            vec![t("1"), if_(bin("==", e(), known(77)), vec![t("2")]), t("3")],
            vec![t("1"), ifelse(bin("!=", e(), known(77)), vec![t("2")], vec![t("3")]), t("4")],
            vec![
                t("1"),
                N::If(vec![(N0, Some(Cond::Expr(E::Known("bf".into(), V::B(false)))), vec![t("2")]), (N0, Some(Cond::Expr(bin("<", e(), known(100)))), vec![t("3")])], N0),
                t("4"),
            ],
            vec![
                t("1"),
                N::Match(N0, e(), "".into(), vec![(N0, P::Lit(i(77)), vec![t("2")]), (N0, pn("__else"), vec![t("3")])], N0),
                t("4"),
            ],
            vec![t("1"), N::If(vec![(N0, Some(Cond::Let(P::Tuple("Some".into(), vec![pn("n")]), E::Ctor("Some".into(), vec![e()]))), vec![outv("n")])], N0), t("4")],
            vec![t("1"), for_("n", E::Arr(vec![known(1), known(2)]), vec![outv("n"), out(e()), t(",")]), t("4")],
            vec![t("1"), N::Let(pn("d"), None, N0), N::Let(pn("d"), Some(e()), N0), outv("d"), t("4")],
        ]);
    }
    v
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();

    // Every failing expression at every place.
    let mut su = Suite::new();
    for html in [true, false] {
        for (number, list) in [(false, texts()), (true, numbers())] {
            for (k, (e, what)) in list.iter().enumerate() {
                for (j, ns) in places(e, number).into_iter().enumerate() {
                    // In the quick tier the plain text forms of the later expressions are left out.
                    if !deep && !html && (k + j) % 3 != 0 {
                        continue;
                    }
                    // A let or macro argument cannot hold what borrows a temporary.
                    let borrows = matches!(e, E::Filter(a, ..) if matches!(**a, E::Filter(..))) || matches!(e, E::Known(k, _) if k.starts_with('['));
                    if !number && matches!(j, 3 | 4 | 5) && borrows {
                        continue;
                    }
                    add(&mut su, &fields(Model::inline(ns, html)), &[*what]);
                }
            }
        }
    }
    su.run(&mut p, "places", 60);

    // A few of them in every construct.
    let mut su = Suite::new();
    let body = |k: usize| -> (Vec<N>, Vec<char>) {
        match k {
            0 => (vec![t("[é"), outv("x"), outv("m"), t("]"), out(E::Try(Box::new(var("r")))), t(".")], vec!['m', 'r']),
            1 => (vec![t("["), out(filt(var("x"), "boom", vec![var("bf")])), t("]"), out(filt(var("m"), "safe", vec![])), t(".")], vec!['b', 'm']),
            _ => (vec![if_(bin("<", E::Try(Box::new(var("r"))), known(100)), vec![t("é"), outv("m")]), t("]")], vec!['r', 'm']),
        }
    };
    for ext in ["html", "txt"] {
        for a in 0..INNER {
            for b in 0..INNER {
                if !deep && b != 0 && (ext == "txt" || (a + b) % 2 != 0) {
                    continue;
                }
                if b != 0 && (a == 0 || !nests(a, b)) {
                    continue;
                }
                for k in 0..3 {
                    if !deep && b != 0 && k != (a + b) % 3 {
                        continue;
                    }
                    let (ns, whats) = body(k);
                    let mut pc = Piece::body(ns);
                    if b != 0 {
                        pc = inner(b, 2, pc, &VARS, ext);
                    }
                    if a != 0 {
                        pc = inner(a, 1, pc, &VARS, ext);
                    }
                    let mut outs = vec![0];
                    if b == 0 || deep {
                        outs.extend(INNER..INNER + OUTER);
                    }
                    for o in outs {
                        let mut m = fields(outer(o, pc.clone(), ext));
                        m.on_disk = true;
                        add(&mut su, &m, &whats);
                    }
                }
            }
        }
    }
    su.run(&mut p, "contexts", 60);

    // What the model does not know: templates as values, other errors, blocks.
    let mut cases = vec![];
    let probe = |init: Vec<String>, cause: &str, expect: Expect| Run { init, expect, trace: None, code: Some(format!("crate::probe(&t, {cause:?})")) };
    let o = |x: &str| Expect::Out(x.into());
    let e = |x: &str| Expect::Err(x.into());
    let inner_t = "use crate::{Boom, MB}; #[derive(askama::Template)] #[template(source = \"i<{{ m }}{{ r? }}j\", ext = \"html\")] pub struct I { pub m: MB, pub r: Result<i32, Boom> }";
    let iv = |m: bool, r: bool| format!("I {{ m: MB(\"<\", {m}), r: {} }}", if r { "Err(Boom(3))" } else { "Ok(5)" });
    for (ext, good) in [("html", "a&lt;b<i&lt;&amp;lt;5j>"), ("txt", "a<b<i<&lt;5j>")] {
        let mut c = Case::source(format!("nested template {ext}"), "{{ x }}<{{ i }}>", ext).field("x", "&'static str").field("i", "I");
        c.prelude = inner_t.into();
        let x = "\"a<b\"".to_string();
        c.runs = vec![
            probe(vec![x.clone(), iv(false, false)], "", o(good)),
            probe(vec![x.clone(), iv(true, false)], "fmt", e(good)),
            probe(vec![x.clone(), iv(false, true)], "fmt", e(good)),
        ];
        cases.push(c);
        for (n, src, pre) in [("render", "{{ x }}<{{ i.render()?|safe }}>", ""), ("dyn", "{{ x }}<{{ d|safe }}>", "d")] {
            let mut c = Case::source(format!("nested template by {n} {ext}"), src, ext).field("x", "&'static str");
            c.prelude = format!("use askama::Template as _; {inner_t}");
            let x = if ext == "html" { "a&lt;b" } else { "a<b" };
            let full = format!("{x}<i<&lt;5j>");
            let full = if ext == "html" { full } else { full };
            let (c2, w): (Case, Box<dyn Fn(String) -> String>) = if pre == "d" {
                (c.field("d", "Box<dyn askama::DynTemplate>"), Box::new(|v| format!("Box::new({v})")))
            } else {
                (c.field("i", "I"), Box::new(|v| v))
            };
            let mut c = c2;
            let xi = "\"a<b\"".to_string();
            c.runs = vec![
                probe(vec![xi.clone(), w(iv(false, false))], "", o(&full)),
                probe(vec![xi.clone(), w(iv(true, false))], if pre == "d" { "fmt" } else { "custom formatting error: an error occurred when formatting an argument" }, e(&full)),
                probe(vec![xi.clone(), w(iv(false, true))], if pre == "d" { "fmt" } else { "custom boom 3" }, e(&full)),
            ];
            cases.push(c);
        }
    }
    let json = "a{\n  \"x\": 1\n}b";
    for src in ["a{{ m|json|safe }}b", "a{{ m|tojson|safe }}b", "a{% filter safe %}{{ m|json|safe }}{% endfilter %}b"] {
        let mut c = Case::source(format!("json {src}"), src, "html").field("m", "std::collections::BTreeMap<&'static str, u8>");
        c.runs = vec![probe(vec!["[(\"x\", 1)].into()".into()], "", o(json))];
        cases.push(c);
        // A key that is no string cannot be serialized.
        let mut c = Case::source(format!("json failing {src}"), src, "html").field("m", "std::collections::BTreeMap<(u8, u8), u8>");
        c.runs = vec![probe(vec!["[((1, 2), 1)].into()".into()], "fmt", e("a{\n  "))];
        cases.push(c);
    }
    for (n, attrs) in [("block", ", block = \"b\""), ("whole", "")] {
        let mut c = Case::source(format!("fragment {n}"), "x{% block a %}{{ m }}{% endblock %}y{% block b %}é{{ r? }}{{ m }}.{% endblock %}z", "html").field("m", "MB").field("r", "Result<i32, Boom>");
        c.prelude = PRE.into();
        c.attrs = attrs.into();
        let full = if n == "block" { "é5&lt;." } else { "x&lt;yé5&lt;.z" };
        let m = |b: bool| format!("MB(\"<\", {b})");
        c.runs = vec![
            probe(vec![m(false), "Ok(5)".into()], "", o(full)),
            probe(vec![m(true), "Ok(5)".into()], "fmt", e(full)),
            probe(vec![m(false), "Err(Boom(3))".into()], "boom 3", e(full)),
        ];
        cases.push(c);
    }
    // `?` on the error types of others keeps them, too.
    for (ty, bad, cause) in [
        ("Result<i32, std::num::ParseIntError>", "\"x\".parse()", "custom invalid digit found in string"),
        ("Result<i32, std::fmt::Error>", "Err(std::fmt::Error)", "custom an error occurred when formatting an argument"),
        ("Result<i32, &'static str>", "Err(\"text\")", "custom text"),
        ("Result<i32, askama::Error>", "Err(askama::Error::Custom(\"own\".into()))", "custom own"),
    ] {
        for (src, full) in [("a{{ f(1)? }}b", "a5b"), ("a{% let n = f(1)? %}{{ n }}b", "a5b"), ("a{{ f(1)?|fmt(\"<{}>\")|safe }}b", "a<5>b"), ("a{% if f(1)? == 5 %}5{% endif %}b", "a5b")] {
            let mut c = Case::source(format!("{ty} {src}"), src, "html").field("f", &format!("fn(i32) -> {ty}"));
            c.runs = vec![probe(vec!["|_| Ok(5)".into()], "", o(full)), probe(vec![format!("|_| {bad}")], cause, e(full))];
            cases.push(c);
        }
    }
    // The arguments of `fmt` and `format` are displayed by `std::format!`.
    for (name, src, full) in [("fmt", "a{{ m|fmt(\"<{}]\") }}b", "a<m]b"), ("format", "a{{ \"<{}]\"|format(m) }}b", "a<m]b")] {
        let mut c = Case::source(format!("a value that fails in {name}"), src, "txt").field("m", "MB");
        c.prelude = PRE.into();
        c.runs = vec![probe(vec!["MB(\"m\", false)".into()], "", o(full)), probe(vec!["MB(\"m\", true)".into()], "fmt", e(full))];
        cases.push(c);
    }
    // Empty and long outputs; a value that is written in many pieces.
    for (src, full) in [("", String::new()), ("{# #}", String::new()), ("{% if false %}x{% endif %}", String::new())] {
        cases.push(Case { runs: vec![probe(vec![], "", Expect::Out(full))], ..Case::source(format!("empty {src:?}"), src, "html") });
    }
    for v in ["crate::Chars(\"a<é&\")", "crate::Parts(&[\"<\", \"b\", \"é'\"])"] {
        let ty = v.split('(').next().unwrap();
        let full = if ty.ends_with("Chars") { "[a&lt;é&amp;]" } else { "[&lt;bé&#x27;]" };
        for src in ["[{{ v }}]", "{% filter safe %}[{{ v }}]{% endfilter %}", "[{{ v|e }}]"] {
            let mut c = Case::source(format!("pieces {ty} {src}"), src, "html").field("v", ty);
            c.runs = vec![probe(vec![v.into()], "", o(full))];
            cases.push(c);
        }
    }
    check(&mut p, "other", &cases, 20);
    p.finish();
}
