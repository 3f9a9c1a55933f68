//! C02: the right escaper is applied to each output, exactly once, and never to text.
use vkit::contexts::*;
use vkit::e2e::*;
use vkit::filters::USER_FILTERS;
use vkit::model::*;
use vkit::part::*;

fn star(x: &str) -> String {
    x.replace('<', "(*)").replace('&', "(+)")
}
fn dash(x: &str) -> String {
    x.replace('<', "-").replace('-', "--")
}

/// Forms of an output of the variable `v` (and `w`).
fn forms(v: &str, w: &str) -> Vec<E> {
    let x = || var(v);
    let f = |e: E, n: &str| filt(e, n, vec![]);
    let esc = |e: E, n: &str| filt(e, "escape", vec![st(n)]);
    vec![
        x(),
        f(x(), "upper"),
        f(x(), "safe"),
        f(x(), "escape"),
        f(x(), "e"),
        esc(x(), "none"),
        esc(x(), "html"),
        filt(x(), "e", vec![st("txt")]),
        f(f(x(), "upper"), "safe"),
        f(f(x(), "safe"), "upper"),
        f(f(x(), "e"), "safe"),
        f(f(x(), "safe"), "e"),
        f(f(x(), "e"), "e"),
        f(esc(x(), "none"), "safe"),
        f(f(x(), "e"), "wrap"),
        f(esc(x(), "none"), "lower"),
        esc(f(x(), "wrap"), "xml"),
        f(x(), "amp"),
        f(f(x(), "amp"), "safe"),
        f(f(x(), "amp"), "e"),
        st("<'&>"),
        lit(V::C('<')),
        f(st("<\"&>"), "safe"),
        f(st("<&"), "e"),
        int(42),
        filt(x(), "cat", vec![st("<")]),
        filt(x(), "cat", vec![f(var(w), "safe")]),
        filt(x(), "cat", vec![f(var(w), "e")]),
        filt(f(x(), "safe"), "cat", vec![var(w)]),
        f(filt(x(), "cat", vec![f(var(w), "e")]), "safe"),
        E::Group(Box::new(x())),
        filt(f(x(), "trim"), "center", vec![int(9)]),
        f(f(x(), "amp"), "capitalize"),
    ]
}

/// One output of every other kind of expression: what it is must not matter for escaping.
fn kinds_of(v: &str) -> Vec<E> {
    let x = || var(v);
    let f = |n: &str, a: Vec<E>| filt(x(), n, a);
    let k = |r: &str, v: &str| E::Known(r.into(), s(v));
    let mut plain = vec![
        k("crate::MK", "<m&>"),
        k("crate::mk()", "<m&>"),
        k("crate::mkm!(1)", "<m&>"),
        k("crate::OB.f", "<o'>"),
        k("crate::OB.t.1", "<t\">"),
        k("crate::OB.f.to_string()", "<o'>"),
        k("[crate::MK, \"<\"][1]", "<"),
        k("crate::mk().to_string() + \"<\"", "<m&><"),
        E::Try(Box::new(E::Known("crate::okm()".into(), V::Ok_(Box::new(s("<m&>")))))),
        E::Via(Box::new(x()), ".to_string()".into()),
        E::Via(Box::new(x()), "|as_ref".into()),
        k("[\"<\", \"&\"]|join(\"'\")", "<'&"),
        k("[\"<\", \"&\"]|join(\"\")|upper", "<&"),
        k("\"<{}>\"|format(\"&\")", "<&>"),
        k("\"a<\"|json", "\"a\\u003c\""),
        k("1 < 2", "true"),
        k("\"<\" == '<'.to_string()", "true"),
        k("crate::mk().len()", "4"),
    ];
    for (n, a) in [
        ("trim", vec![]),
        ("title", vec![]),
        ("lower", vec![]),
        ("lowercase", vec![]),
        ("uppercase", vec![]),
        ("capitalize", vec![]),
        ("truncate", vec![int(2)]),
        ("truncate", vec![int(9)]),
        ("center", vec![int(9)]),
        ("indent", vec![int(2)]),
        ("linebreaks", vec![]),
        ("linebreaksbr", vec![]),
        ("paragraphbreaks", vec![]),
        ("urlencode", vec![]),
        ("urlencode_strict", vec![]),
        ("wordcount", vec![]),
        ("fmt", vec![st("<{}>")]),
        ("wrap", vec![]),
        ("cat", vec![st("<")]),
    ] {
        plain.push(f(n, a));
    }
    let mut v = vec![];
    for e in &plain {
        let compound = matches!(e, E::Known(r, _) if r.contains(" < ") || r.contains(" == ") || r.contains(" + "));
        v.push(e.clone());
        v.push(E::Group(Box::new(e.clone())));
        let e = if compound { E::Group(Box::new(e.clone())) } else { e.clone() };
        v.push(filt(e.clone(), "safe", vec![]));
        v.push(filt(e.clone(), "e", vec![]));
        v.push(filt(filt(e.clone(), "escape", vec![st("none")]), "wrap", vec![]));
        v.push(filt(filt(e, "safe", vec![]), "wrap", vec![]));
    }
    v
}

fn body(es: &[E]) -> Vec<N> {
    let mut v = vec![t("<b>&\"'")];
    for (k, e) in es.iter().enumerate() {
        v.push(out(e.clone()));
        v.push(t(["<i>", "&amp;", "\"", "'>", "é<"][k % 5]));
    }
    v
}

#[derive(Clone)]
struct Cfg {
    toml: &'static str,
    named: fn(&str) -> Escaper,
}

const PLAIN: &str = "";
const ONE: &str = "[general]\ndirs = [\"@/\"]\n[[escaper]]\npath = \"crate::Star\"\nextensions = [\"star\"]\n";
const OVER: &str = "[general]\ndirs = [\"@/\"]\n[[escaper]]\npath = \"crate::Star\"\nextensions = [\"html\", \"txt\", \"star\"]\n";
const TWO: &str = "[general]\ndirs = [\"@/\"]\n[[escaper]]\npath = \"crate::Star\"\nextensions = [\"star\", \"html\"]\n[[escaper]]\npath = \"crate::Dash\"\nextensions = [\"dash\", \"html\", \"star\", \"md\"]\n";
const SWAP: &str = "[general]\ndirs = [\"@/\"]\n[[escaper]]\npath = \"::askama::Text\"\nextensions = [\"html\", \"j2\"]\n[[escaper]]\npath = \"::askama::Html\"\nextensions = [\"txt\", \"\"]\n";

fn n_one(n: &str) -> Escaper {
    if n == "star" { star } else { escaper(n) }
}
fn n_over(n: &str) -> Escaper {
    if ["star", "html", "txt"].contains(&n) { star } else { escaper(n) }
}
fn n_two(n: &str) -> Escaper {
    match n {
        "star" | "html" => star,
        "dash" | "md" => dash,
        n => escaper(n),
    }
}
fn n_swap(n: &str) -> Escaper {
    match n {
        "html" | "j2" => escape_text,
        "txt" | "" => escape_html,
        n => escaper(n),
    }
}

fn cfgs() -> Vec<Cfg> {
    vec![
        Cfg { toml: PLAIN, named: escaper },
        Cfg { toml: ONE, named: n_one },
        Cfg { toml: OVER, named: n_over },
        Cfg { toml: TWO, named: n_two },
        Cfg { toml: SWAP, named: n_swap },
    ]
}

/// Types of the two fields and their values.
fn inputs(k: usize) -> (&'static str, Vec<Vec<V>>) {
    let txt = ["<a&\"b'>-é", "", "plain", "<", "x&&<<y"];
    let show = |f: fn(&str) -> String| txt.iter().map(|x| vec![V::Show(f(x), x.to_string()), s("&<w>")]).collect::<Vec<_>>();
    match k {
        0 => ("&'static str", show(|x| format!("{x:?}"))),
        1 => ("Chars", show(|x| format!("Chars({x:?})"))),
        2 => (
            "Parts",
            show(|x| {
                let c: Vec<char> = x.chars().collect();
                format!("Parts(&{:?})", c.chunks(2).map(|c| c.iter().collect::<String>()).collect::<Vec<_>>())
            }),
        ),
        3 => ("String", show(|x| format!("{x:?}.to_string()"))),
        _ => ("&'static &'static str", show(|x| format!("&{x:?}"))),
    }
}

struct Run {
    su: Suite,
}

impl Run {
    fn add(&mut self, mut m: Model, cfg: &Cfg, attr: Option<&str>, ty: usize) {
        let (ty, inp) = inputs(ty);
        let base = m.root.rsplit('/').next().unwrap().to_string();
        let ext = base.rsplit_once('.').map(|x| x.1).unwrap_or("");
        m.named = Some(cfg.named);
        m.esc = Some((cfg.named)(attr.unwrap_or(ext)));
        if !cfg.toml.is_empty() {
            m.config = Some(cfg.toml.into());
        }
        if let Some(a) = attr {
            m.attrs.push_str(&format!(", escape = {a:?}"));
        }
        m.prelude = USER_FILTERS.into();
        let m = m.field("x", ty).field("y", "&'static str");
        self.su.add(&m, &inp);
    }
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let vars = ["x", "y"];
    let mut r = Run { su: Suite::new() };
    let fs = forms("x", "y");
    let all = body(&fs);
    let cf = cfgs();
    let kinds: [(&str, &Cfg); 3] = [("html", &cf[0]), ("txt", &cf[0]), ("star", &cf[1])];

    // Every construct, alone and inside every other one, around all forms.
    for o in std::iter::once(0).chain(INNER..INNER + OUTER) {
        for a in 0..INNER {
            for b in 0..INNER {
                if !nests(a, b) || (a == 0 && b != 0) {
                    continue;
                }
                let depth = (o != 0) as usize + (a != 0) as usize + (b != 0) as usize;
                for (k, (ext, cfg)) in kinds.iter().enumerate() {
                    // Quick: two constructs with every escaper by turns, all three at the single ones.
                    let keep = deep || depth <= 1 || (depth == 2 && (a + b + o) % 3 == k) || (a * 5 + b * 3 + o) % 36 == 12 * k;
                    if !keep {
                        continue;
                    }
                    let pc = inner(a, 1, inner(b, 2, Piece::body(all.clone()), &vars, ext), &vars, ext);
                    r.add(outer(o, pc, ext), cfg, None, (a + b) % 5);
                }
            }
        }
    }
    p.add("contexts", r.su.cases.len() as u64);
    r.su.run(&mut p, "c02-contexts", 40);

    // Every form on its own in every construct, for every kind of value.
    let mut r = Run { su: Suite::new() };
    for (n, e) in fs.iter().enumerate() {
        for c in 0..INNER + OUTER {
            for (k, (ext, cfg)) in kinds.iter().enumerate() {
                if !deep && (n + c) % 3 != k {
                    continue;
                }
                let one = Piece::body(vec![t("<"), out(e.clone()), t(">")]);
                let m = if c < INNER { outer(0, inner(c, 1, one, &vars, ext), ext) } else { outer(c, one, ext) };
                for ty in 0..5 {
                    if deep || ty == (n + 2 * c) % 5 {
                        r.add(m.clone(), cfg, None, ty);
                    }
                }
            }
        }
    }
    // Every other kind of expression, in every construct.
    let other = body(&kinds_of("x"));
    for c in 0..INNER + OUTER {
        for (k, (ext, cfg)) in kinds.iter().enumerate() {
            if !deep && k == 1 && c % 4 != 0 || !deep && k == 2 && c % 2 != 0 {
                continue;
            }
            let one = Piece::body(other.clone());
            let m = if c < INNER { outer(0, inner(c, 1, one, &vars, ext), ext) } else { outer(c, one, ext) };
            r.add(m, cfg, None, [0, 3, 4][c % 3]);
        }
    }
    // Every pair of forms next to each other, with and without text between them.
    for (n, e) in fs.iter().enumerate() {
        for (k, (ext, cfg)) in kinds.iter().enumerate() {
            for sep in ["", "<"] {
                if !deep && sep.is_empty() != ((n + k) % 2 == 0) {
                    continue;
                }
                let mut v = vec![];
                for f in &fs {
                    v.push(out(e.clone()));
                    v.push(t(sep));
                    v.push(out(f.clone()));
                    v.push(t(";"));
                }
                v.retain(|n| n != &t(""));
                r.add(Model::inline(v, *ext == "html").rooted(ext), cfg, None, (n + k) % 5);
            }
        }
    }
    r.su.run(&mut p, "c02-forms", 60);

    // Which escaper: file name or `ext` x `escape` attribute x configuration.
    let mut r = Run { su: Suite::new() };
    let exts = ["html", "htm", "svg", "xml", "txt", "md", "yml", "none", "typ", "j2", "jinja", "jinja2", ""];
    let few: Vec<E> = forms("x", "y").into_iter().take(13).collect();
    let mut names: Vec<String> = vec![];
    for e in exts {
        names.push(if e.is_empty() { "t".into() } else { format!("t.{e}") });
        for j in ["j2", "jinja", "jinja2"] {
            if !e.is_empty() && (deep || j == "j2") && !e.starts_with('j') {
                names.push(format!("t.{e}.{j}"));
            }
        }
    }
    names.extend(["html".into(), "t.txt.html".into(), "t.html.txt".into(), "d.html/t.txt".into(), "d.txt/t.html".into(), "d.html/t".into()]);
    for (ci, cfg) in cf.iter().enumerate() {
        let mut attrs: Vec<Option<&str>> = vec![None];
        attrs.extend(exts.iter().map(|e| Some(*e)));
        if ci == 1 || ci == 2 || ci == 3 {
            attrs.push(Some("star"));
        }
        if ci == 3 {
            attrs.push(Some("dash"));
        }
        let mut ns = names.clone();
        if ci >= 1 && ci <= 3 {
            ns.extend(["t.star".into(), "t.star.html".into(), "t.html.star".into()]);
        }
        if ci == 3 {
            ns.push("t.dash".into());
        }
        for (ni, n) in ns.iter().enumerate() {
            for (ai, a) in attrs.iter().enumerate() {
                if !deep && a.is_some() && (ni + ai) % 4 != ci % 4 {
                    continue;
                }
                let mut m = Model::files(n, vec![(n.as_str(), body(&few))]);
                m.on_disk = true;
                r.add(m, cfg, *a, ni % 3);
                // The same as an inline template.
                if n.starts_with("t.") && n.matches('.').count() == 1 {
                    r.add(Model::inline(body(&few), false).rooted(&n[2..]), cfg, *a, ni % 3);
                }
            }
        }
    }
    // Included, imported and inherited files take the escaper of the template that is derived.
    for (root, other) in [("html", "txt"), ("txt", "html"), ("xml", "md"), ("none", "j2"), ("j2", "yml")] {
        let one = |n: &str| vec![t("<t>"), outv(n), out(filt(var(n), "safe", vec![])), out(filt(var(n), "e", vec![]))];
        let (r_, o_) = (format!("t.{root}"), format!("o.{other}"));
        let mut models = vec![
            Model::files(&r_, vec![(&r_, vec![outv("x"), N::Include(o_.clone(), N0), outv("x")]), (&o_, one("x"))]),
            Model::files(&r_, vec![(&r_, vec![N::Import(o_.clone(), "s".into(), N0), outv("x"), N::Call(Some("s".into()), "m".into(), vec![(None, var("x"))], N0), outv("x")]), (&o_, vec![macro_("m", &["v"], one("v"))])]),
            Model::files(&r_, vec![(&r_, vec![N::Extends(o_.clone()), block("b", vec![N::Super(N0), outv("x")])]), (&o_, vec![outv("x"), block("b", one("x")), outv("x")])]),
        ];
        for m in models.drain(..) {
            r.add(m.clone(), &cf[0], None, 0);
            r.add(m.clone(), &cf[0], Some("txt"), 1);
            r.add(m, &cf[0], Some("html"), 2);
        }
    }
    r.su.run(&mut p, "c02-selection", 60);
    p.finish();
}
