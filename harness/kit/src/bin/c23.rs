//! C23: identifiers of templates may be Rust keywords anywhere.
use vkit::e2e::*;
use vkit::part::*;

/// Keywords of every edition that can be raw identifiers.
const STRICT: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "dyn", "else", "enum", "extern", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait",
    "type", "unsafe", "use", "where", "while",
];
const RESERVED: &[&str] = &["abstract", "become", "box", "do", "final", "gen", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield"];
const WEAK: &[&str] = &["auto", "default", "macro_rules", "raw", "safe", "union"];
/// Names that are similar to keywords, or words of the template language.
const NEAR: &[&str] = &[
    "ordinary", "i", "ä", "r", "typ", "type_", "types", "as_", "do_", "do__", "fn1", "iff", "forr", "matches", "unsize", "unsized_", "override_", "abstracts", "with", "when", "set", "end", "endif", "endfor",
    "block", "call", "include", "import", "extends", "endmatch", "elif", "filter", "caller", "writer_", "expr0", "item", "selfish", "trueish", "loops", "super_", "_x", "__x", "_0", "_self", "_type", "\u{540d}",
];

/// What is needed to compile a position.
#[derive(Clone)]
struct Pos {
    src: String,
    fields: Vec<(&'static str, &'static str, &'static str)>,
    prelude: &'static str,
    want: String,
    files: Vec<(&'static str, String)>,
}

/// `@` stands for the name, `$` for another one, `#` for the name in Rust.
fn positions() -> Vec<Pos> {
    let mut v: Vec<Pos> = vec![];
    let mut add = |src: &str, fields: &[(&'static str, &'static str, &'static str)], prelude: &'static str, want: &str| {
        v.push(Pos { src: src.into(), fields: fields.to_vec(), prelude, want: want.into(), files: vec![] })
    };
    let num = [("#", "i32", "7")];
    for (s, w) in [
        ("{{ @ }}", "7"),
        ("{{ @ }}{{ @ }}", "77"),
        ("{{ self.@ }}", "7"),
        ("{{ @ + 1 }}{{ 1+@ }}", "88"),
        ("{{ -@ }}", "-7"),
        ("{{ (@) }}", "7"),
        ("{{ (@ * 2)|fmt(\"{:>3}\") }}", " 14"),
        ("{{ @|fmt(\"<{}>\") }}", "<7>"),
        ("{{ \"{}-{}\"|format(@, self.@) }}", "7-7"),
        ("{{ [@, 1]|join(\",\") }}", "7,1"),
        ("{{ [1, @][1] }}", "7"),
        ("{{ @.pow(2) }}", "49"),
        ("{{ self.@.pow(2) }}", "49"),
        ("{{ 2i32.pow(@.abs() as u32) }}", ""),
        ("{% if @ == 7 %}y{% else if @ == 8 %}n{% endif %}", "y"),
        ("{% if true && @ > 6 %}y{% endif %}", "y"),
        ("{% match @ %}{% when 7 %}y{% else %}n{% endmatch %}", "y"),
        ("{% match @ %}{% when $ %}{{ $ }}{% endmatch %}", "7"),
        ("{% match 1 %}{% when @ %}{{ @ }}{% endmatch %}{{ @ }}", "17"),
        ("{% let @ = 1 %}{{ @ }}{{ self.@ }}", "17"),
        ("{{ @ }}{% let @ = @ + 1 %}{{ @ }}{% let @ = @ * 2 %}{{ @ }}", "7816"),
        ("{% let $ = @ %}{{ $ }}{{ @ }}", "77"),
        ("{% let @ %}{% if true %}{% let @ = 1 %}{% else %}{% let @ = 2 %}{% endif %}{{ @ }}", "1"),
        ("{% let $ %}{% let $ = @ %}{{ $ }}", "7"),
        ("{% set @ = 3 %}{{ @ }}", "3"),
        ("{% let (@, $) = (1, 2) %}{{ @ }}{{ $ }}", "12"),
        ("{{ @ }}{% let ($, @) = (1, 2) %}{{ @ }}{{ $ }}", "721"),
        ("{% for @ in [1, 2] %}{{ @ }}{% endfor %}{{ @ }}", "127"),
        ("{% for @ in [1, 2, 3] if @.to_string() != \"2\" %}{{ @ }}{{ loop.index }}{% endfor %}", "1132"),
        ("{% for (@, $) in [(1, 2)] %}{{ @ }}{{ $ }}{% endfor %}", "12"),
        ("{% for @ in [1] %}{% for $ in [2] %}{{ @ }}{{ $ }}{% endfor %}{% endfor %}", "12"),
        ("{% for @ in 0..@ if @.abs() > 5 %}{{ @ }}{% else %}n{% endfor %}", "6"),
        ("{% for @ in [1][1..] %}{{ @ }}{% else %}{{ @ }}{% endfor %}", "7"),
        ("{% for $ in 5..@ %}{{ $ }}{% endfor %}", "56"),
        ("{% for $ in [2, 1] %}{{ $ + @ }}{{ loop.cycle([\"x\", \"y\"]) }}{% endfor %}", "9x8y"),
        ("{% for $ in [1] if @ == 7 %}{{ $ }}{% endfor %}", "1"),
        ("{% macro m(@) %}<{{ @ }}>{% endmacro %}{% call m(1) %}{% call m(@) %}{% call m(@ = 2) %}{% call m(@ = @) %}{{ @ }}", "<1><7><2><7>7"),
        ("{% macro m(@, $) %}<{{ @ }}{{ $ }}>{% endmacro %}{% call m(1, 2) %}{% call m($ = 2, @ = 1) %}{% call m(1, $ = @) %}", "<12><12><17>"),
        ("{% macro m($, @) %}<{{ @ + 1 }}{{ $ }}>{% endmacro %}{% call m(@, @ + 1) %}{% call m(@ = self.@, $ = 1) %}", "<97><81>"),
        ("{% macro n(@) %}{{ @ }}{% endmacro %}{% macro m(@) %}({% call n(@) %}{% call n(@ = @) %}){% endmacro %}{% call m(@) %}", "(77)"),
        ("{% macro m(@) %}{% let @ = @ + 1 %}{{ @ }}{% for @ in [1] %}{{ @ }}{% endfor %}{% endmacro %}{% call m(@) %}", "81"),
        ("{% filter fmt(\"<{}>\") %}{{ @ }}{% endfilter %}", "<7>"),
        ("{% block b %}{{ @ }}{% let @ = 1 %}{{ @ }}{% endblock %}{{ @ }}", "717"),
        ("{% macro @() %}<{{ @ }}>{% endmacro %}{% call @() %}", "<7>"),
        ("{% macro @(@) %}<{{ @ }}>{% endmacro @ %}{% call @(1) %}{% call @(@ = @) %}", "<1><7>"),
        ("{% block @ %}<{{ @ }}>{% endblock @ %}", "<7>"),
    ] {
        if !w.is_empty() {
            add(s, &num, "", w);
        }
    }
    add("{{ crate::tr(@) }}{{ crate::tr(self.@) }}", &num, "", "77");
    add("{{ @ }}{{ $ }}{{ @ + $ }}", &[("#", "i32", "7"), ("%", "i32", "8")], "", "7815");
    add("{% for $ in @ %}{{ $ }}{% endfor %}{% for $ in self.@ %}{{ $ }}{% endfor %}{{ @[0] }}{{ @.len() }}", &[("#", "Vec<i32>", "vec![1, 2]")], "", "121212");
    add("{% for @ in @ %}{{ @ }}{% endfor %}{% for @ in self.@ %}{{ @ }}{% endfor %}", &[("#", "Vec<i32>", "vec![1, 2]")], "", "1212");
    add("{{ @|upper }}{{ @|join(\"-\")|lower }}", &[("#", "Vec<char>", "vec!['a', 'B']")], "", "");
    add("{{ @|upper }}{{ @|lower|upper }}{{ \"a\"|fmt(\"{}\") }}", &[("#", "&'static str", "\"q\"")], "", "QQa");
    add("{% if @ %}y{% endif %}{% if !@ %}n{% endif %}{% if $ || @ %}y{% endif %}{% if self.@ %}y{% endif %}{% if false %}{% else if @ %}z{% endif %}", &[("#", "bool", "true"), ("%", "bool", "false")], "", "yyyz");
    add("{{ @(3) }}{{ (self.@)(4) }}", &[("#", "fn(i32) -> i32", "|x| x + 1")], "", "45");
    add("{{ @? }}{{ self.@? }}", &[("#", "Result<i32, std::fmt::Error>", "Ok(4)")], "", "44");
    for (f, w) in [("Some(5)", "5"), ("None", "n")] {
        let f = [("#", "Option<i32>", f), ("o", "Option<i32>", f)];
        let w5 = w;
        for (s, t) in [
            ("{% if let Some(@) = o %}{{ @ }}{% else %}n{% endif %}", w5),
            ("{% if let Some($) = @ %}{{ $ }}{% else %}n{% endif %}", w5),
            ("{% if let Some(@) = @ %}{{ @ }}{% else %}n{% endif %}", w5),
            ("{% if let Some with (@) = o %}{{ @ }}{% else %}n{% endif %}", w5),
            ("{% if false %}{% else if let Some(@) = self.@ %}{{ @ }}{% else %}n{% endif %}", w5),
            ("{% match o %}{% when Some(@) %}{{ @ }}{% when None %}n{% endmatch %}", w5),
            ("{% match @ %}{% when Some with (@) %}{{ @ }}{% else %}n{% endmatch %}", w5),
            ("{% match self.@ %}{% when Some($) %}{{ $ }}{% else %}n{% endmatch %}", w5),
            ("{% match (@, o) %}{% when (Some($), Some(@)) %}{{ @ }}{% else %}n{% endmatch %}", ""),
        ] {
            if !t.is_empty() {
                add(s, &f, "", t);
            }
        }
    }
    let st = "#[derive(Clone, Copy)] pub struct S { pub #: i32, pub b: i32 } impl S { pub fn m(&self) -> S { *self } }";
    let sf = [("s", "S", "S { #: 4, b: 5 }"), ("l", "Vec<S>", "vec![S { #: 4, b: 5 }]")];
    for (s, w) in [
        ("{{ s.@ }}{{ self.s.@ }}{{ s.m().@ }}{{ s.@ + s.b }}{{ (s).@ }}", "44494"),
        ("{{ s.@.pow(2) }}{{ -s.@ }}", "16-4"),
        ("{% let S { @, b } = s %}{{ @ }}{{ b }}", "45"),
        ("{% let S { @: $, b } = s %}{{ $ }}{{ b }}", "45"),
        ("{% let S { @: a, b: @ } = s %}{{ a }}{{ @ }}", "45"),
        ("{% match s %}{% when S { @, b } %}{{ @ }}{{ b }}{% endmatch %}", "45"),
        ("{% match s %}{% when S { @: 4, b: @ } %}{{ @ }}{% else %}n{% endmatch %}", "5"),
        ("{% match s %}{% when S with { @: $, b } %}{{ $ }}{{ b }}{% endmatch %}", "45"),
        ("{% if let S { @: $, b } = s %}{{ $ }}{{ b }}{% endif %}", "45"),
        ("{% for S { @, b } in l %}{{ @ }}{{ b }}{% endfor %}", "45"),
        ("{% macro m(@) %}{{ @.@ }}{{ @.b }}{% endmacro %}{% call m(s) %}{% call m(@ = s) %}", "4545"),
        ("{% macro m(@) %}{{ @ }}{% endmacro %}{% call m(s.@) %}{% call m(@ = s.@) %}{% call m(self.s.@) %}", "444"),
        ("{% let @ = s %}{{ @.@ }}", "4"),
        ("{% for @ in l %}{{ @.@ }}{% endfor %}", "4"),
        ("{% if s.@ == 4 %}y{% endif %}{% match s.@ %}{% when 4 %}y{% else %}n{% endmatch %}", "yy"),
    ] {
        add(s, &sf, st, w);
    }
    let ms = "pub struct S(pub Vec<i32>); impl S { pub fn #(&self, x: i32) -> i32 { x + 1 } }";
    add("{{ s.@(1) }}{{ self.s.@(2) }}{{ s.0.len() }}", &[("s", "S", "S(vec![])")], ms, "230");
    let en = "pub enum S { A(i32), B(i32), C { #: i32 } }";
    for (i, w) in [("S::A(1)", "1"), ("S::B(2)", "2"), ("S::C { #: 3 }", "3")] {
        add("{% match s %}{% when S::A(@) %}{{ @ }}{% when S::B($) %}{{ $ }}{% when S::C { @ } %}{{ @ }}{% endmatch %}", &[("s", "S", i)], en, w);
        add("{% match s %}{% when S::A with (@) %}{{ @ }}{% when S::B(@) %}{{ @ }}{% when S::C with { @ } %}{{ @ }}{% endmatch %}", &[("s", "S", i)], en, w);
    }
    // Over several files.
    let mut file = |root: &str, want: &str, files: &[(&'static str, &str)]| {
        let mut fs: Vec<(&'static str, String)> = files.iter().map(|(n, x)| (*n, x.to_string())).collect();
        fs.push(("t.txt", root.into()));
        v.push(Pos { src: root.into(), fields: num.to_vec(), prelude: "", want: want.into(), files: fs });
    };
    file("{{ @ }}{% let @ = 1 %}{% include \"i.txt\" %}{{ @ }}", "7[12]1", &[("i.txt", "[{{ @ }}{% let @ = 2 %}{{ @ }}]")]);
    file("{% for @ in [1] %}{% include \"i.txt\" %}{% endfor %}", "[1]", &[("i.txt", "[{{ @ }}]")]);
    file("{% import \"i.txt\" as s %}{% call s::m(1) %}{% call s::m(@) %}{% call s::m(@ = 2) %}", "[1][7][2]", &[("i.txt", "{% macro m(@) %}[{{ @ }}]{% endmacro %}")]);
    file("{% import \"i.txt\" as @ %}{% call @::@(1) %}{% call @::@(@ = @) %}", "[1][7]", &[("i.txt", "{% macro @(@) %}[{{ @ }}]{% endmacro %}")]);
    file("{% extends \"p.txt\" %}{% block @ %}{{ @ }}{% call super() %}{% endblock %}", "<77>", &[("p.txt", "<{% block @ %}{{ @ }}{% endblock @ %}>")]);
    file("{% extends \"p.txt\" %}{% block b %}{{ @ }}{% let @ = 1 %}{{ @ }}{% call super() %}{% endblock %}", "<717>", &[("p.txt", "<{% block b %}{{ @ }}{% endblock %}>")]);
    v
}

fn case(q: &Pos, name: &str, other: &str) -> Case {
    let raw = |n: &str| if STRICT.contains(&n) || RESERVED.contains(&n) { format!("r#{n}") } else { n.to_string() };
    // In Rust code `#` and `%` stand for the names, unless they belong to an attribute or operator.
    let rust = |x: &str| x.replace("#[", "\u{1}[").replace('#', &raw(name)).replace('%', &raw(other)).replace('\u{1}', "#");
    let tpl = |x: &str| x.replace('@', name).replace('$', other);
    let src = tpl(&q.src);
    let mut c = if q.files.is_empty() {
        Case::source(src.clone(), src, "txt")
    } else {
        let fs: Vec<(String, String)> = q.files.iter().map(|(n, x)| (n.to_string(), tpl(x))).collect();
        Case::files(fs.iter().map(|(n, x)| format!("<{n}>{x}")).collect::<String>(), "t.txt", fs)
    };
    c.fields = q.fields.iter().map(|(n, t, _)| (rust(n), t.to_string())).collect();
    c.prelude = rust(q.prelude);
    c.runs = vec![Run { init: q.fields.iter().map(|(_, _, v)| rust(v)).collect(), expect: Expect::Out(q.want.clone()), trace: None, code: None }];
    c
}

/// Whether a target binds the name, for which `writer` is rejected.
fn binds(q: &Pos) -> bool {
    std::iter::once(&q.src).chain(q.files.iter().map(|f| &f.1)).any(|x| {
        x.split("{%").skip(1).any(|x| {
            let x = x.split("%}").next().unwrap().trim();
            let target = match x.split_once(' ') {
                Some(("let" | "set", x)) => x.split('=').next().unwrap(),
                Some(("for", x)) => x.split(" in ").next().unwrap(),
                Some(("when", x)) => x,
                Some(("if", x)) if x.starts_with("let ") => x.split('=').next().unwrap(),
                Some(("else", x)) if x.starts_with("if let ") => x.split('=').next().unwrap(),
                _ => "",
            };
            target.contains('@')
        })
    })
}

/// Whether the position has an attribute of the name.
fn attribute(q: &Pos) -> bool {
    std::iter::once(&q.src).chain(q.files.iter().map(|f| &f.1)).any(|x| x.match_indices("@.").any(|(i, _)| !x[..i].ends_with('.') && !x[i..].starts_with("@..")))
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let all: Vec<&str> = STRICT.iter().chain(RESERVED).chain(WEAK).chain(NEAR).copied().collect();
    let pos: Vec<Pos> = positions().into_iter().filter(|q| !q.want.is_empty()).collect();
    p.add("names", all.len() as u64);
    p.add("positions", pos.len() as u64);
    for edition in ["2021", "2024"] {
        set_edition(edition);
        let mut cases = vec![];
        for (a, name) in all.iter().enumerate() {
            for (k, q) in pos.iter().enumerate() {
                // What follows `loop.` is about the loop.
                if *name == "loop" && attribute(q) {
                    continue;
                }
                let others: Vec<usize> = if !q.src.contains('$') && !q.fields.iter().any(|f| f.0 == "%") {
                    vec![0]
                } else if deep {
                    (0..STRICT.len() + RESERVED.len() + WEAK.len() + 2).filter(|b| *b != a).collect()
                } else {
                    // An ordinary name, and a different keyword each time.
                    let kw = STRICT.len() + RESERVED.len();
                    let b = (a * 7 + k * 5 + 3) % kw;
                    vec![kw + WEAK.len(), if b == a { (b + 1) % kw } else { b }]
                };
                // The other edition differs in a few names only.
                if edition == "2024" && !deep && *name != "gen" && (a + k) % 8 != 0 {
                    continue;
                }
                for b in others {
                    if b != a || !q.src.contains('$') {
                        // A state is a template with names filled in, a transition one name taking its place.
                        p.add("states", 1);
                        p.add("transitions", std::iter::once(&q.src).chain(q.files.iter().map(|f| &f.1)).map(|x| x.matches(['@', '$']).count() as u64).sum());
                        cases.push(case(q, name, all[b]));
                    }
                }
            }
        }
        // A name of the generated code itself.
        for q in pos.iter().filter(|q| !binds(q)) {
            p.add("states", 1);
            p.add("transitions", 1);
            cases.push(case(q, "writer", "ordinary"));
        }
        check(&mut p, &format!("names-{edition}"), &cases, 150);
    }
    p.finish();
}
