//! C17: custom delimiters change only the spelling of tags.
#[path = "../common.rs"]
mod common;
#[path = "../tokens.rs"]
mod tokens;
use common::*;
use std::path::PathBuf;
use std::time::Duration;

const KEYS: [&str; 6] = ["block_start", "block_end", "expr_start", "expr_end", "comment_start", "comment_end"];
type Set = [&'static str; 6];
const DEFAULT: Set = ["{%", "%}", "{{", "}}", "{#", "#}"];
/// Stand for the delimiters in the corpus.
const MARK: [char; 6] = ['\u{1}', '\u{2}', '\u{3}', '\u{4}', '\u{5}', '\u{6}'];

const POOL: [&str; 108] = [
    "{%", "%}", "{{", "}}", "{#", "#}", "<%", "%>", "<#", "#>", "<{", "}>", "[[", "]]", "((", "))", "@@", "$$", "%%", "##", "**", "//", "/*", "*/", "<!--", "-->", "--", "++", "~~", "-%}", "+%}", "~%}", "{-", "-}", "{+", "~}", "+}", "${",
    "#{", "%{", "^^", "??", "!!", "!}", "?}", "?>", "<?", ".}", "..}", "|}", "||", "|]", "&&", "&}", "==", "=}", "=>", "<=", ">=", "<<", ">>", "..", "..=", "...", "!=", "\\begin{", "BEGIN", "END", "ZZ", "Z1", "1Z", "_{", "}_", "é€", "«", "»", "«»", "»«",
    "::", ":}", ",}", ")}", "]}", "{(", "'}", "\"}", "}\"", "''", "\"\"", "=-", " %", "a b", "\t\t", "\u{a0}Z", "Z\n", "", "%", "{", "\u{2028}%", "{%%", "%%}", "{{{", "}}}", "{{%", "%}}", "\u{1F600}", "->", "<-",
];

const OPS: [&str; 10] = ["||", "&&", "==", "!=", ">=", "<=", "<<", ">>", "..", "..="];

fn rejected(s: &Set) -> bool {
    let starts = [s[0], s[2], s[4]];
    [s[1], s[3]].iter().any(|d| d.starts_with(['-', '+', '~', '?', '.', '(', '['])) || s.iter().any(|d| d.len() < 2 || d.chars().any(char::is_whitespace) || OPS.contains(d)) || (0..3).any(|i| (0..3).any(|j| i != j && starts[i].starts_with(starts[j])))
}

/// A single character of several bytes is neither known to be accepted nor to be rejected.
fn unclear(s: &Set) -> bool {
    s.iter().any(|d| d.chars().count() == 1 && d.len() > 1)
}

fn spell(t: &str, s: &Set) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match MARK.iter().position(|m| *m == c) {
            Some(k) => o.push_str(s[k]),
            None => o.push(c),
        }
    }
    o
}

fn word(c: char) -> bool {
    c == '_' || c.is_alphanumeric() || !c.is_ascii()
}

/// Is every delimiter the only reading of its place?
fn apart(t: &str, s: &Set) -> bool {
    let cs: Vec<char> = t.chars().collect();
    // What can begin an operand, or continue an expression, is no end after an operator.
    let operand = |d: &str| d.starts_with(|c| word(c) || ['"', '\'', '!'].contains(&c));
    let continues = |d: &str| d.starts_with("::") || d.starts_with("<-") || d.starts_with("<!");
    if continues(s[1]) || continues(s[3]) || (s[1].starts_with('{') && (t.contains("when") || t.contains("let"))) {
        return false;
    }
    // An operator and an operand.
    let operation = |d: &str| d.starts_with(['%', '*', '/', '&', '|', '^', '<', '>', '=']) && d[1..].starts_with(word);
    if operation(s[1]) || operation(s[3]) {
        return false;
    }
    // The start of a comment contains its end.
    if s[4] != s[5] && s[4].contains(s[5]) && (t.matches(MARK[4]).count() > 1 || t.contains(['-', '+', '~'])) {
        return false;
    }
    // Such comments cannot be nested.
    let open = |t: &str| t.match_indices(MARK[4]).any(|(i, _)| t[i + 1..].find(MARK[4]).is_some_and(|k| k < t[i + 1..].find(MARK[5]).unwrap_or(0)));
    if s[5].starts_with(s[4]) && open(t) {
        return false;
    }
    (0..cs.len()).all(|i| {
        let Some(k) = MARK.iter().position(|m| *m == cs[i]) else { return true };
        let before: String = cs[..i].iter().collect();
        if k % 2 == 0 {
            return !(i + 1 < cs.len() && word(cs[i + 1]) && s[k].ends_with(word));
        }
        if s[k].starts_with(word) && before.ends_with(word) {
            return false;
        }
        if k == 5 {
            // `+++` ends with the first `++`.
            return !before.ends_with(['-', '+', '~']) || !format!("{}{}", &before[before.len() - 1..], s[k]).starts_with(s[k]);
        }
        let b = before.trim_end();
        // The name at the end of a block or macro may be left out.
        if s[k].starts_with(word) && (b.ends_with("endblock") || b.ends_with("endmacro")) {
            return false;
        }
        if s[k].starts_with('=') && b.ends_with("..") {
            return false;
        }
        !operand(s[k]) || !(before.ends_with(['-', '+']) || before.trim_end().ends_with(".."))
    })
}

/// From the default spelling.
fn marked(t: &str) -> String {
    let mut t = t.to_string();
    for (k, d) in DEFAULT.iter().enumerate() {
        t = t.replace(d, &MARK[k].to_string());
    }
    t
}

fn corpus() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |t: &str| v.push(marked(t));
    // Every node kind, with every marker and without spaces.
    let nodes = [
        "{{X a X}}", "{%X let b = a X%}", "{%X set b = 1 X%}", "{%X let b X%}{%X let b = 2 X%}{{ b }}", "{%X if a == 1 X%}y{%X else if a > 2 X%}z{%X else X%}w{%X endif X%}", "{%X if let Some(c) = o X%}{{ c }}{%X endif X%}", "{%X for i in v X%}{{ i }}{%X else X%}n{%X endfor X%}",
        "{%X for i in v if a == 1 X%}{%X if loop.first X%}{%X continue X%}{%X else X%}{%X break X%}{%X endif X%}{%X endfor X%}", "{%X match o X%}{%X when Some with (c) X%}{{ c }}{%X when None X%}n{%X endmatch X%}", "{%X match a X%}{%X when 1 X%}{# c #}y{%X else X%}n{%X endmatch X%}",
        "{%X block k X%}y{%X endblock X%}", "{%X block k X%}y{%X endblock k X%}", "{%X macro m(p, q) X%}{{ p }}{{ q }}{%X endmacro X%}{%X call m(1, a) X%}{%X call m(q=2, p=s) X%}", "{%X macro m() X%}y{%X endmacro m X%}{%X call m() X%}", "{%X filter upper X%}y{{ a }}{%X endfilter X%}",
        "{%X filter lower|upper X%}y{%X endfilter X%}", "{%X raw X%}y z{%X endraw X%}", "{#X y z X#}", "y{#X c X#}{#X d X#}z", "{#X y {# z #} w X#}", " {%X raw X%} y {%X endraw X%} ", "{%X call n() X%}", "{%X block k X%}{%X call super() X%}{%X endblock X%}",
    ];
    for n in nodes {
        for x in ["", "-", "+", "~"] {
            for around in ["#", "y#z", " # ", "\n#\n"] {
                let t = around.replace('#', &n.replace('X', x));
                add(&t);
            }
        }
        // Without a space between the tag's content and its delimiters.
        let tight = n.replace(" X%}", "%}").replace("%X ", "%").replace(" X}}", "}}").replace("{{X ", "{{").replace('X', "");
        add(&tight);
    }
    // Every expression.
    let mut exprs: Vec<String> = [
        "a", "s", "1", "-1", "!a", "-a", "1.5", "0", "\"s\"", "\"a b\"", "'c'", "true", "(a)", "(a, 1)", "(a,)", "[a]", "[1, 2]", "[]", "()", "a.b", "a.0", "a.b.c", "a[0]", "a[b]", "f(a)", "f()", "a.f()", "f(a, b)", "f(f(a))", "a?", "f(a)?", "a.b?", "a|upper", "s|upper|lower", "s|truncate(2)",
        "s|join(\", \")", "a::b", "a::b()", "A::<u8>::b()", "a..b", "..", "a..", "..b", "a..=b", "self.a", "loop", "format!(a)", "m!()", "m!(a, b)", "Some(a)", "a + b", "(a + b) * c", "a.b + c.d", "!(a == b)", "a && b || c", "a as b", "\"}\"", "\"%\"", "\"-\"", "a.await", "crate::a", "a.f(b).c[d]?",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    for op in ["+", "-", "*", "/", "%", "|", "&", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "..", "..="] {
        exprs.push(format!("a {op} b"));
        exprs.push(format!("a{op}b"));
        exprs.push(format!("a {op} -1"));
        exprs.push(format!("a {op} \"s\""));
        exprs.push(format!("1 {op} (b)"));
    }
    for e in &exprs {
        for t in ["{{ # }}", "{{#}}", "y{{- # -}}z", "{{ #\n}}", "{% if # %}y{% endif %}", "{% let b = # %}", "{%let b=#%}", "{% for i in # %}{% endfor %}", "{% call m(#) %}{% macro m(p) %}{{ p }}{% endmacro %}", "{% match # %}{% when 1 %}{% endmatch %}", "{%- if #-%}y{%endif%}"] {
            add(&t.replace('#', e));
        }
    }
    for pt in ["b", "_", "1", "\"s\"", "'c'", "true", "-1", "A", "A(b)", "A with (b)", "A { b }", "A with { b }", "(b, c)", "A::B", "A::B(c)", "(b, (c, d))", "A { b: c }", "A { b, .. }"] {
        for t in ["{% match a %}{% when # %}y{% endmatch %}", "{% match a %}{%-when #-%}y{% endmatch %}", "{% let # = a %}", "{%let #=a%}", "{% if let # = a %}y{% endif %}", "{% for # in a %}{% endfor %}"] {
            add(&t.replace('#', pt));
        }
    }
    // Combinations of whole tags.
    let tags: Vec<&str> = tokens::TAGS.to_vec();
    for a in &tags {
        for b in &tags {
            add(&format!("{a}{b}"));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn root() -> PathBuf {
    if PathBuf::from("/dev/shm").is_dir() && std::fs::create_dir_all("/dev/shm/vk-c17").is_ok() {
        return PathBuf::from("/dev/shm/vk-c17");
    }
    PathBuf::from(std::env::var("VK_OUT").unwrap()).join("c17")
}

fn config(s: &Set, default: bool, keys: bool) -> String {
    let mut c = String::new();
    if default {
        c.push_str("[general]\ndefault_syntax = \"k\"\n");
    }
    c.push_str("[[syntax]]\nname = \"k\"\n");
    for (k, d) in KEYS.iter().zip(s) {
        // Keys that have their default value may be left out.
        if keys || !DEFAULT.contains(d) || DEFAULT[KEYS.iter().position(|x| x == k).unwrap()] != *d {
            // A literal string unless that is impossible; escapes are not supported.
            let q = if d.contains(['\'', '\n']) { '"' } else { '\'' };
            c.push_str(&format!("{k} = {q}{d}{q}\n"));
        }
    }
    c
}

fn sets() -> Vec<Set> {
    let mut v: Vec<Set> = vec![DEFAULT];
    for k in 0..6 {
        for d in POOL {
            let mut s = DEFAULT;
            s[k] = d;
            v.push(s);
        }
    }
    // Pairs.
    let small = ["{%", "{{", "{#", "%}", "}}", "#}", "<%", "%>", "<!--", "-->", "${", "}", "%%", "##", "//", "((", "))", "Z1", "Z2", "«»", "|}", "~%}", "{%-", "%{", "%{%", "]]"];
    for a in 0..6 {
        for b in 0..a {
            for x in small {
                for y in small {
                    let mut s = DEFAULT;
                    s[a] = x;
                    s[b] = y;
                    v.push(s);
                }
            }
        }
    }
    // Starts and ends of one family.
    let starts = ["<%", "<#", "<{", "<!", "<?", "<-", "<", "<%%", "<!--", "%%", "Z1"];
    for a in starts {
        for b in starts {
            for c in starts {
                v.push([a, "%>", b, "}>", c, "#>"]);
            }
        }
    }
    let ends = ["%}", "}}", "#}", "%>", "-->", "]]", "END", "$$", "%%"];
    for a in ends {
        for b in ends {
            for c in ends {
                v.push(["{%", a, "{{", b, "{#", c]);
            }
        }
    }
    for x in [
        ["<%", "%>", "<%=", "%>", "<%#", "%>"], ["<%", "%>", "<=", "=>", "<#", "#>"], ["%%", "%%", "$$", "$$", "##", "##"], ["((*", "*))", "(((", ")))", "((=", "=))"], ["\\BLOCK{", "}}", "\\VAR{", "}}", "\\#{", "}}"], ["<!--%", "%-->", "<!--$", "$-->", "<!--#", "#-->"], ["{!", "!}", "{:", ":}", "{*", "*}"],
        ["{<", ">}", "{=", "=}", "{/", "/}"], ["~{", "}~", "+{", "}+", "-{", "}-"], ["{{", "}}", "{%", "%}", "{#", "#}"], ["{#", "#}", "{{", "}}", "{%", "%}"], ["}}", "{{", "%}", "{%", "#}", "{#"], ["%}", "{%", "}}", "{{", "#}", "{#"], ["[%", "%]", "[[", "]]", "[#", "#]"], ["ZA", "ZA", "ZB", "ZB", "ZC", "ZC"],
        ["ZA", "AZ", "ZB", "BZ", "ZC", "CZ"], ["«%", "%»", "««", "»»", "«#", "#»"], ["@{", "}}", "${", "}}", "#{", "}}"], ["<%-", "-%>", "<{-", "-}>", "<#-", "-#>"], ["--", "--", "++", "++", "~~", "~~"], ["{%~", "~%}", "{{+", "+}}", "{#-", "-#}"], ["{%%", "%%}", "{{{", "}}}", "{##", "##}"],
    ] {
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}

fn main() {
    let mut p = Part::from_args();
    let sets = sets();
    // Which sets are accepted.
    let dir = root();
    let write = |s: &Set, default: bool, keys: bool| {
        let d = dir.join(std::process::id().to_string());
        std::fs::create_dir_all(d.join("templates")).unwrap();
        std::fs::write(d.join("c.toml"), config(s, default, keys)).unwrap();
        std::env::set_var("CARGO_MANIFEST_DIR", &d);
    };
    let how = |default: bool| if default { ", config = \"c.toml\"" } else { ", config = \"c.toml\", syntax = \"k\"" };
    let name = |i: usize| format!("delimiters {:?}", sets[i]);
    iso::run(&mut p, "sets", sets.len(), Duration::from_secs(25), |i, log| {
        for (default, keys) in [(false, false), (true, false), (false, true)] {
            write(&sets[i], default, keys);
            log.add("states", 1);
            log.add("transitions", 1);
            let r = derive(&format!("source = \"y\", ext = \"txt\"{}", how(default)), "");
            let want = rejected(&sets[i]);
            match r {
                Out::Panic(m) => log.violation(name(i), format!("panic: {m}")),
                _ if unclear(&sets[i]) => {}
                Out::Code(_) if want => log.violation(name(i), "were accepted"),
                Out::Error(e) if !want => log.violation(name(i), format!("were rejected: {e}")),
                _ => log.add("traces", 1),
            }
        }
    }, name);

    // What templates mean with them.
    let corpus = corpus();
    let ok: Vec<Set> = sets.iter().filter(|s| !rejected(s)).copied().collect();
    p.add("accepted_sets", ok.len() as u64);
    p.add("corpus", corpus.len() as u64);
    let all = thorough();
    iso::run(&mut p, "corpus", corpus.len(), Duration::from_secs(600), |i, log| {
        let t = &corpus[i];
        let fields = "a: i32, s: String, o: Option<i32>, v: Vec<i32>";
        let want = derive(&source(&spell(t, &DEFAULT), "txt"), fields);
        for (k, s) in ok.iter().enumerate() {
            let single = s.iter().zip(DEFAULT).filter(|(a, b)| **a != *b).count() <= 1;
            if !all && (if single { (k + i) % 3 != 0 } else { (k + i) % 23 != 0 }) {
                continue;
            }
            write(s, k % 2 == 0, k % 3 == 0);
            let src = spell(t, s);
            // Names and numbers end at a space.
            if !apart(t, s) {
                continue;
            }
            log.add("states", 1);
            log.add("transitions", 1);
            let got = derive(&format!("{}{}", source(&src, "txt"), how(k % 2 == 0)), fields);
            let key = format!("{src:?} with {s:?}");
            match (&want, &got) {
                (_, Out::Panic(m)) => log.violation(key, format!("panic: {m}")),
                (Out::Code(a), Out::Code(b)) => {
                    log.add("traces", 1);
                    if a != b {
                        log.violation(key, "does not mean the same as with the default delimiters");
                    }
                }
                (Out::Code(_), Out::Error(e)) => log.violation(key, format!("was rejected: {}", short(e, 300))),
                (Out::Error(_), Out::Code(_)) => log.violation(key, "was accepted, but not with the default delimiters"),
                _ => log.add("rejected_in_both", 1),
            }
        }
    }, |i| format!("{:?}", corpus[i]));
    let _ = std::fs::remove_dir_all(root());
    p.finish();
}
