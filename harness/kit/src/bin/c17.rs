//! C17: templates spelled with custom delimiters, next to text that looks like delimiters.
use std::collections::BTreeSet;
use vkit::contexts::*;
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;

type Set = [&'static str; 6];

const SETS: [Set; 22] = [
    ["{%", "%}", "{{", "}}", "{#", "#}"],
    ["<%", "%>", "${", "}$", "<#", "#>"],
    ["{!", "!}", "{:", ":}", "{?", "?}"],
    ["%%", "%%", "$$", "$$", "##", "##"],
    ["{%", "%}", "{!", "!}", "{#", "#}"],
    ["[%", "%]", "[[", "]]", "[#", "#]"],
    ["«:", ":»", "«=", "=»", "«#", "#»"],
    ["<!--%", "%-->", "<!--$", "$-->", "<!--#", "#-->"],
    ["BEGIN", "END", "VAR", "RAV", "COM", "MOC"],
    ["{{", "}}", "{%", "%}", "{#", "#}"],
    ["{%%", "%%}", "{{{", "}}}", "{##", "##}"],
    ["((*", "*))", "(((", ")))", "((=", "=))"],
    ["@{", "}}", "${", "}}", "#{", "}}"],
    ["{%", "%}", "{{", "}}", "<!--", "-->"],
    ["{%", "%}", "<%", "%>", "{#", "#}"],
    ["\\B{", "}\\", "\\V{", "}\\", "\\#{", "}\\"],
    ["~{", "}~", "+{", "}+", "-{", "}-"],
    ["%{", "}%", "{{", "}}", "#{", "}#"],
    ["{#", "#}", "{{", "}}", "{%", "%}"],
    ["{-%", "%}", "{-{", "}}", "{-#", "#}"],
    ["<<<", "%>>", "{<", ">}", "<{", "}>"],
    ["ééb", "}é", "éée", "]é", "ééc", "cé"],
];

const KEYS: [&str; 6] = ["block_start", "block_end", "expr_start", "expr_end", "comment_start", "comment_end"];

/// Not allowed by the rules of the language.
fn allowed(s: &Set) -> bool {
    !s.iter().any(|d| ["||", "&&", "==", "!=", ">=", "<=", "<<", ">>", "..", "..="].contains(d))
}

fn config(s: &Set, default: bool) -> String {
    let mut c = String::from("[general]\ndirs = [\"@/\"]\n");
    if default {
        c.push_str("default_syntax = \"k\"\n");
    }
    // Another syntax that is not used.
    c.push_str("[[syntax]]\nname = \"other\"\nblock_start = '<*'\nblock_end = '*>'\n[[syntax]]\nname = \"k\"\n");
    for (k, d) in KEYS.iter().zip(s) {
        c.push_str(&format!("{k} = '{d}'\n"));
    }
    c
}

fn finish(mut m: Model, s: &Set, v: usize) -> Model {
    m.style.syntax = Syntax { bs: s[0].into(), be: s[1].into(), es: s[2].into(), ee: s[3].into(), cs: s[4].into(), ce: s[5].into() };
    match v % 3 {
        0 => m.config = Some(config(s, true)),
        1 => {
            m.config = Some(config(s, false));
            m.attrs.push_str(", syntax = \"k\"");
        }
        // The attribute is stronger than the default.
        _ => {
            m.config = Some(config(s, true).replace("default_syntax = \"k\"", "default_syntax = \"other\""));
            m.attrs.push_str(", syntax = \"k\"");
        }
    }
    m
}

/// A start begins in `text + next` no earlier than where the text ends.
fn plain(text: &str, next: &str, s: &Set) -> bool {
    let all = format!("{text}{next}");
    let found = [s[0], s[2], s[4]].iter().filter_map(|d| all.find(d)).min();
    found.unwrap_or(all.len()) >= text.len()
}

/// Text that stays text wherever a tag may follow.
fn text_ok(text: &str, s: &Set) -> bool {
    [s[0], s[2], s[4], "<", "x", "{1"].iter().all(|n| plain(text, n, s))
}

fn raw_ok(text: &str, s: &Set) -> bool {
    // The end of the raw block is where its end tag is for the first time.
    let all = format!("{text}{}", s[0]);
    !text.contains("endraw") && all.find(s[0]) == Some(text.len()) || text.contains("endraw") && !all[..all.len() - 1].contains(s[0])
}

fn comment_ok(text: &str, s: &Set) -> bool {
    let all = format!(" {text} {}", s[5]);
    all.find(s[5]) == Some(text.len() + 2) && !text.contains(s[4]) && !text.ends_with(['-', '+', '~'])
}

/// Texts that look like tags of some kind.
fn texts(s: &Set, deep: bool) -> Vec<String> {
    let mut toks: BTreeSet<String> = ["{%", "%}", "{{", "}}", "{#", "#}", "{", "}", "a"].iter().map(|x| x.to_string()).collect();
    for (k, d) in s.iter().enumerate() {
        if k % 2 == 1 {
            toks.insert(d.to_string());
        }
        for (i, _) in d.char_indices().skip(1) {
            toks.insert(d[..i].to_string());
            if deep {
                toks.insert(d[i..].to_string());
            }
        }
    }
    let toks: Vec<String> = toks.into_iter().collect();
    let mut v: Vec<String> = toks.clone();
    for a in &toks {
        for b in &toks {
            v.push(format!("{a}{b}"));
            v.push(format!("{a} {b}"));
            if deep {
                for c in &toks {
                    v.push(format!("{a}{b}{c}"));
                }
            }
        }
    }
    v.extend(
        ["{{ x }}", "{%if x%}", "{% raw %}{% endraw %}", "{% endraw %}", "{%- endraw -%}", "{# c #}", "{#", "#}{#", "{{{{", "}}}}", "{{}}", "{}", "{0}", "{x}", "\\{{", "{%%}", "{{{%", "é{é", "<%", "<%= x %>", "<!-- x -->"].iter().map(|x| x.to_string()),
    );
    v.sort();
    v.dedup();
    v
}

fn body(k: usize, x: &str, y: &str) -> Vec<N> {
    let tx = || t(x);
    let ty = || t(y);
    let tr = || E::Known("true".into(), V::B(true));
    match k {
        0 => vec![tx(), outv("x"), ty(), out(filt(var("x"), "upper", vec![])), tx()],
        1 => vec![tx(), N::Comment(" c ".into(), N0), ty(), if_(tr(), vec![tx(), outv("x"), ty()]), tx()],
        2 => vec![ty(), let_("n", bin("+", var("y"), int(1))), tx(), outv("n"), for_("i", E::Arr(vec![int(1), int(2)]), vec![ty(), outv("i"), tx()]), ty()],
        3 => vec![outv("x"), N::Raw("r".into(), N0, N0), tx(), N::Match(N0, var("y"), "".into(), vec![(N0, P::Lit(i(7)), vec![tx(), outv("y")]), (N0, pn("__else"), vec![ty()])], N0), ty()],
        // The whole template, and its end.
        4 => vec![tx()],
        5 => vec![outv("x"), tx()],
        _ => vec![tx(), outv("x")],
    }
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let inp = vec![vec![s("<b"), i(7)]];
    let fields = |m: Model| m.field("x", "&'static str").field("y", "i32");
    let sets: Vec<&Set> = SETS.iter().filter(|s| allowed(s)).collect();
    p.add("syntaxes", sets.len() as u64);

    let mut su = Suite::new();
    let mut nt = 0;
    for (a, st_) in sets.iter().enumerate() {
        let all = texts(st_, deep);
        let ok: Vec<&String> = all.iter().filter(|x| text_ok(x, st_)).collect();
        nt += ok.len() as u64;
        for (b, x) in ok.iter().enumerate() {
            // Two texts per template.
            let y = ok[(b * 7 + 3) % ok.len()];
            for k in 0..7 {
                if !deep && (a + b + k) % 7 != 0 && !(x.contains(['{', '}']) && x.chars().count() <= 2 && k < 4 && (a + b + k) % 2 == 0) {
                    continue;
                }
                let m = fields(Model::inline(body(k, x, y), b % 2 == 0));
                su.add(&finish(m, st_, a + b + k), &inp);
            }
        }
        // Inside of raw blocks, comments and strings.
        for (b, x) in all.iter().enumerate() {
            if !deep && (a + b) % 3 != 0 && !x.contains("raw") {
                continue;
            }
            let mut ns = vec![];
            if raw_ok(x, st_) {
                ns.extend([N::Raw(x.to_string(), N0, N0), outv("x")]);
            }
            if comment_ok(x, st_) {
                ns.extend([N::Comment(format!(" {x} "), N0), outv("y")]);
            }
            if !x.contains('\\') {
                ns.extend([out(st(x)), t("."), out(filt(st(x), "upper", vec![]))]);
            }
            let m = fields(Model::inline(ns, b % 2 == 1));
            su.add(&finish(m, st_, a + b), &inp);
        }
    }
    p.add("texts", nt);
    su.run(&mut p, "texts", 150);

    // Every construct with every syntax.
    let mut su = Suite::new();
    for (a, st_) in sets.iter().enumerate() {
        let pool: Vec<&str> = ["{{ x }}", "{% if x %}", "{# c #}", "<%= x %>", "[[x]]", "{", "%}", "<!-- x", "é {", "${x", "}}", "END", "\\V"].into_iter().filter(|x| text_ok(x, st_)).collect();
        for k in 0..INNER {
            for j in 0..INNER {
                // The text `(` would begin the delimiter too early.
                if (k == 7 || j == 7) && st_[0].starts_with('(') || j != 0 && (k == 0 || !nests(k, j) || !deep && (a + k + j) % 11 != 0) {
                    continue;
                }
                for o in std::iter::once(0).chain(INNER..INNER + OUTER) {
                    if o != 0 && !deep && (j != 0 || (a + k + o) % 5 != 0) {
                        continue;
                    }
                    let (x, y) = (pool[(k + o) % pool.len()], pool[(k * 3 + j + 1) % pool.len()]);
                    let mut pc = Piece::body(body((k + j + o) % 4, x, y));
                    if j != 0 {
                        pc = inner(j, 2, pc, &["x", "y"], "html");
                    }
                    if k != 0 {
                        pc = inner(k, 1, pc, &["x", "y"], "html");
                    }
                    let mut m = fields(outer(o, pc, "html"));
                    // An end that is a word needs a name before it.
                    m.style.named_end = (k + o) % 2 == 0 || st_[1].starts_with(char::is_alphabetic);
                    su.add(&finish(m, st_, a + k + j + o), &inp);
                }
            }
        }
    }
    su.run(&mut p, "constructs", 60);
    p.finish();
}
