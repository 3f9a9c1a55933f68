//! C04: template text, raw blocks and comments: nothing lost, added or reordered.
use vkit::contexts::*;
use vkit::e2e::*;
use vkit::filters::USER_FILTERS;
use vkit::model::*;
use vkit::part::*;

const TOK: &[&str] = &[
    "{", "}", "\"", "\\", "'", "%", "#", "%}", "}}", "#}", "{}", "{0}", "{:?}", "{x}", "\n", "\r\n", "\r", "é", "🦀", "\"#", "r#\"", "\u{1}", "$x", "//", "/*",
    "\\n", "\\u{41}", " ", "\t", "a", "<&>", "\u{a0}", "\u{feff}", "-", "-%}", "\u{2028}", "{ {", "\0", "endraw", "!",
];
/// Characters for longer sequences.
const FEW: &[&str] = &["{", "}", "\"", "\\", "%", "#", "\n", "a", " ", "é"];

fn seqs(tok: &[&str], n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..n {
        v = v.iter().flat_map(|x| tok.iter().map(move |t| format!("{x}{t}"))).collect();
    }
    v
}

/// The text contains no opening delimiter, and none begins in it when a tag follows.
fn is_text(x: &str, tag_follows: bool) -> bool {
    !["{{", "{%", "{#"].iter().any(|d| x.contains(d)) && !(tag_follows && x.ends_with('{'))
}

/// The comment text closes exactly at its end.
fn is_comment(x: &str) -> bool {
    let full = format!("{x}#}}");
    if full.starts_with(['-', '+', '~']) || x.ends_with(['-', '+', '~']) {
        return false;
    }
    let mut depth = 0;
    let mut k = 0;
    while k < full.len() {
        let r = &full[k..];
        if r.starts_with("{#") {
            depth += 1;
            k += 2;
        } else if r.starts_with("#}") {
            if depth == 0 {
                return k + 2 == full.len();
            }
            depth -= 1;
            k += 2;
        } else {
            k += r.chars().next().unwrap().len_utf8();
        }
    }
    false
}

/// No end tag of a raw block inside the text.
fn is_raw(x: &str) -> bool {
    let full = format!("{x}{{% endraw %}}");
    for (k, _) in full.match_indices("{%") {
        let r = full[k + 2..].trim_start_matches(['-', '+', '~']).trim_start();
        if let Some(r) = r.strip_prefix("endraw") {
            let r = r.trim_start();
            let r = r.strip_prefix(['-', '+', '~']).unwrap_or(r);
            if r.starts_with("%}") {
                return k == x.len();
            }
        }
    }
    false
}

fn model(ns: Vec<N>, html: bool) -> Model {
    let mut m = Model::inline(ns, html);
    m.prelude = USER_FILTERS.into();
    m
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let x = vec![V::Show("\"{v}\"".into(), "{v}".into())];
    let sep = |k: usize| match k % 7 {
        0 => outv("x"),
        1 => N::Comment(" c ".into(), N0),
        2 => out(st("{")),
        3 => N::Raw("{{ r".into(), N0, N0),
        4 => outv("x"),
        5 => let_("z", var("x")),
        _ => out(st("}\\\"")),
    };

    // The whole template is one text, inline and in a file.
    let mut su = Suite::new();
    let mut whole = vec![];
    for n in 0..=if deep { 3 } else { 2 } {
        whole.extend(seqs(TOK, n));
    }
    whole.extend(seqs(FEW, if deep { 5 } else { 3 }));
    whole.retain(|x| is_text(x, false));
    whole.sort();
    whole.dedup();
    for (k, x) in whole.iter().enumerate() {
        let ns = if x.is_empty() { vec![] } else { vec![t(x)] };
        let mut m = model(ns, k % 2 == 0);
        m.on_disk = k % 2 == 1;
        su.add(&m, &[vec![]]);
        if x.ends_with('\n') || x.is_empty() || x == "a" {
            m.on_disk = !m.on_disk;
            su.add(&m, &[vec![]]);
        }
    }
    p.add("whole_templates", whole.len() as u64);
    su.run(&mut p, "c04-whole", 120);

    // Every sequence of tokens between tags.
    let mut su = Suite::new();
    let mut texts = vec![];
    for n in 1..=3 {
        texts.extend(seqs(TOK, n));
    }
    texts.extend(seqs(FEW, if deep { 5 } else { 4 }));
    texts.retain(|x| is_text(x, true));
    texts.sort();
    texts.dedup();
    if !deep {
        // Three tokens: a fixed third of the sequences in the quick tier.
        let mut k = 0;
        texts.retain(|x| {
            k += 1;
            x.chars().count() <= 3 || k % 2 == 0
        });
    }
    p.add("texts_between_tags", texts.len() as u64);
    for (k, c) in texts.chunks(60).enumerate() {
        let mut ns = vec![];
        for (j, x) in c.iter().enumerate() {
            ns.push(t(x));
            ns.push(sep(k + j));
        }
        let m = model(ns, k % 2 == 0).field("x", "&'static str");
        su.add(&m, &[x.clone()]);
    }
    su.run(&mut p, "c04-between", 15);

    // In every construct (text next to every kind of tag), and in pairs of constructs.
    let mut su = Suite::new();
    let mut short: Vec<String> = TOK.iter().map(|x| x.to_string()).collect();
    short.extend(seqs(FEW, 2));
    short.retain(|x| is_text(x, true));
    short.sort();
    short.dedup();
    for o in std::iter::once(0).chain(INNER..INNER + OUTER) {
        for a in 0..INNER {
            for b in 0..INNER {
                if !nests(a, b) || (a == 0 && b != 0) || (!deep && o != 0 && a != 0 && b != 0 && (a + b + o) % 5 != 0) {
                    continue;
                }
                // A rotating first and last text, and a slice of all texts inside.
                let n = short.len();
                let k = a * 29 + b * 7 + o * 3;
                let mut ns = vec![];
                for j in 0..12 {
                    ns.push(t(&short[(k + j * 5) % n]));
                    ns.push(sep(k + j));
                }
                ns.push(t(&short[(k + 61) % n]));
                let ext = if k % 2 == 0 { "html" } else { "txt" };
                let pc = inner(a, 1, inner(b, 2, Piece::body(ns), &["x"], ext), &["x"], ext);
                let m = outer(o, pc, ext).field("x", "&'static str");
                su.add(&m, &[x.clone()]);
            }
        }
    }
    // Every text alone as the body of every construct.
    for c in 0..INNER + OUTER {
        for (k, b) in short.iter().enumerate() {
            if !deep && (k + c) % 4 != 0 && b.trim() == b {
                continue;
            }
            let ext = if k % 2 == 0 { "txt" } else { "html" };
            let pc = Piece::body(vec![t(b)]);
            let m = if c < INNER { outer(0, inner(c, 1, pc, &["x"], ext), ext) } else { outer(c, pc, ext) };
            su.add(&m.field("x", "&'static str"), &[x.clone()]);
        }
    }
    su.run(&mut p, "c04-contexts", 60);

    // Raw blocks.
    let mut su = Suite::new();
    const RAW: &[&str] = &[
        "{{", "}}", "{%", "%}", "{#", "#}", "{{ x }}", "{% if a %}", "{% endif %}", "{# c #}", "\"", "\\", "{% raw %}", "{% endra %}", "endraw", "{% endraws %}", "{", "}", "{}", "\n",
        " ", "é", "%", "-", "{%- ", "{% end raw %}", "a", "{%endraw", "{% endraw }}", "\r\n",
    ];
    let mut raws = vec![];
    for n in 0..=3 {
        raws.extend(seqs(RAW, n));
    }
    raws.retain(|x| is_raw(x));
    raws.sort();
    raws.dedup();
    if !deep {
        let mut k = 0;
        raws.retain(|x| {
            k += 1;
            x.chars().count() <= 8 || k % 3 == 0
        });
    }
    p.add("raw_bodies", raws.len() as u64);
    for (k, c) in raws.chunks(40).enumerate() {
        let mut ns = vec![];
        for (j, x) in c.iter().enumerate() {
            ns.push(N::Raw(x.clone(), N0, N0));
            match (k + j) % 4 {
                0 => {}
                1 => ns.push(t("|")),
                2 => ns.push(outv("x")),
                _ => ns.push(t(" \n")),
            }
        }
        let m = model(ns, k % 2 == 0).field("x", "&'static str");
        su.add(&m, &[x.clone()]);
    }
    for c in 0..INNER + OUTER {
        for (k, b) in raws.iter().enumerate().filter(|(k, b)| b.chars().count() <= 6 && { let m = if deep { 5 } else { 97 }; k % m == c % m }) {
            let ext = if k % 2 == 0 { "txt" } else { "html" };
            let pc = Piece::body(vec![N::Raw(b.clone(), N0, N0), outv("x")]);
            let m = if c < INNER { outer(0, inner(c, 1, pc, &["x"], ext), ext) } else { outer(c, pc, ext) };
            su.add(&m.field("x", "&'static str"), &[x.clone()]);
        }
    }
    su.run(&mut p, "c04-raw", 30);

    // Comments, nested ones included.
    let mut su = Suite::new();
    const COM: &[&str] = &["{#", "#}", "{", "}", "#", "x", "{{ y }}", "{% if %}", "{% endraw %}", "\"", "'", "\n", " ", "-", "%}", "é", "{#-", "-#}", "\\"];
    let mut coms = vec![];
    for n in 1..=if deep { 5 } else { 4 } {
        coms.extend(seqs(if n == 5 { &COM[..12] } else { COM }, n));
    }
    coms.extend(seqs(&["{#", "#}", "#", "{", "}"], 6));
    coms.retain(|x| is_comment(x));
    coms.sort();
    coms.dedup();
    p.add("comments", coms.len() as u64);
    for (k, c) in coms.chunks(100).enumerate() {
        let mut ns = vec![];
        for (j, x) in c.iter().enumerate() {
            ns.push(N::Comment(x.clone(), N0));
            match (k + j) % 4 {
                0 => {}
                1 => ns.push(t("|")),
                2 => ns.push(outv("x")),
                _ => ns.push(t(" \n{}")),
            }
        }
        let m = model(ns, k % 2 == 0).field("x", "&'static str");
        su.add(&m, &[x.clone()]);
    }
    for c in 0..INNER + OUTER {
        for (k, b) in coms.iter().enumerate().filter(|(k, b)| b.chars().count() <= 4 && { let m = if deep { 29 } else { 211 }; k % m == c % m }) {
            let ext = if k % 2 == 0 { "txt" } else { "html" };
            let pc = Piece::body(vec![N::Comment(b.clone(), N0), outv("x"), N::Comment(" ".into(), N0)]);
            let m = if c < INNER { outer(0, inner(c, 1, pc, &["x"], ext), ext) } else { outer(c, pc, ext) };
            su.add(&m.field("x", "&'static str"), &[x.clone()]);
        }
    }
    su.run(&mut p, "c04-comments", 30);

    // Ends of files: only one newline goes, in each file.
    let mut su = Suite::new();
    const END: &[&str] = &["", "\n", "\n\n", " \n", "\n ", "a", "a\n", "a\n\n", "\n\n\n", "a \n\n", "\ta"];
    for e1 in END {
        for e2 in END {
            for k in 0..4 {
                let end = |e: &str| if e.is_empty() { vec![] } else { vec![t(e)] };
                let cat = |mut a: Vec<N>, e: &str| {
                    a.extend(end(e));
                    a
                };
                let fs: Vec<(&str, Vec<N>)> = match k {
                    0 => vec![("t.txt", cat(vec![t("["), N::Include("i.txt".into(), N0)], e1)), ("i.txt", cat(vec![outv("x")], e2))],
                    1 => vec![("t.txt", cat(vec![N::Extends("p.txt".into()), block("b", vec![t("\n")])], e1)), ("p.txt", cat(vec![t("\n"), block("b", vec![])], e2))],
                    2 => vec![
                        ("t.txt", cat(vec![N::Import("i.txt".into(), "s".into(), N0), N::Call(Some("s".into()), "m".into(), vec![], N0)], e1)),
                        ("i.txt", cat(vec![macro_("m", &[], vec![t("m\n")])], e2)),
                    ],
                    _ => vec![("t.txt", cat(vec![N::Include("i.txt".into(), N0), N::Include("i.txt".into(), N0)], e1)), ("i.txt", end(e2))],
                };
                let m = Model::files("t.txt", fs).field("x", "&'static str");
                su.add(&m, &[x.clone()]);
            }
        }
    }
    su.run(&mut p, "c04-ends", 60);
    p.finish();
}
