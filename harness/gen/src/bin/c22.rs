//! C22: parse errors point at the offending place.
#[path = "../common.rs"]
mod common;
#[path = "../tokens.rs"]
mod tokens;
use common::*;
use parser::{Ast, ParseError, Syntax};
use std::time::Duration;
use tokens::*;

/// What the parser reports: message, row, column, excerpt.
type Rep = (Option<String>, usize, usize, String);

fn parse(src: &str) -> Option<Result<Rep, String>> {
    match Ast::from_str(src, None, &Syntax::default()) {
        Ok(_) => None,
        Err(ParseError::Incomplete) => Some(Err("parsing incomplete".into())),
        Err(ParseError::Details { message, row, column, source_after, .. }) => Some(Ok((message.map(|m| m.to_string()), row, column, source_after))),
    }
}

/// Byte offset of a row and column, both counted from 0.
fn offset(src: &str, row: usize, col: usize) -> Option<usize> {
    let mut start = 0;
    for _ in 0..row {
        start += src[start..].find('\n')? + 1;
    }
    let line = &src[start..];
    let end = line.find('\n').map_or(line.len(), |e| e + 1);
    let mut idx: Vec<usize> = line[..end].char_indices().map(|(i, _)| i).collect();
    if !line[..end].ends_with('\n') {
        idx.push(end);
    }
    idx.get(col).map(|i| start + i)
}

/// The excerpt of the rest of the source.
fn excerpt(rest: &str) -> String {
    let n = rest.chars().count();
    if n > 40 {
        format!("{:?}...", rest.chars().take(40).collect::<String>())
    } else {
        format!("{rest:?}")
    }
}

/// Checks one report; the offset it designates.
fn place(src: &str, log: &mut Log, key: &str) -> Option<(usize, Rep)> {
    log.add("transitions", 1);
    let r = match catch(|| parse(src)) {
        Err(p) => {
            log.violation(key, format!("panic: {p}"));
            return None;
        }
        Ok(None) => return None,
        Ok(Some(Err(e))) => {
            log.violation(key, format!("no position: {e}"));
            return None;
        }
        Ok(Some(Ok(r))) => r,
    };
    log.add("traces", 1);
    match offset(src, r.1, r.2) {
        None => {
            log.violation(key, format!("template {:?}: row {} column {} is not in the source\nreport: {r:?}", short(src, 300), r.1, r.2));
            None
        }
        Some(o) if excerpt(&src[o..]) != r.3 => {
            log.violation(key, format!("template {:?}: at row {} column {} is {}, but the report says {}", short(src, 300), r.1, r.2, excerpt(&src[o..]), r.3));
            None
        }
        Some(o) => Some((o, r)),
    }
}

fn sequences(p: &mut Part, job: &str, pre: &str, toks: &[&str], sep: &str, post: &str, n: usize) {
    let t = toks.len();
    let make = |i: usize| {
        let d = digits(i, t, n);
        format!("{pre}{}{post}", d.iter().map(|k| toks[*k]).collect::<Vec<_>>().join(sep))
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let src = make(i);
        place(&src, log, &format!("{src:?}"));
    };
    iso::run(p, job, t.pow(n as u32), Duration::from_secs(20), f, |i| format!("{:?}", make(i)));
}

/// Complete templates.
const PREFIX: &[&str] = &[
    "a", "\n", "\r\n", "\r", " ", "\t", "é", "日本\n", "\u{2028}", "\u{85}", "\u{b}", "{{ a }}", "{{ a }}\n", "{# c\nd #}", "{% if a %}\nx{% endif %}", "{% raw %}\n{{{% endraw %}", "{{- a -}} \n ", "{% for a in b %}\r\n{{ a }}\r\n{% endfor %}", "{% let x = \"\né\" %}", "{% match a %}\n{% when b %}c\n{% endmatch %}", "{% macro m() %}\n{% endmacro %}",
];
/// Broken constructs.
const BROKEN: &[&str] = &[
    "{{ a", "{{ }}", "{{ a b }}", "{{ a +", "{{\na\n\n+ }}", "{{ ('a) }}", "{{ 'ab' }}", "{{ '' }}", "{{ \"abc }}", "{{ a|", "{{ a.0. }}", "{{ a[ }}", "{{ f(1, }}", "{{ m!([) }}", "{% if %}", "{% if a %}", "{% if a %}x{% else %}", "{% if a %}\n{{ b c }}\n{% endif %}", "{% endif %}", "{% foo %}", "{% for x in %}", "{% for x y %}", "{% for x in y %}{% break %}",
    "{% break %}", "{% continue %}", "{% match a %}{% endmatch %}", "{% match a %}x{% when b %}{% endmatch %}", "{% match a %}\n{% when %}{% endmatch %}", "{% let %}", "{% let x = %}", "{% let self = 1 %}", "{% block %}", "{% block b %}", "{% block b %}\n{% endblock c %}", "{% block b %}{% endblock", "{% macro m() %}", "{% macro m() %}\n\n{% endmacro n %}", "{% macro super() %}{% endmacro %}", "{% call %}", "{% call m( %}",
    "{% call a::b::c() %}", "{% call m(b=1, 2) %}", "{% filter %}x{% endfilter %}", "{% filter upper %}", "{% raw %}", "{% raw %}\n\n{% endraw", "{% import \"x\" %}", "{% import x as y %}", "{% import \"x\" as %}", "{% include x %}", "{% include \"x %}", "{% extends %}", "{#", "{# a {# b #}", "{# \n\n", "{{ a }", "{% if a }", "{% if a %}{{ b }}\n{{ c d }}{% endif %}", "{{ é ü }}", "{{ a }}\n{% if b %}\n{{ c }}\n{% endfi %}\nlong text that follows after the error and more",
    "{%", "{{", "{% %}", "{%- -%}", "{% if let Some(x = y %}{% endif %}", "{% if let Some(self) = y %}{% endif %}", "{% when a %}", "{% else %}", "{{ a::b:: }}", "{{ a ? b : c }}", "{{ -- }}", "{{ !! }}", "{{ a = b }}", "{{ a[0 }}",
];

fn prefixes(p: &mut Part) {
    let n = PREFIX.len();
    let deep = thorough();
    // Sequences of up to 3 (4) prefixes.
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..if deep { 4 } else { 3 } {
        let mut nl: Vec<Vec<usize>> = vec![];
        for v in &last {
            for k in 0..n {
                let mut w = v.clone();
                w.push(k);
                nl.push(w);
            }
        }
        seqs.extend(nl.iter().cloned());
        last = nl;
    }
    let text = |i: usize| -> String { seqs[i].iter().map(|k| PREFIX[*k]).collect() };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let pre = text(i);
        if parse(&pre).is_some() {
            log.violation(format!("{pre:?}"), "is not accepted");
            return;
        }
        // All of them after short prefixes, some after each of the others.
        for (k, b) in BROKEN.iter().enumerate() {
            if seqs[i].len() > 2 && (i + k) % if deep { 4 } else { 7 } != 0 {
                continue;
            }
            check(&pre, b, log);
        }
    };
    iso::run(p, "prefix", seqs.len(), Duration::from_secs(20), f, |i| format!("{:?}", text(i)));
    // Long prefixes.
    let g = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (k, m) = (i / 6, [10, 41, 100, 255, 256, 1000][i % 6]);
        let pre = PREFIX[k].repeat(m);
        for b in BROKEN {
            check(&pre, b, log);
        }
    };
    iso::run(p, "prefix_long", n * 6, Duration::from_secs(60), g, |i| format!("{:?} repeated", PREFIX[i / 6]));
}

fn check(pre: &str, b: &str, log: &mut Log) {
    let src = format!("{pre}{b}");
    let key = format!("{:?} after {:?}", b, short(pre, 60));
    let Some((o1, r1)) = place(b, log, &key) else {
        if parse(b).is_none() {
            log.violation(&key, "the broken construct is accepted");
        }
        return;
    };
    match place(&src, log, &key) {
        None => {
            if parse(&src).is_none() {
                log.violation(&key, "accepted");
            }
        }
        Some((o2, r2)) => {
            if o2 != pre.len() + o1 || r1.0 != r2.0 || r1.3 != r2.3 {
                log.violation(&key, format!("alone: {r1:?} at byte {o1}\nafter the prefix of {} bytes: {r2:?} at byte {o2}", pre.len()));
            }
        }
    }
}

/// The message of the compile error shows the row counted from 1, for inline templates and files,
/// also for files that are included.
fn messages(p: &mut Part) {
    let dir = std::path::PathBuf::from(std::env::var("VK_OUT").unwrap()).join("c22");
    let pres: Vec<&str> = PREFIX.iter().copied().chain(["", "x\n\nyé", "{{ a }}\n\n\n{{ a }}"]).collect();
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let src = format!("{}{}", pres[i / BROKEN.len()], BROKEN[i % BROKEN.len()]);
        let key = format!("message for {src:?}");
        let Some((_, r)) = place(&src, log, &key) else { return };
        let head = r.0.clone().map_or(String::new(), |m| format!("{m}\n"));
        std::env::set_var("CARGO_MANIFEST_DIR", &dir);
        let want = format!("{head}failed to parse template source at row {}, column {} near:\n{}", r.1 + 1, r.2, r.3);
        match derive(&source(&src, "html"), "a: i32") {
            Out::Error(e) if e == want => {}
            Out::Error(e) => log.violation(&key, format!("inline: expected {want:?}\ngot {e:?}")),
            Out::Code(_) => log.violation(&key, "accepted"),
            Out::Panic(e) => log.violation(&key, e),
        }
        let d = dir.join(format!("p{}", std::process::id()));
        std::fs::create_dir_all(d.join("templates")).unwrap();
        // A template file loses one newline at its end.
        std::fs::write(d.join("templates/bad.html"), format!("{src}\n")).unwrap();
        std::fs::write(d.join("templates/inc.html"), "ok\n{% include \"bad.html\" %}").unwrap();
        std::env::set_var("CARGO_MANIFEST_DIR", &d);
        for t in ["bad.html", "inc.html"] {
            let tail = format!("bad.html:{}:{}\n{}", r.1 + 1, r.2, r.3);
            match derive(&format!("path = {t:?}"), "a: i32") {
                Out::Error(e) if e.starts_with(&format!("{head}failed to parse template source\n  --> ")) && e.ends_with(&tail) => {}
                Out::Error(e) => log.violation(&key, format!("{t}: expected {head:?} ... {tail:?}\ngot {e:?}")),
                Out::Code(_) => log.violation(&key, "accepted"),
                Out::Panic(e) => log.violation(&key, e),
            }
        }
    };
    iso::run(p, "message", pres.len() * BROKEN.len(), Duration::from_secs(20), f, |i| format!("message {i}"));
    let _ = std::fs::remove_dir_all(dir);
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    for n in 1..=if deep { 5 } else { 4 } {
        if n > 4 {
            sequences(&mut p, &format!("raw{n}"), "", RAW, "", "", n);
            continue;
        }
        sequences(&mut p, &format!("expr{n}"), "x\n{{ ", EXPR, " ", " }}", n);
        sequences(&mut p, &format!("tag{n}"), "\n{% ", TAG, " ", " %}\né", n);
        sequences(&mut p, &format!("raw{n}"), "", RAW, "", "", n);
        if n <= 3 {
            sequences(&mut p, &format!("tags{n}"), "\n", TAGS, "\n", "", n);
            sequences(&mut p, &format!("str{n}"), "é{{ '", STR, "", "' }}", n);
            sequences(&mut p, &format!("iftag{n}"), "{% if let Some(", TAG, " ", ") = o %}x{% endif %}", n);
            sequences(&mut p, &format!("match{n}"), "{% match o %}{% when ", TAG, "\n", " %}x{% endmatch %}", n.min(2));
        }
    }
    prefixes(&mut p);
    messages(&mut p);
    p.finish();
}
