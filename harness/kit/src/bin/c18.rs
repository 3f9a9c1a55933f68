//! C18: what a template renders, its extension and media type follow from attributes and configuration.
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;

/// The tags of one syntax.
fn tags(name: &str) -> Syntax {
    let [bs, be, es, ee, cs, ce] = match name {
        "k" => ["<%", "%>", "<{", "}>", "<#", "#>"],
        // Everything but the block start has its default.
        "l" => ["[%", "%}", "{{", "}}", "{#", "#}"],
        _ => ["{%", "%}", "{{", "}}", "{#", "#}"],
    };
    Syntax { bs: bs.into(), be: be.into(), es: es.into(), ee: ee.into(), cs: cs.into(), ce: ce.into() }
}

fn toml_of(name: &str) -> &'static str {
    match name {
        "k" => "[[syntax]]\nname = \"k\"\nblock_start = \"<%\"\nblock_end = \"%>\"\nexpr_start = \"<{\"\nexpr_end = \"}>\"\ncomment_start = \"<#\"\ncomment_end = \"#>\"\n",
        _ => "[[syntax]]\nname = \"l\"\nblock_start = \"[%\"\n",
    }
}

/// What is the same in every syntax, as tags of the active one and text of the others.
fn nodes(active: &str) -> Vec<N> {
    let mut v = vec![t("A \n ")];
    for n in ["default", "k", "l"] {
        let st_ = Style { syntax: tags(n), ..Style::default() };
        let tr = || E::Known("true".into(), V::B(true));
        // Tags with blanks around them; the syntaxes share some of their delimiters.
        let mut one: Vec<Vec<N>> = vec![vec![if_(tr(), vec![t(" \n y "), N::Comment(" c ".into(), N0), t(" \n")])]];
        let shared = n == "l" || active == "l" && n == "default";
        if !shared {
            one.push(vec![outv("x")]);
        }
        for ns in one {
            v.push(t(&format!("\n {} ", n.chars().next().unwrap())));
            if n == active {
                v.extend(ns);
            } else {
                // The text must not contain what the active syntax shares with it.
                let text = st_.nodes(&ns);
                let a = tags(active);
                if [&a.bs, &a.es, &a.cs].iter().all(|d| !text.contains(d.as_str())) {
                    v.push(t(&text));
                } else {
                    v.push(t(&st_.nodes(&[if_(tr(), vec![t("y")])])));
                }
            }
            v.push(t(" \n\n"));
        }
    }
    v.push(outv("x"));
    v.push(t(" \n Z"));
    // The text parts are one.
    let mut o: Vec<N> = vec![];
    for n in v {
        match (o.last_mut(), n) {
            (Some(N::Text(a)), N::Text(b)) => a.push_str(&b),
            (_, n) => o.push(n),
        }
    }
    o
}

fn mime(ext: Option<&str>) -> &'static str {
    match ext {
        Some("html") | Some("htm") => "text/html; charset=utf-8",
        Some("txt") | None => "text/plain; charset=utf-8",
        Some("css") => "text/css; charset=utf-8",
        Some("csv") => "text/csv; charset=utf-8",
        Some("tsv") => "text/tab-separated-values; charset=utf-8",
        Some("svg") => "image/svg+xml",
        Some("xml") => "text/xml",
        Some("json") => "application/json",
        Some("md") => "text/markdown",
        Some("pdf") => "application/pdf",
        Some("png") => "image/png",
        _ => "application/octet-stream",
    }
}

/// The extension of a file name.
fn ext_of(name: &str) -> Option<&str> {
    let base = name.rsplit('/').next().unwrap();
    let split = |n: &str| n.rfind('.').filter(|i| *i > 0);
    let i = split(base)?;
    let e = &base[i + 1..];
    if ["j2", "jinja", "jinja2"].contains(&e) {
        if let Some(j) = split(&base[..i]) {
            return Some(&base[j + 1..i]);
        }
    }
    Some(e)
}

const CODE: &str = "{ use askama::{DynTemplate, Template}; let d: &dyn DynTemplate = &t; if d.extension() != T::EXTENSION || d.mime_type() != T::MIME_TYPE || <&T as Template>::EXTENSION != T::EXTENSION || <&T as Template>::MIME_TYPE != T::MIME_TYPE { return_different() } else { t.render().map(|x| format!(\"{:?} {} {}\", T::EXTENSION, T::MIME_TYPE, x)).map_err(|e| e.to_string()) } }";
const PRE: &str = "fn return_different() -> Result<String, String> { Ok(\"the dynamic constants are different\".into()) }";

/// Lets the case tell extension and media type, too.
fn with_consts(c: &mut Case, ext: Option<&str>, m: &str) {
    c.prelude.push_str(PRE);
    for r in &mut c.runs {
        r.code = Some(CODE.into());
        if let Expect::Out(x) = &r.expect {
            r.expect = Expect::Out(format!("{ext:?} {m} {x}"));
        }
    }
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let inp = vec![vec![s("<b")]];
    let some = |x: &'static str| Some(x);

    // Syntax, whitespace and escaping, from the configuration and from attributes.
    let names = ["html", "txt", "md", "html.j2", "txt.jinja", "star"];
    let escs = [None, some("html"), some("none"), some("star")];
    let synt = [None, some("default"), some("k"), some("l")];
    let wss = [None, some("preserve"), some("suppress"), some("minimize")];
    let mut su = Suite::new();
    let mut n = 0usize;
    for def in synt {
        for at in synt {
            for wc in wss {
                for wa in wss {
                    for (ei, name) in names.iter().enumerate() {
                        for (fi, esc) in escs.iter().enumerate() {
                            n += 1;
                            // Quick: each setting of the escaper with every other by turns.
                            let turn = (synt.iter().position(|x| *x == def).unwrap() * 5 + synt.iter().position(|x| *x == at).unwrap() * 7 + wss.iter().position(|x| *x == wc).unwrap() * 11 + wss.iter().position(|x| *x == wa).unwrap() * 13) % 6;
                            if !deep && ((ei + fi) % 6 != turn) {
                                continue;
                            }
                            for inline in [true, false] {
                                let active = at.or(def).unwrap_or("default");
                                let mut m = Model::inline(nodes(active), false).rooted(name);
                                m.on_disk = !inline;
                                m.style.syntax = tags(active);
                                m.ws = match wa.or(wc).unwrap_or("preserve") {
                                    "preserve" => W::Preserve,
                                    "suppress" => W::Suppress,
                                    _ => W::Minimize,
                                };
                                // The escaper goes by the last extension.
                                let last = name.rsplit('.').next().unwrap();
                                let e: Escaper = match esc.unwrap_or(last) {
                                    "star" => |x| x.replace('<', "(*)").replace('&', "(+)"),
                                    "html" | "j2" | "jinja" => escape_html,
                                    _ => escape_text,
                                };
                                m.esc = Some(e);
                                let mut c = String::new();
                                let general = format!(
                                    "[general]\ndirs = [\"@/\"]\n{}{}",
                                    def.map(|d| format!("default_syntax = {d:?}\n")).unwrap_or_default(),
                                    wc.map(|d| format!("whitespace = {d:?}\n")).unwrap_or_default()
                                );
                                let esc_toml = "[[escaper]]\npath = \"crate::Star\"\nextensions = [\"star\"]\n";
                                // The order of the sections does not matter.
                                let secs: [&str; 4] = [&general, toml_of("k"), toml_of("l"), esc_toml];
                                for k in 0..4 {
                                    c.push_str(secs[(k * if n % 2 == 0 { 1 } else { 3 } + n) % 4]);
                                }
                                m.config = Some(c);
                                let mut attrs: Vec<String> = vec![];
                                attrs.extend(at.map(|x| format!(", syntax = {x:?}")));
                                attrs.extend(wa.map(|x| format!(", whitespace = {x:?}")));
                                attrs.extend(esc.map(|x| format!(", escape = {x:?}")));
                                if n % 3 == 0 {
                                    attrs.reverse();
                                }
                                m.attrs = attrs.concat();
                                let m = m.field("x", "&'static str");
                                su.add(&m, &inp);
                                let file = format!("t.{name}");
                                let ext = if inline { *name } else { ext_of(&file).unwrap() };
                                // A compound `ext` is no known type.
                                with_consts(su.cases.last_mut().unwrap(), Some(ext), mime(Some(ext)));
                                let c = su.cases.last_mut().unwrap();
                                c.key = format!("{} {} {}{:?}", if inline { "inline" } else { "file" }, name, c.attrs, general);
                            }
                        }
                    }
                }
            }
        }
    }
    su.run(&mut p, "settings", 150);

    // Extension and media type, from the file name and from `ext`.
    let mut cases = vec![];
    let exts = ["html", "htm", "txt", "css", "csv", "tsv", "svg", "xml", "json", "md", "pdf", "png", "none", "zzz", "j2", "jinja", "jinja2", "HTML"];
    let mut files: Vec<String> = vec!["t".into(), ".t".into(), ".html".into(), "d.html/t".into(), "d.html/t.css".into(), "d.css/t.j2".into(), ".html.j2".into(), ".j2".into(), "é.txt".into(), "t..html".into(), "t.html.j2.j2".into(), "t.j2.jinja.jinja2".into(), "t.j2.html".into()];
    for e in exts {
        files.push(format!("t.{e}"));
        for j in ["j2", "jinja", "jinja2"] {
            files.push(format!("t.{e}.{j}"));
        }
        files.push(format!("t.html.{e}"));
        files.push(format!("t.{e}.txt"));
    }
    files.sort();
    files.dedup();
    for f in &files {
        let mut at: Vec<Option<&str>> = vec![None];
        at.extend(exts.iter().copied().map(Some));
        at.push(Some("html.j2"));
        for (k, e) in at.iter().enumerate() {
            if !deep && e.is_some() && (k + f.len()) % 4 != 0 {
                continue;
            }
            let ext = e.or(ext_of(f));
            let mut c = Case::files(format!("{f} ext {e:?}"), f, vec![(f.clone(), "{{ 1 }}".into())]).out("1");
            c.attrs = ", escape = \"none\"".into();
            if let Some(e) = e {
                c.attrs.push_str(&format!(", ext = {e:?}"));
            }
            with_consts(&mut c, ext, mime_of(ext));
            cases.push(c);
        }
    }
    for e in exts.iter().chain(["", "html.j2", "tar.gz"].iter()) {
        let mut c = Case::source(format!("inline ext {e:?}"), "{{ 1 }}", *e).out("1");
        c.attrs = ", escape = \"none\"".into();
        with_consts(&mut c, Some(e), mime_of(Some(e)));
        cases.push(c);
    }
    check(&mut p, "types", &cases, 150);

    // The directories are searched in the order of the configuration.
    let mut cases = vec![];
    let dirs = ["d0", "d1", "d0/sub"];
    let mut orders: Vec<Vec<usize>> = vec![];
    for a in 0..3 {
        orders.push(vec![a]);
        for b in 0..3 {
            orders.push(vec![a, b]);
            for c in 0..3 {
                orders.push(vec![a, b, c]);
            }
        }
    }
    for order in &orders {
        for (pi, path) in ["x.txt", "sub/x.txt", "s/x.txt", "./x.txt", "s/../x.txt"].iter().enumerate() {
            // Where the file may be.
            let plain = path.trim_start_matches("./").replace("s/../", "");
            let all: Vec<String> = dirs.iter().map(|d| format!("{d}/{plain}")).collect();
            for sub in 1..8usize {
                let present: Vec<&String> = (0..3).filter(|k| sub >> k & 1 == 1).map(|k| &all[k]).collect();
                let found = order.iter().map(|k| &all[*k]).find(|f| present.contains(f));
                let Some(found) = found else { continue };
                let mut files: Vec<(String, String)> = present.iter().map(|f| (f.to_string(), format!("[{f}]"))).collect();
                // The directories exist, even if there is nothing to find.
                for d in dirs {
                    files.push((format!("{d}/s/keep.txt"), String::new()));
                    files.push((format!("{d}/sub/keep.txt"), String::new()));
                }
                files.push(("x.txt".into(), "no".into()));
                let mut c = Case::files(format!("{path} in {:?} of {present:?}", order.iter().map(|k| dirs[*k]).collect::<Vec<_>>()), path, files).out(&format!("[{found}]"));
                let mut ds: Vec<String> = order.iter().map(|k| format!("\"@/{}{}\"", dirs[*k], ["", "/"][(pi + sub) % 2])).collect();
                // A directory that does not exist does no harm.
                if sub % 3 == 0 {
                    ds.insert(0, "\"@/none\"".into());
                }
                c.config = Some(format!("[general]\ndirs = [{}]\n", ds.join(", ")));
                cases.push(c);
            }
        }
    }
    check(&mut p, "directories", &cases, 150);
    p.finish();
}

fn mime_of(e: Option<&str>) -> &'static str {
    match e {
        // The type does not depend on the case.
        Some("HTML") => mime(Some("html")),
        e => mime(e),
    }
}
