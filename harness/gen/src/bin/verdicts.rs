//! Which templates, layouts, attributes and configurations are accepted, and which are rejected
//! with an error: C10, C12, C13 and C18 (the property is the argument).
#[path = "../common.rs"]
mod common;
use common::*;
use std::path::PathBuf;
use std::time::Duration;
use vkit::resolve::Tree;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Code,
    Error,
}
use Want::*;

struct Item {
    name: String,
    attrs: String,
    fields: String,
    files: Vec<(String, String)>,
    want: Want,
    /// Further attributes before or after `#[template(...)]`, the item itself.
    whole: Option<String>,
}

fn item(name: impl Into<String>, attrs: impl Into<String>, files: &[(&str, &str)], want: Want) -> Item {
    Item { name: name.into(), attrs: attrs.into(), fields: "a: i32".into(), files: files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), want, whole: None }
}

fn root() -> PathBuf {
    if PathBuf::from("/dev/shm").is_dir() && std::fs::create_dir_all("/dev/shm/vk-verdicts").is_ok() {
        return PathBuf::from("/dev/shm/vk-verdicts");
    }
    PathBuf::from(std::env::var("VK_OUT").unwrap()).join("verdicts")
}

fn base() -> PathBuf {
    root().join(std::process::id().to_string())
}

fn judge(it: &Item, log: &mut Log) {
    log.add("states", 1);
    log.add(if it.want == Code { "expected_code" } else { "expected_error" }, 1);
    let dir = base();
    std::fs::create_dir_all(&dir).unwrap();
    for (p, t) in &it.files {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    std::env::set_var("CARGO_MANIFEST_DIR", &dir);
    log.add("transitions", 1);
    let o = match &it.whole {
        Some(w) => derive_ts(w.parse().expect("harness: item")),
        None => derive(&it.attrs, &it.fields),
    };
    log.add("traces", 1);
    match (&o, it.want) {
        (Out::Panic(p), _) => log.violation(&it.name, format!("panic: {p}")),
        (Out::Code(_), Error) => log.violation(&it.name, "was accepted"),
        (Out::Error(e), Code) => log.violation(&it.name, format!("was rejected: {}", short(e, 400))),
        (Out::Error(e), Error) if e.trim().is_empty() => log.violation(&it.name, "error without a message"),
        (Out::Error(_), Error) => {}
        (Out::Code(c), Code) => {
            if let Err(e) = valid(c) {
                log.violation(&it.name, format!("the generated code is not valid Rust: {e}"));
            }
        }
    }
    if !it.files.is_empty() {
        std::fs::remove_dir_all(&dir).unwrap();
    }
}

/// Runs the items that `make` builds.
fn run(p: &mut Part, job: &str, n: usize, make: impl Fn(usize) -> Item + Sync) {
    iso::run(p, job, n, Duration::from_secs(25), |i, log| judge(&make(i), log), |i| make(i).name);
}

fn list(p: &mut Part, job: &str, items: Vec<Item>) {
    iso::run(p, job, items.len(), Duration::from_secs(25), |i, log| judge(&items[i], log), |i| items[i].name.clone());
}

/// All sequences over `n` letters of length `0..=k`.
fn seqs(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    let mut from = 0;
    for _ in 0..k {
        let to = r.len();
        for i in from..to {
            for c in 0..n {
                let mut v: Vec<usize> = r[i].clone();
                v.push(c);
                r.push(v);
            }
        }
        from = to;
    }
    r
}

// --- C10

fn c10(p: &mut Part) {
    let max = if thorough() { 4 } else { 3 };
    let place = |k: usize, def: &str, call: &str| -> (Vec<(&'static str, String)>, &'static str) {
        match k {
            0 => (vec![("templates/t.txt", format!("{def}{call}"))], "own, defined before"),
            1 => (vec![("templates/t.txt", format!("{call}{def}"))], "own, defined after"),
            2 => (vec![("templates/t.txt", format!("{{% import \"m.txt\" as s %}}{}", call.replace("call m", "call s::m"))), ("templates/m.txt", def.to_string())], "imported"),
            3 => (vec![("templates/t.txt", format!("{def}{{% macro o(q) %}}{call}{{% endmacro %}}{{% call o(1) %}}"))], "from another macro"),
            4 => (vec![("templates/t.txt", format!("{def}{{% for i in 0..2 %}}{{% if a == 1 %}}{call}{{% endif %}}{{% endfor %}}"))], "in a loop"),
            5 => (vec![("templates/t.txt", "{% import \"i.txt\" as s %}{% call s::o() %}".into()), ("templates/i.txt", format!("{def}{{% macro o() %}}{call}{{% endmacro %}}"))], "from an imported macro"),
            6 => (vec![("templates/t.txt", format!("{{% extends \"b.txt\" %}}{def}{{% block b %}}{call}{{% endblock %}}")), ("templates/b.txt", "{% block b %}{% endblock %}".into())], "in a block of a child"),
            7 => (vec![("templates/t.txt", "{% include \"i.txt\" %}".into()), ("templates/i.txt", format!("{def}{call}"))], "in an included template"),
            8 => (vec![("templates/t.txt", format!("{def}{{% include \"i.txt\" %}}")), ("templates/i.txt", call.to_string())], "in an included template, defined by the includer"),
            _ => (vec![("templates/t.txt", format!("{def}{{% filter upper %}}{call}{{% endfilter %}}"))], "in a filter block"),
        }
    };
    const PLACES: usize = 10;
    let full = |name: String, k: usize, def: &str, call: &str, want: Want| {
        let (fs, pl) = place(k, def, call);
        Item { name: format!("{name} ({pl})"), attrs: "path = \"t.txt\"".into(), fields: "a: i32".into(), files: fs.into_iter().map(|(a, b)| (a.to_string(), b)).collect(), want, whole: None }
    };
    // Arguments: 0 positional, 1.. named after parameter i-1, the last one names no parameter.
    let mut calls = vec![];
    for n in 0..=max {
        for s in seqs(n + 2, n + 2) {
            if s.len() == n + 2 && n == 4 {
                continue;
            }
            calls.push((n, s));
        }
    }
    let names = ["x", "y", "z", "w"];
    run(p, "arguments", calls.len() * 3, |i| {
        let (n, s) = &calls[i / 3];
        let def = format!("{{% macro m({}) %}}-{}{{% endmacro %}}", names[..*n].join(", "), names[..*n].iter().map(|x| format!("{{{{ {x} }}}}")).collect::<String>());
        let args: Vec<String> = s
            .iter()
            .enumerate()
            .map(|(k, c)| {
                let v = ["1", "a", "a + 1", "\"s\"", "[a]", "(a)"][(k + i) % 6];
                match *c {
                    0 => v.to_string(),
                    c if c <= *n => format!("{} = {v}", names[c - 1]),
                    _ => format!("unknown = {v}"),
                }
            })
            .collect();
        let pos = s.iter().take_while(|c| **c == 0).count();
        let named = &s[pos..];
        let ok = s.len() == *n && named.iter().all(|c| *c > pos && *c <= *n) && (0..named.len()).all(|k| !named[..k].contains(&named[k]));
        let call = format!("{{% call m({}) %}}", args.join(", "));
        full(format!("{def}{call}"), (i / 3 + (i % 3) * 4) % PLACES, &def, &call, if ok { Code } else { Error })
    });
    let mut v = vec![];
    for k in 0..PLACES {
        let def = "{% macro m(x) %}{{ x }}{% endmacro %}";
        for (call, want) in [
            ("{% call m(1) %}", Code),
            ("{% call n(1) %}", Error),
            ("{% call M(1) %}", Error),
            ("{% call mm(1) %}", Error),
            ("{% call t::m(1) %}", Error),
            ("{% call s::n(1) %}", Error),
            ("{% call super::m(1) %}", Error),
            ("{% call m(1) %}{% call m(2) %}", Code),
            ("{% call m(x = 1) %}{% call m(x = 2) %}", Code),
            ("{% call m(1) %}{% call m() %}", Error),
            ("{% call m(1) %}{% call m(1, 2) %}", Error),
            ("{% call m(1) %}{% call m(y = 2) %}", Error),
            ("{% call m(1) %}{% call n(1) %}", Error),
            ("{% call m(x=) %}", Error),
            ("{% call m(=1) %}", Error),
            ("{% call m(x==1) %}", Code),
            ("{% call m((x=1)) %}", Error),
            ("{% call m([x=1]) %}", Error),
            ("{% call m(a|upper(x=1)) %}", Error),
            ("{% call m(x=x=1) %}", Error),
            ("{% call m(\"x\"=1) %}", Error),
            ("{% call m(x.y=1) %}", Error),
            ("{% call m(1=1) %}", Error),
        ] {
            // An unknown macro cannot be told from a known one of the same scope.
            if k == 2 && call.contains("::") || (call.contains("x==1") && k == 3) {
                continue;
            }
            v.push(full(format!("{def}{call}"), k, def, call, want));
        }
    }
    let path = "path = \"t.txt\"";
    let m = ("templates/m.txt", "{% macro m(x) %}{{ x }}{% endmacro %}{% import \"n.txt\" as inner %}");
    let n = ("templates/n.txt", "{% macro n(x) %}{{ x }}{% endmacro %}");
    for (t, want) in [
        ("{% import \"m.txt\" as s %}{% call s::m(1) %}", Code),
        ("{% import \"m.txt\" as s %}{% call m(1) %}", Error),
        ("{% import \"m.txt\" as s %}{% call s::n(1) %}", Error),
        ("{% import \"m.txt\" as s %}{% call inner::n(1) %}", Error),
        ("{% import \"m.txt\" as s %}{% call s::inner::n(1) %}", Error),
        ("{% import \"m.txt\" as s %}{% call t::m(1) %}", Error),
        ("{% import \"m.txt\" as s %}{% call S::m(1) %}", Error),
        ("{% call s::m(1) %}", Error),
        ("{% include \"m.txt\" %}{% call m(1) %}", Error),
        ("{% include \"m.txt\" %}{% call inner::n(1) %}", Error),
        ("{% import \"m.txt\" as s %}{% import \"n.txt\" as t %}{% call t::n(1) %}{% call s::m(1) %}", Code),
        ("{% import \"m.txt\" as s %}{% import \"n.txt\" as t %}{% call t::m(1) %}", Error),
        ("{% import \"m.txt\" as s %}{% import \"n.txt\" as t %}{% call s::n(1) %}", Error),
        ("{% macro m(x) %}{{ x }}{% endmacro %}{% import \"n.txt\" as m %}{% call m(1) %}{% call m::n(1) %}", Code),
        ("{% import \"m.txt\" as s %}{% call s::m() %}", Error),
        ("{% import \"m.txt\" as s %}{% call s::m(1, 2) %}", Error),
        ("{% import \"m.txt\" as s %}{% call s::m(y = 2) %}", Error),
        ("{% import \"m.txt\" as s %}{% call s::m(x = 2) %}", Code),
        ("{% macro super() %}{% endmacro %}", Error),
        ("{% macro m() %}{% endmacro %}{% macro k() %}{% call m() %}{% endmacro %}{% call k() %}", Code),
        ("{% macro m() %}{% endmacro %}{% macro k() %}{% call n() %}{% endmacro %}{% call k() %}", Error),
        ("{% macro m() %}{% endmacro %}{% macro k() %}{% call m(1) %}{% endmacro %}{% call k() %}", Error),
    ] {
        v.push(item(t, path, &[("templates/t.txt", t), m, n], want));
    }
    list(p, "names", v);
}

// --- C12

fn c12(p: &mut Part) {
    // Block sets of a chain of templates, and the name of the fragment.
    let names = ["b", "c", "bb"];
    let layouts = |set: usize, k: usize| -> String {
        let bs: Vec<&str> = (0..3).filter(|i| set & (1 << i) != 0).map(|i| names[i]).collect();
        let d = |b: &str, x: &str| format!("{{% block {b} %}}{b}{x}{{% endblock %}}");
        match k {
            // In a row, within each other, in other constructs.
            0 => bs.iter().map(|b| d(b, "")).collect(),
            1 => bs.iter().rev().fold(String::new(), |a, b| d(b, &a)),
            2 => bs.iter().map(|b| format!("{{% if a == 1 %}}{}{{% endif %}}", d(b, ""))).collect(),
            _ => bs.iter().map(|b| format!("{{% for i in 0..2 %}}{{% match a %}}{{% when 1 %}}{}{{% else %}}{{% endmatch %}}{{% endfor %}}", d(b, ""))).collect(),
        }
    };
    let asked = ["b", "c", "bb", "d", "B", "", "b ", "b.txt", "t", "é", "a", "super", "b\u{0}", "bbb"];
    let mut v = vec![];
    for depth in 1..=3usize {
        let n = 8usize.pow(depth as u32);
        for sets in 0..n {
            for k in 0..4 {
                // In templates that extend others, blocks are at the top or in each other.
                if depth == 3 && k != sets % 2 {
                    continue;
                }
                let mut fs = vec![];
                let mut all = 0;
                for l in 0..depth {
                    let set = sets / 8usize.pow(l as u32) % 8;
                    all |= set;
                    let last = l + 1 == depth;
                    let head = if last { String::new() } else { format!("{{% extends \"t{}.txt\" %}}", l + 1) };
                    fs.push((format!("templates/t{l}.txt"), format!("{head}-{}", layouts(set, if last { k } else { k % 2 }))));
                }
                for a in asked {
                    let ok = names.iter().position(|n| *n == a).is_some_and(|i| all & (1 << i) != 0);
                    let shown = fs.iter().map(|(n, t)| format!("<{n}>{t}")).collect::<String>();
                    v.push(Item { name: format!("block {a:?} of {shown}"), attrs: format!("path = \"t0.txt\", block = {a:?}"), fields: "a: i32".into(), files: fs.clone(), want: if ok { Code } else { Error }, whole: None });
                }
            }
        }
    }
    for a in asked {
        for t in ["", "x", "{{ a }}", "{% block b %}{% endblock %}", "{% macro b() %}{% endmacro %}", "{% let b = 1 %}", "{# {% block b %}{% endblock %} #}", "{% raw %}{% block b %}{% endblock %}{% endraw %}", "{% for b in 0..2 %}{% endfor %}"] {
            let ok = a == "b" && t.starts_with("{% block");
            v.push(item(format!("block {a:?} of source {t}"), format!("source = {t:?}, ext = \"txt\", block = {a:?}"), &[], if ok { Code } else { Error }));
        }
    }
    list(p, "blocks", v);
}

// --- C13

fn c13(p: &mut Part) {
    const LOC: [&str; 6] = ["d0", "d0/a", "d0/b", "d1", "d1/a", "d0/a/a"];
    const REFS: [&str; 18] = [
        "x.txt", "a/x.txt", "b/x.txt", "../x.txt", "./x.txt", "a/../x.txt", "../a/x.txt", "../b/x.txt", "../../d1/x.txt", "../d1/x.txt", "../../d1/a/x.txt", "../d0/a/x.txt", "b/../a/x.txt", "./a/./x.txt", "a/a/x.txt", "X.txt",
        "x", "a/x",
    ];
    let dirs: [&[&str]; 5] = [&["d0", "d1"], &["d1", "d0"], &["d0/a", "d1", "d0"], &["d1"], &[]];
    let tags = ["{% include \"#\" %}", "{% import \"#\" as s %}", "{% extends \"#\" %}", "{% if a == 1 %}{% include \"#\" %}{% endif %}", "{% filter upper %}{% include \"#\" %}{% endfilter %}"];
    // The root is in one of the directories; a file in between may be the one with the tag.
    let n = 64 * LOC.len() * REFS.len() * dirs.len() * tags.len();
    let step = if thorough() { 1 } else { 5 };
    run(p, "references", n / step, |i| {
        let mut i = i * step + (i / 7) % step;
        let mut digit = |m: usize| {
            let d = i % m;
            i /= m;
            d
        };
        let (tag, to, from, dir, set) = (tags[digit(tags.len())], REFS[digit(REFS.len())], LOC[digit(LOC.len())], dirs[digit(dirs.len())], digit(64));
        let mut files: Vec<(String, String)> = (0..6).filter(|k| set & (1 << k) != 0).map(|k| (format!("{}/x.txt", LOC[k]), String::new())).collect();
        files.push((format!("{from}/t.txt"), tag.replace('#', to)));
        // The template is found through a configured directory.
        let tree = Tree::new(files.iter().map(|x| x.0.as_str()));
        let root = dir.iter().filter(|d| from.starts_with(*d)).map(|d| format!("{}/t.txt", &from[d.len()..]).trim_start_matches('/').to_string()).find(|q| tree.find(dir, None, q) == Some(format!("{from}/t.txt")));
        let (root, reached) = match root {
            Some(r) => (r, true),
            None => (format!("{}/t.txt", from.split_once('/').map_or("", |x| x.1)).trim_start_matches('/').to_string(), false),
        };
        let reached = reached || tree.find(dir, None, &root) == Some(format!("{from}/t.txt"));
        let ok = reached && tree.find(dir, Some(&format!("{from}/t.txt")), to).is_some();
        files.push(("askama.toml".into(), format!("[general]\ndirs = {dir:?}\n")));
        let name = files.iter().map(|(n, t)| format!("<{n}>{t}")).collect::<String>();
        Item { name: format!("{root} of {name}"), attrs: format!("path = {root:?}"), fields: "a: i32".into(), files, want: if ok { Code } else { Error }, whole: None }
    });
    // References from a template that was reached through others.
    let n2 = 32 * 5 * 5 * REFS.len() * 3 * 3;
    run(p, "chains", n2 / step, |i| {
        let mut i = i * step + (i / 7) % step;
        let mut digit = |m: usize| {
            let d = i % m;
            i /= m;
            d
        };
        let (t1, t2, to, from, via, set) = (tags[digit(3)], tags[digit(3)], REFS[digit(REFS.len())], LOC[digit(5)], LOC[digit(5)], digit(32));
        let dir: &[&str] = &["d0", "d1"];
        let mut files: Vec<(String, String)> = (0..5).filter(|k| set & (1 << k) != 0).map(|k| (format!("{}/x.txt", LOC[k]), String::new())).collect();
        // The path from `from` to `via`, both three levels deep at most.
        let up = "../".repeat(from.split('/').count());
        files.push((format!("{from}/t.txt"), t1.replace('#', &format!("{up}{via}/u.txt"))));
        // Imported templates use their own imports and includes in macros.
        let inner = t2.replace('#', to);
        let inner = if t1.contains("import") && t2.contains("include") { format!("{{% macro m() %}}{inner}{{% endmacro %}}") } else { inner };
        files.push((format!("{via}/u.txt"), inner));
        let tree = Tree::new(files.iter().map(|x| x.0.as_str()));
        let root = format!("{}/t.txt", from.split_once('/').map_or("", |x| x.1)).trim_start_matches('/').to_string();
        let ok = tree.find(dir, None, &root) == Some(format!("{from}/t.txt")) && tree.find(dir, Some(&format!("{via}/u.txt")), to).is_some();
        // The template found first is another one.
        let other = tree.find(dir, None, &root) != Some(format!("{from}/t.txt"));
        files.push(("askama.toml".into(), format!("[general]\ndirs = {dir:?}\n")));
        let name = files.iter().map(|(n, t)| format!("<{n}>{t}")).collect::<String>();
        Item { name: format!("{root} of {name}"), attrs: format!("path = {root:?}"), fields: "a: i32".into(), files, want: if ok && !other { Code } else { Error }, whole: None }
    });
}

// --- C18

fn c18(p: &mut Part) {
    let keys = ["path", "source", "block", "print", "escape", "ext", "syntax", "config", "whitespace"];
    // What each key can be set to besides a good value.
    let values: [(&str, bool); 22] = [
        ("1", false),
        ("true", false),
        ("'c'", false),
        ("1.5", false),
        ("b\"x\"", false),
        ("b'x'", false),
        ("c\"x\"", false),
        ("x", false),
        ("a::b", false),
        ("[\"x\"]", false),
        ("(\"x\")", false),
        ("concat!(\"x\", \"y\")", false),
        ("&\"x\"", false),
        ("\"x\" + \"y\"", false),
        ("-1", false),
        ("{ \"x\" }", false),
        ("\"x\".len()", false),
        ("r\"GOOD\"", true),
        ("r#\"GOOD\"#", true),
        ("\"GOOD\"", true),
        ("'x", false),
        ("1u8", false),
    ];
    let good = |k: &str| match k {
        "path" => "t.txt",
        "source" => "x{% block b %}{% endblock %}",
        "block" => "b",
        "print" => "none",
        "escape" => "html",
        "ext" => "txt",
        "syntax" => "other",
        "config" => "c.toml",
        _ => "suppress",
    };
    let toml = "[[syntax]]\nname = \"other\"\nblock_start = \"{%\"\n";
    let files: &[(&str, &str)] = &[("templates/t.txt", "{% block b %}{% endblock %}"), ("askama.toml", toml), ("c.toml", toml)];
    let mut v = vec![];
    // Every set of keys, with good values.
    for set in 0..1usize << keys.len() {
        let ks: Vec<&str> = (0..keys.len()).filter(|i| set & (1 << i) != 0).map(|i| keys[i]).collect();
        let has = |k: &str| ks.contains(&k);
        let ok = has("path") != has("source") && (!has("source") || has("ext"));
        for rev in [false, true] {
            let mut ks = ks.clone();
            if rev {
                ks.reverse();
            }
            let a = ks.iter().map(|k| format!("{k} = {:?}", good(k))).collect::<Vec<_>>().join(", ");
            v.push(item(a.clone(), a, files, if ok { Code } else { Error }));
        }
    }
    // Every key with every value.
    for k in keys {
        for (x, ok) in values {
            let x = x.replace("GOOD", &if x.starts_with('r') { good(k).to_string() } else { good(k).to_string() });
            // `'x` cannot be parsed as an expression, what the attribute then is depends on the compiler.
            let base = match k {
                "path" => String::new(),
                "source" => "ext = \"txt\"".into(),
                _ => "path = \"t.txt\"".into(),
            };
            for first in [false, true] {
                let kv = format!("{k} = {x}");
                let a = if base.is_empty() { kv } else if first { format!("{kv}, {base}") } else { format!("{base}, {kv}") };
                v.push(item(a.clone(), a, files, if ok { Code } else { Error }));
            }
        }
    }
    // Other keys and forms.
    let mut bad: Vec<String> = vec![];
    for k in keys {
        bad.push(k.to_uppercase());
        bad.push(format!("{k}s"));
        bad.push(format!("_{k}"));
        bad.push(format!("{k}_"));
        bad.push(k[..k.len() - 1].to_string());
        bad.push(k[1..].to_string());
        bad.push(format!("template::{k}"));
        bad.push(format!("::{k}"));
        bad.push(format!("{k}::x"));
        bad.push(format!("r#{k}"));
    }
    for k in ["name", "file", "template", "dir", "dirs", "mode", "escaper", "extension", "mime", "x", "é", "_", "blocks", "trim", "default_syntax", "html", "askama", "generics", "localizer"] {
        bad.push(k.into());
    }
    for b in &bad {
        // `_` is no identifier.
        for form in [format!("{b} = \"x\""), format!("{b} = \"{}\"", "t.txt"), format!("{b}"), format!("{b}(\"x\")"), format!("{b} = 1")] {
            for first in [false, true] {
                let a = if first { format!("{form}, path = \"t.txt\"") } else { format!("path = \"t.txt\", {form}") };
                v.push(item(a.clone(), a, files, Error));
            }
        }
    }
    for k in keys {
        for form in [k.to_string(), format!("{k}(\"x\")"), format!("{k}[\"x\"]"), format!("{k}{{\"x\"}}"), format!("{k}()"), format!("{k}(x = \"y\")"), format!("{k} ="), format!("{k} == \"x\""), format!("{k}: \"x\""), format!("{k} = \"x\" \"y\""), format!("{k} = = \"x\"")] {
            for a in [format!("path = \"t.txt\", {form}"), format!("{form}, path = \"t.txt\""), form.clone()] {
                v.push(item(a.clone(), a, files, Error));
            }
        }
    }
    for a in ["\"t.txt\"", "path = \"t.txt\" ext = \"txt\"", "path = \"t.txt\",, ext = \"txt\"", ", path = \"t.txt\"", "path = \"t.txt\"; ext = \"txt\"", "1", "path, \"t.txt\"", "path => \"t.txt\"", ""] {
        v.push(item(format!("({a})"), a, files, Error));
    }
    for a in ["path = \"t.txt\",", "path = \"t.txt\", ext = \"txt\",", " path=\"t.txt\" "] {
        v.push(item(format!("({a})"), a, files, Code));
    }
    // Attributes of the struct.
    for (w, want) in [
        ("struct T { a: i32 }", Error),
        ("#[template] struct T { a: i32 }", Error),
        ("#[template()] struct T { a: i32 }", Error),
        ("#[template = \"t.txt\"] struct T { a: i32 }", Error),
        ("#[template[path = \"t.txt\"]] struct T { a: i32 }", Code),
        ("#[template{path = \"t.txt\"}] struct T { a: i32 }", Code),
        ("#[template(path = \"t.txt\")] struct T { a: i32 }", Code),
        ("#[template(path = \"t.txt\")] #[template(path = \"t.txt\")] struct T { a: i32 }", Error),
        ("#[template(path = \"t.txt\")] #[template(ext = \"txt\")] struct T { a: i32 }", Error),
        ("#[template(path = \"t.txt\")] #[template()] struct T { a: i32 }", Error),
        ("#[template(path = \"t.txt\")] #[doc = \"x\"] #[template(escape = \"none\")] struct T { a: i32 }", Error),
        ("#[doc = \"x\"] #[template(path = \"t.txt\")] struct T { a: i32 }", Code),
        ("#[templates(path = \"t.txt\")] struct T { a: i32 }", Error),
        ("#[askama::template(path = \"t.txt\")] struct T { a: i32 }", Error),
        ("#[template::x(path = \"t.txt\")] struct T { a: i32 }", Error),
        ("#[Template(path = \"t.txt\")] struct T { a: i32 }", Error),
        ("#[askama(path = \"t.txt\")] #[template(path = \"t.txt\")] struct T { a: i32 }", Code),
        ("struct T { #[template(path = \"t.txt\")] a: i32 }", Error),
        ("#[template(path = \"t.txt\")] enum T { A }", Code),
        ("#[template(path = \"t.txt\")] struct T;", Code),
        ("#[template(path = \"t.txt\")] struct T(i32);", Code),
    ] {
        let mut it = item(w, "", files, want);
        it.whole = Some(w.to_string());
        v.push(it);
    }
    list(p, "attributes", v);

    // Values that must name something.
    let words = |good: &[&str]| -> Vec<(String, bool)> {
        let mut r: Vec<(String, bool)> = vec![];
        for g in good {
            r.push((g.to_string(), true));
            let mut up = g.to_uppercase();
            for x in [std::mem::take(&mut up), format!("{g} "), format!(" {g}"), format!("{g}s"), g.chars().rev().collect(), g.chars().skip(1).collect(), format!("{g}\n"), format!(".{g}"), format!("{g},{g}"), format!("\"{g}\"")] {
                if !good.contains(&x.as_str()) && !r.iter().any(|y| y.0 == x) {
                    r.push((x, false));
                }
            }
        }
        r
    };
    let mut v = vec![];
    let toml = "[[syntax]]\nname = \"other\"\nblock_start = \"<%\"\n\n[[syntax]]\nname = \"third\"\nexpr_start = \"<{\"\n\n[[escaper]]\npath = \"::askama::Text\"\nextensions = [\"tex\", \"inc\"]\n\n[[escaper]]\npath = \"::askama::Html\"\nextensions = [\"tex\", \"abc\"]\n";
    for (kind, attrs) in [("path", "path = \"t.txt\""), ("source", "source = \"x\", ext = \"txt\"")] {
        let files: &[(&str, &str)] = &[("templates/t.txt", "x"), ("askama.toml", toml), ("conf/c.toml", toml)];
        for (w, ok) in words(&["preserve", "suppress", "minimize"]).into_iter().chain(words(&["other", "html"]).into_iter().map(|x| (x.0, false))) {
            // The default preserves whitespace, but has to be spelled.
            v.push(item(format!("{kind} whitespace {w:?}"), format!("{attrs}, whitespace = {w:?}"), files, if ok { Code } else { Error }));
        }
        for (w, ok) in words(&["none"]).into_iter().chain(["ast", "code", "all"].map(|x| (format!("{x} "), false))).chain(["Ast", "CODE", "both", "ast,code", "true", "stdout"].map(|x| (x.to_string(), false))) {
            v.push(item(format!("{kind} print {w:?}"), format!("{attrs}, print = {w:?}"), files, if ok { Code } else { Error }));
        }
        for (w, ok) in words(&["default", "other", "third"]).into_iter().chain(words(&["html"]).into_iter().map(|x| (x.0, false))) {
            v.push(item(format!("{kind} syntax {w:?}"), format!("{attrs}, syntax = {w:?}"), files, if ok { Code } else { Error }));
        }
        let exts = ["html", "htm", "svg", "xml", "md", "none", "txt", "typ", "yml", "", "j2", "jinja", "jinja2", "tex", "inc", "abc"];
        for (w, ok) in words(&exts) {
            v.push(item(format!("{kind} escape {w:?}"), format!("{attrs}, escape = {w:?}"), files, if ok { Code } else { Error }));
        }
        for (w, ok) in words(&["conf/c.toml", "askama.toml"]) {
            // Spaces around a name make another name; `./x` is the same file.
            v.push(item(format!("{kind} config {w:?}"), format!("{attrs}, config = {w:?}"), files, if ok { Code } else { Error }));
        }
        for w in ["conf", "/nonexistent/c.toml", "conf/d.toml", "../c.toml", ".", ""] {
            v.push(item(format!("{kind} config {w:?}"), format!("{attrs}, config = {w:?}"), files, Error));
        }
        for w in ["./conf/c.toml", "conf/../askama.toml", "conf/./c.toml"] {
            v.push(item(format!("{kind} config {w:?}"), format!("{attrs}, config = {w:?}"), files, Code));
        }
    }
    // The extension of the file selects the escaper.
    for (e, ok) in words(&["html", "htm", "svg", "xml", "md", "none", "txt", "typ", "yml", "j2", "jinja", "jinja2", "tex", "inc", "abc"]) {
        if e.contains(['/', '\n', '"', ',']) || e.starts_with('.') {
            continue;
        }
        for stem in ["t", "t.html", "t.unknown"] {
            let f = format!("{stem}.{e}");
            let ok = ok || e.is_empty() ;
            v.push(item(format!("file {f:?}"), format!("path = {f:?}"), &[(&format!("templates/{f}"), "x"), ("askama.toml", toml)], if ok { Code } else { Error }));
            v.push(item(format!("file {f:?}, escape none"), format!("path = {f:?}, escape = \"none\""), &[(&format!("templates/{f}"), "x"), ("askama.toml", toml)], Code));
        }
        v.push(item(format!("source, ext {e:?}"), format!("source = \"x\", ext = {e:?}"), &[("askama.toml", toml)], if ok || e.is_empty() { Code } else { Error }));
        v.push(item(format!("source, ext {e:?}, escape html"), format!("source = \"x\", ext = {e:?}, escape = \"html\""), &[("askama.toml", toml)], Code));
    }
    v.push(item("no extension", "path = \"t\"", &[("templates/t", "x")], Code));
    v.push(item("hidden file", "path = \".t\"", &[("templates/.t", "x")], Code));
    for (name, q) in [("missing", "u.txt"), ("directory", "d"), ("empty", ""), ("upper case", "T.txt"), ("dot", "."), ("outside", "../t.txt"), ("space", "t.txt "), ("from the root", "templates/t.txt")] {
        v.push(item(format!("path: {name}"), format!("path = {q:?}"), &[("templates/t.txt", "x"), ("templates/d/x.txt", "x")], Error));
    }
    for q in ["t.txt", "./t.txt", "d/../t.txt", "d/x.txt", "d//x.txt", "../templates/t.txt"] {
        v.push(item(format!("path: {q}"), format!("path = {q:?}"), &[("templates/t.txt", "x"), ("templates/d/x.txt", "x")], Code));
    }
    list(p, "values", v);

    // Configuration files.
    let mut v = vec![];
    let t: (&str, &str) = ("templates/t.txt", "x");
    let mut conf = |name: &str, c: &str, want: Want| {
        for (k, path) in ["askama.toml", "other.toml"].into_iter().enumerate() {
            let attrs = if k == 0 { "path = \"t.txt\"".to_string() } else { format!("path = \"t.txt\", config = {path:?}") };
            v.push(item(format!("{name} in {path}"), attrs, &[t, (path, c)], want));
            v.push(item(format!("{name} in {path}, whitespace set"), format!("source = \"x\", ext = \"txt\", whitespace = \"suppress\"{}", if k == 0 { "" } else { ", config = \"other.toml\"" }), &[t, (path, c)], want));
        }
    };
    for (c, want) in [
        ("", Code),
        ("\n\n", Code),
        ("# nothing\n", Code),
        ("[general]", Code),
        ("[general]\ndirs = [\"templates\"]", Code),
        ("[general]\ndirs = [\"templates\", \"none\"]", Code),
        ("[general]\ndirs = [\"none\", \"templates\"]", Code),
        ("[general]\ndirs = \"templates\"", Error),
        ("[general]\ndirs = [1]", Error),
        ("[general]\ndirs = 1", Error),
        ("[general]\ndirs = [[\"templates\"]]", Error),
        ("[general]\nwhitespace = \"preserve\"", Code),
        ("[general]\nwhitespace = \"suppress\"", Code),
        ("[general]\nwhitespace = \"minimize\"", Code),
        ("[general]\nwhitespace = \"Suppress\"", Error),
        ("[general]\nwhitespace = \"trim\"", Error),
        ("[general]\nwhitespace = \"\"", Error),
        ("[general]\nwhitespace = \"preserve \"", Error),
        ("[general]\nwhitespace = true", Error),
        ("[general]\nwhitespace = 1", Error),
        ("[general]\nwhitespace = [\"suppress\"]", Error),
        ("[general]\ndefault_syntax = \"default\"", Code),
        ("[general]\ndefault_syntax = \"other\"", Error),
        ("[general]\ndefault_syntax = \"\"", Error),
        ("[general]\ndefault_syntax = \"Default\"", Error),
        ("[general]\ndefault_syntax = 1", Error),
        ("[general]\ndefault_syntax = \"other\"\n[[syntax]]\nname = \"other\"", Code),
        ("[[syntax]]\nname = \"other\"\n[general]\ndefault_syntax = \"other\"", Code),
        ("[general]\ndefault_syntax = \"othe\"\n[[syntax]]\nname = \"other\"", Error),
        ("[general]\ndefault_syntax = \"third\"\n[[syntax]]\nname = \"other\"\n[[syntax]]\nname = \"third\"", Code),
        ("[[syntax]]\nname = \"other\"\n[[syntax]]\nname = \"other\"", Error),
        ("[[syntax]]\nname = \"other\"\n[[syntax]]\nname = \"x\"\n[[syntax]]\nname = \"other\"\nblock_start = \"<%\"", Error),
        ("[[syntax]]\nname = \"default\"", Error),
        ("[[syntax]]\nname = \"default\"\nblock_start = \"<%\"", Error),
        ("[[syntax]]\nblock_start = \"<%\"", Error),
        ("[[syntax]]", Error),
        ("[[syntax]]\nname = 1", Error),
        ("[[syntax]]\nname = \"other\"\nblock_start = 1", Error),
        ("[[syntax]]\nname = \"other\"\nblock_start = [\"<%\"]", Error),
        ("[syntax]\nname = \"other\"", Error),
        ("syntax = 1", Error),
        ("syntax = \"other\"", Error),
        ("syntax = []", Code),
        ("escaper = []", Code),
        ("general = 1", Error),
        ("general = []", Error),
        ("[[escaper]]\npath = \"::x\"\nextensions = [\"x\"]", Code),
        ("[[escaper]]\npath = \"::x\"\nextensions = []", Code),
        ("[[escaper]]\npath = \"::x\"", Error),
        ("[[escaper]]\nextensions = [\"x\"]", Error),
        ("[[escaper]]", Error),
        ("[[escaper]]\npath = 1\nextensions = [\"x\"]", Error),
        ("[[escaper]]\npath = \"::x\"\nextensions = \"x\"", Error),
        ("[[escaper]]\npath = \"::x\"\nextensions = [1]", Error),
        ("[escaper]\npath = \"::x\"\nextensions = [\"x\"]", Error),
        ("[general", Error),
        ("[general]\ndirs = [", Error),
        ("[general]\ndirs = [\"templates\"", Error),
        ("general]", Error),
        ("x", Error),
        ("=", Error),
        ("\"", Error),
        ("[general]\n[general]", Error),
        ("[general]\ndirs = [\"templates\"]\ndirs = [\"templates\"]", Error),
        ("<html>", Error),
        ("{\"general\": {}}", Error),
    ] {
        conf(&format!("{c:?}"), c, want);
    }
    // Errors of a syntax that is not used are errors nevertheless.
    for (key, val, want) in [
        ("block_start", "<%", Code),
        ("block_end", "%>", Code),
        ("expr_start", "<<", Error),
        ("expr_start", "<{", Code),
        ("expr_end", "}>", Code),
        ("comment_start", "<#", Code),
        ("comment_end", "#>", Code),
    ] {
        conf(&format!("{key} {val}"), &format!("[[syntax]]\nname = \"other\"\n{key} = {val:?}"), if val == "<<" { Error } else { want });
    }
    // Not found with the directories of the configuration.
    for (dirs, ok) in [("[]", false), ("[\"none\"]", false), ("[\".\"]", false), ("[\"./templates\"]", true), ("[\"templates/\"]", true), ("[\"none/../templates\"]", false), ("[\"templates/t.txt\"]", false), ("[\"templates/../templates\"]", true), ("[\"Templates\"]", false), ("[\"\"]", false)] {
        for (k, path) in ["askama.toml", "other.toml"].into_iter().enumerate() {
            let attrs = if k == 0 { "path = \"t.txt\"".to_string() } else { format!("path = \"t.txt\", config = {path:?}") };
            v.push(item(format!("dirs {dirs} in {path}"), attrs, &[t, (path, &format!("[general]\ndirs = {dirs}\n"))], if ok { Code } else { Error }));
        }
    }
    // Which file, and which syntax of it, is used: a tag that does not exist is an error in that syntax only.
    let confs: [Option<&str>; 6] = [None, Some(""), Some("[general]\ndefault_syntax = \"k\"\n[[syntax]]\nname = \"k\"\nblock_start = \"<%\"\n"), Some("[[syntax]]\nname = \"k\"\nblock_start = \"<%\"\n"), Some("[general]\ndefault_syntax = \"k\"\n[[syntax]]\nname = \"k\"\nblock_start = \"<:\"\n"), Some("[broken")];
    // Start of a block by the syntaxes `default` and `k`, and which of them is the default.
    let known = |k: usize| -> Option<(&str, bool)> {
        match k {
            0 | 1 => Some(("", false)),
            2 => Some(("<%", true)),
            3 => Some(("<%", false)),
            4 => Some(("<:", true)),
            _ => None,
        }
    };
    for main in 0..confs.len() {
        for other in 0..confs.len() {
            for named in ["", "other.toml", "sub/other.toml", "askama.toml"] {
                for (sy, attr) in [("", ""), ("k", ", syntax = \"k\""), ("default", ", syntax = \"default\"")] {
                    for start in ["{%", "<%", "<:"] {
                        let (used, place) = match named {
                            "" => (main, ""),
                            "askama.toml" => (main, "askama.toml"),
                            n => (other, n),
                        };
                        let mut files: Vec<(&str, &str)> = vec![];
                        if let Some(c) = confs[main] {
                            files.push(("askama.toml", c));
                        }
                        if let (Some(c), true) = (confs[other], named.contains("other")) {
                            files.push((named, c));
                        } else if let Some(c) = confs[other] {
                            // Not the one that was named.
                            files.push(("templates/askama.toml", c));
                        }
                        let want = if confs[used].is_none() && !place.is_empty() {
                            Error
                        } else {
                            match known(used) {
                                None => Error,
                                Some((k, default)) => {
                                    let active = match sy {
                                        "default" => Some("{%"),
                                        "k" => Some(k).filter(|k| !k.is_empty()),
                                        _ => Some(if default { k } else { "{%" }),
                                    };
                                    match active {
                                        None => Error,
                                        Some(a) => if a == start { Error } else { Code },
                                    }
                                }
                            }
                        };
                        let conf = if named.is_empty() { String::new() } else { format!(", config = {named:?}") };
                        let src = format!("{start} bogus %}}");
                        v.push(item(format!("{src:?} askama.toml {:?} other {:?}", confs[main], confs[other]), format!("source = {src:?}, ext = \"txt\"{conf}{attr}"), &files, want));
                    }
                }
            }
        }
    }
    list(p, "configuration", v);
}

fn main() {
    let prop = std::env::args().skip(1).find(|a| ["c10", "c12", "c13", "c18"].contains(&a.as_str())).expect("property");
    let mut p = Part::from_args();
    match prop.as_str() {
        "c10" => c10(&mut p),
        "c12" => c12(&mut p),
        "c13" => c13(&mut p),
        "c18" => c18(&mut p),
        _ => panic!("property {prop}"),
    }
    let _ = std::fs::remove_dir_all(root());
    p.finish();
}
