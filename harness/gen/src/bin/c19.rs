//! C19: every template dependency graph is compiled or rejected in finite time.
#[path = "../common.rs"]
mod common;
#[path = "../graph.rs"]
mod graph;
use common::*;
use graph::{K::*, *};
use std::path::PathBuf;
use std::time::Duration;

/// Files are written to memory if possible.
fn root() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    if shm.is_dir() && std::fs::create_dir_all("/dev/shm/vk-c19").is_ok() {
        return shm.join("vk-c19");
    }
    PathBuf::from(std::env::var("VK_OUT").unwrap()).join("c19")
}

fn base() -> PathBuf {
    root().join(std::process::id().to_string())
}

fn derive_files(files: &[(String, String)], root: &str) -> Out {
    let dir = base().join("templates");
    for (p, t) in files {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, format!("{t}\n")).unwrap();
    }
    std::env::set_var("CARGO_MANIFEST_DIR", base());
    derive(&format!("path = {root:?}"), "a: i32")
}

fn judge(files: &[(String, String)], root: &str, want: &Want, key: &str, log: &mut Log) {
    log.add("transitions", 1);
    let o = derive_files(files, root);
    match (&o, want) {
        (Out::Panic(p), _) => log.violation(key, format!("panic: {p}")),
        (Out::Code(_), Want::Error) => log.violation(key, "cyclic inheritance was accepted"),
        (Out::Error(e), Want::Code) => log.violation(key, format!("rejected: {}", short(e, 400))),
        (Out::Error(e), _) if e.is_empty() => log.violation(key, "error without a message"),
        (Out::Error(_), _) => log.add("rejected", 1),
        (Out::Code(c), _) => {
            log.add("traces", 1);
            if let Err(e) = valid(c) {
                log.violation(key, format!("the generated code is not valid Rust: {e}"));
            }
            match derive_files(files, root) {
                Out::Code(d) if d == *c => {}
                _ => log.violation(key, "a second run yields something else"),
            }
        }
    }
}

fn small(p: &mut Part) {
    let deep = thorough();
    let plan: &[(usize, usize)] = if deep { &[(1, 5), (2, 5), (3, 4), (4, 4), (5, 5)] } else { &[(1, 4), (2, 3), (3, 3), (4, 3)] };
    for (n, k) in plan {
        let gs = graphs(*n, *k);
        let styles = if *n >= 4 || gs.len() > 200_000 { 1 } else { 5 };
        let make = |i: usize| Graph { n: *n, edges: gs[i / styles].clone(), style: i % 5 };
        let f = |i: usize, log: &mut Log| {
            log.add("states", 1);
            let g = make(i);
            let want = g.want();
            log.add(match want { Want::Code => "expected_code", Want::Error => "expected_error", Want::Any => "expected_any" }, 1);
            judge(&files_of(&g), &g.path(0), &want, &g.describe(), log);
        };
        iso::run(p, &format!("graphs{n}"), gs.len() * styles, Duration::from_secs(25), f, |i| make(i).describe());
    }
}

/// Cycles and chains of any length, through every kind of edge.
fn long(p: &mut Part) {
    let lens: Vec<usize> = if thorough() { (1..=64).chain([100, 127, 128, 129, 200, 255, 256, 257, 400]).collect() } else { (1..=12).chain([20, 33, 64, 100, 129, 200]).collect() };
    // Kinds along the cycle alternate between two of these.
    let kinds = [Ext, Imp, ImpMac, IncTop, ImpTop];
    let mut items = vec![];
    for &n in &lens {
        for a in kinds {
            for b in kinds {
                for entry in [0usize, 1, 3] {
                    for closed in [true, false] {
                        for style in 0..5 {
                            if (n > 20 && (entry != 1 || a != b)) || (entry >= n && entry != 0) {
                                continue;
                            }
                            items.push((n, a, b, entry, closed, style));
                        }
                    }
                }
            }
        }
    }
    // `entry` files lead to the cycle.
    let make = |i: usize| {
        let (n, a, b, entry, closed, style) = items[i];
        let mut edges: Vec<Edge> = vec![];
        for k in 0..n - 1 {
            edges.push((k, if k % 2 == 0 { a } else { b }, k + 1));
        }
        if closed {
            edges.push((n - 1, if n % 2 == 1 { a } else { b }, entry.min(n - 1)));
        }
        Graph { n, edges, style }
    };
    let name = |i: usize| {
        let (n, a, b, entry, closed, style) = items[i];
        format!("{n} files in a row, by {a:?} and {b:?}{}, paths {style}", if closed { format!(", the last one leads to number {entry}") } else { String::new() })
    };
    let f = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let g = make(i);
        let want = g.want();
        judge(&files_of(&g), &g.path(0), &want, &name(i), log);
    };
    iso::run(p, "long", items.len(), Duration::from_secs(60), f, name);
}

/// Graphs that are spelled in one file, or with unusual paths.
fn special(p: &mut Part) {
    let f = |n: &str, t: &str| (n.to_string(), t.to_string());
    let mut items: Vec<(String, Vec<(String, String)>, Want)> = vec![];
    let mut add = |name: &str, fs: Vec<(String, String)>, w: Want| items.push((name.to_string(), fs, w));
    for path in ["a.html", "./a.html", "d/../a.html", "../templates/a.html", "d/./../a.html", "././a.html"] {
        add(&format!("extends itself as {path}"), vec![f("a.html", &format!("{{% extends \"{path}\" %}}")), f("d/x.html", "")], Want::Error);
        add(&format!("extends itself with blocks as {path}"), vec![f("a.html", &format!("{{% extends \"{path}\" %}}{{% block x %}}{{% call super() %}}{{% endblock %}}")), f("d/x.html", "")], Want::Error);
        add(&format!("imports itself as {path}"), vec![f("a.html", &format!("{{% import \"{path}\" as s %}}x")), f("d/x.html", "")], Want::Code);
        add(&format!("imports itself as {path}, calls its macro"), vec![f("a.html", &format!("{{% import \"{path}\" as s %}}{{% macro m() %}}x{{% endmacro %}}{{% call s::m() %}}")), f("d/x.html", "")], Want::Code);
        add(&format!("includes itself as {path}"), vec![f("a.html", &format!("{{% include \"{path}\" %}}")), f("d/x.html", "")], Want::Any);
        add(&format!("includes itself in a branch as {path}"), vec![f("a.html", &format!("{{% if false %}}{{% include \"{path}\" %}}{{% endif %}}")), f("d/x.html", "")], Want::Any);
        add(&format!("two files extend each other through {path}"), vec![f("a.html", "{% extends \"d/x.html\" %}"), f("d/x.html", &format!("{{% extends \"{}\" %}}", if path == "a.html" { "../a.html".to_string() } else { format!("../{path}") }))], Want::Error);
    }
    add("extends a missing file", vec![f("a.html", "{% extends \"none.html\" %}")], Want::Error);
    add("includes a missing file", vec![f("a.html", "{% include \"none.html\" %}")], Want::Error);
    add("imports a missing file", vec![f("a.html", "{% import \"none.html\" as x %}")], Want::Error);
    add("extends a directory", vec![f("a.html", "{% extends \"d\" %}"), f("d/x.html", "")], Want::Error);
    add("includes a directory", vec![f("a.html", "{% include \"d\" %}"), f("d/x.html", "")], Want::Error);
    add("extends two files", vec![f("a.html", "{% extends \"b.html\" %}{% extends \"b.html\" %}"), f("b.html", "")], Want::Error);
    add("a block within itself", vec![f("a.html", "{% block b %}{% block b %}{% endblock %}{% endblock %}")], Want::Any);
    add("a block twice", vec![f("a.html", "{% block b %}{% endblock %}{% block b %}{% endblock %}")], Want::Any);
    add("blocks within each other", vec![f("a.html", "{% extends \"b.html\" %}{% block x %}{% block y %}{% endblock %}{% endblock %}"), f("b.html", "{% block y %}{% block x %}{% endblock %}{% endblock %}")], Want::Any);
    add("super of nothing", vec![f("a.html", "{% block b %}{% call super() %}{% endblock %}")], Want::Error);
    add("super outside of blocks", vec![f("a.html", "{% call super() %}")], Want::Error);
    add("macros that call each other", vec![f("a.html", "{% macro m() %}{% call n() %}{% endmacro %}{% macro n() %}{% call m() %}{% endmacro %}{% call m() %}")], Want::Any);
    add("macros that call each other, not called", vec![f("a.html", "{% macro m() %}{% call n() %}{% endmacro %}{% macro n() %}{% call m() %}{% endmacro %}x")], Want::Code);
    add("a macro that calls itself twice", vec![f("a.html", "{% macro m() %}{% call m() %}{% call m() %}{% endmacro %}{% call m() %}")], Want::Any);
    add("a macro that calls itself in a branch", vec![f("a.html", "{% macro m(n) %}{% if n == 1 %}{% call m(n) %}{% endif %}{% endmacro %}{% call m(1) %}")], Want::Any);
    for k in [2usize, 5, 8] {
        // Diamonds: every file leads to the next one twice.
        let mk = |link: &dyn Fn(usize) -> String, last: &str| (0..=k).map(|i| (if i == 0 { "a.html".to_string() } else { format!("f{i}.html") }, if i == k { last.to_string() } else { link(i + 1) })).collect::<Vec<_>>();
        add(&format!("{k} diamonds of includes"), mk(&|i| format!("{{% include \"f{i}.html\" %}}{{% include \"f{i}.html\" %}}"), "x"), Want::Code);
        add(&format!("{k} diamonds of imports"), mk(&|i| format!("{{% import \"f{i}.html\" as x %}}{{% import \"f{i}.html\" as y %}}{{% macro m() %}}{{% call x::m() %}}{{% call y::m() %}}{{% endmacro %}}{{% call m() %}}"), "{% macro m() %}m{% endmacro %}"), Want::Code);
        add(&format!("{k} diamonds of macros"), vec![f("a.html", &format!("{}{{% macro m{k}() %}}x{{% endmacro %}}{{% call m0() %}}", (0..k).map(|i| format!("{{% macro m{i}() %}}{{% call m{}() %}}{{% call m{}() %}}{{% endmacro %}}", i + 1, i + 1)).collect::<String>()))], Want::Code);
        add(&format!("{k} diamonds that end in a cycle"), mk(&|i| format!("{{% include \"f{i}.html\" %}}{{% include \"f{i}.html\" %}}"), "{% include \"a.html\" %}"), Want::Any);
        add(&format!("{k} diamonds of super"), (0..=k).map(|i| (if i == 0 { "a.html".to_string() } else { format!("f{i}.html") }, if i == k { "{% block b %}x{% endblock %}".to_string() } else { format!("{{% extends \"f{}.html\" %}}{{% block b %}}{{% call super() %}}{{% call super() %}}{{% endblock %}}", i + 1) })).collect(), Want::Code);
    }
    let g = |i: usize, log: &mut Log| {
        log.add("states", 1);
        let (n, fs, w) = &items[i];
        // Nothing of the former item may be found.
        let _ = std::fs::remove_dir_all(base());
        judge(fs, "a.html", w, n, log);
    };
    iso::run(p, "special", items.len(), Duration::from_secs(60), g, |i| items[i].0.clone());
}

fn main() {
    let mut p = Part::from_args();
    small(&mut p);
    long(&mut p);
    special(&mut p);
    let _ = std::fs::remove_dir_all(root());
    p.finish();
}
