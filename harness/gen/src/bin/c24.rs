//! C24: every template file whose text makes a difference to what is derived is tracked.
#[path = "../common.rs"]
mod common;
#[path = "../graph.rs"]
mod graph;
use common::*;
use graph::*;
use proc_macro2::{TokenStream, TokenTree};
use std::path::PathBuf;
use std::str::FromStr;
use std::time::Duration;
use vkit::refsets::{self, *};

fn root() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    if shm.is_dir() && std::fs::create_dir_all("/dev/shm/vk-c24").is_ok() {
        return shm.join("vk-c24");
    }
    PathBuf::from(std::env::var("VK_OUT").unwrap()).join("c24")
}

fn base() -> PathBuf {
    root().join(std::process::id().to_string())
}

/// The files that `include_bytes!` and `include_str!` name.
fn tracked(t: TokenStream, v: &mut Vec<PathBuf>) {
    fn literals(t: TokenStream, v: &mut Vec<PathBuf>) {
        for t in t {
            match t {
                TokenTree::Group(g) => literals(g.stream(), v),
                TokenTree::Literal(l) => {
                    if let Ok(s) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                        let s = s.value();
                        // `concat!(env!("CARGO_MANIFEST_DIR"), ..)` would do, too.
                        for p in [PathBuf::from(&s), base().join(s.trim_start_matches('/'))] {
                            v.extend(p.canonicalize());
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let ts: Vec<TokenTree> = t.into_iter().collect();
    for k in 0..ts.len() {
        match &ts[k] {
            TokenTree::Group(g) => {
                let is = k >= 2 && matches!(&ts[k - 2], TokenTree::Ident(i) if i == "include_bytes" || i == "include_str");
                if is {
                    literals(g.stream(), v);
                } else {
                    tracked(g.stream(), v);
                }
            }
            _ => {}
        }
    }
}

fn outcome(attrs: &str, fields: &str) -> String {
    match derive(attrs, fields) {
        Out::Code(c) => c,
        Out::Error(e) => format!("error: {e}"),
        Out::Panic(e) => format!("panic: {e}"),
    }
}

/// Changes every file in several ways.
fn judge(files: &[(String, String)], attrs: &str, fields: &str, key: &str, log: &mut Log) {
    let dir = base().join("templates");
    let paths: Vec<PathBuf> = files.iter().map(|f| dir.join(&f.0)).collect();
    for (p, f) in paths.iter().zip(files) {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, &f.1).unwrap();
    }
    std::env::set_var("CARGO_MANIFEST_DIR", base());
    log.add("states", 1);
    let o = match derive(attrs, fields) {
        Out::Code(c) => c,
        _ => return log.add("rejected", 1),
    };
    let mut t = vec![];
    tracked(TokenStream::from_str(&o).expect("tokens"), &mut t);
    for (i, (p, f)) in paths.iter().zip(files).enumerate() {
        let is = t.contains(&p.canonicalize().unwrap());
        let texts = [format!("{}Q", f.1), format!("Q{}", f.1), f.1.replace(&format!("m{i}"), "M"), f.1.replace(&format!("b{i}"), "B"), format!("{}{{% if %}}", f.1), String::new()];
        let mut makes = false;
        for (k, x) in texts.iter().enumerate() {
            if *x == f.1 {
                continue;
            }
            std::fs::write(p, x).unwrap();
            log.add("transitions", 1);
            if outcome(attrs, fields) != o {
                makes = true;
                log.add("traces", 1);
                if !is {
                    log.violation(format!("{key}: {}", f.0), format!("with {x:?} in this file something else is derived (change {k}), but the code does not name the file"));
                    break;
                }
            }
        }
        if makes {
            log.add("files_that_matter", 1);
        }
        std::fs::write(p, &f.1).unwrap();
    }
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let plan: &[(usize, usize)] = if deep { &[(1, 4), (2, 4), (3, 4), (4, 4)] } else { &[(1, 3), (2, 3), (3, 3), (4, 3)] };
    for (n, k) in plan {
        let gs = graphs(*n, *k);
        let make = |i: usize| Graph { n: *n, edges: gs[i].clone(), style: i % 5 };
        let f = |i: usize, log: &mut Log| {
            let g = make(i);
            let files: Vec<(String, String)> = (0..g.n).map(|i| (g.path(i), g.text(i))).collect();
            judge(&files, &format!("path = {:?}", g.path(0)), "a: i32", &g.describe(), log);
        };
        iso::run(&mut p, &format!("graphs{n}"), gs.len(), Duration::from_secs(25), f, |i| make(i).describe());
    }
    let mut sets = refsets::all(0, &[0, 1, 2, 3, 4], &HOLDERS);
    sets.extend(refsets::all(1, &[0, 1, 2, 3, 4], &HOLDERS));
    sets.extend(refsets::all(2, if deep { &[0, 1, 2, 3, 4] } else { &[1, 2, 3] }, &HOLDERS));
    let few = [Holder::Plain, Holder::Else, Holder::ForElse, Holder::Macros, Holder::Blocks];
    sets.extend(refsets::all(3, &[2, 3], if deep { &HOLDERS } else { &few }));
    sets.extend(refsets::rows(&[4, 5, 8, 17, 33]));
    let f = |i: usize, log: &mut Log| {
        // Nothing of the former set may be found.
        let _ = std::fs::remove_dir_all(base());
        let s = &sets[i];
        let files: Vec<(String, String)> = s.files.iter().map(|(n, t)| (n.clone(), t.replace("@/", ""))).collect();
        judge(&files, &s.attrs.replace("@/", ""), FIELDS, &s.name, log);
    };
    iso::run(&mut p, "sets", sets.len(), Duration::from_secs(25), f, |i| sets[i].name.clone());
    let _ = std::fs::remove_dir_all(root());
    p.finish();
}
