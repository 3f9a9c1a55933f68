//! C13: include, import and extends find the right file and keep the right scope.
use vkit::contexts::*;
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;
use vkit::resolve::Tree;

const LOC: [&str; 5] = ["d0", "d0/a", "d0/b", "d1", "d1/a"];
const REFS: [&str; 14] = [
    "@x.txt", "a/@x.txt", "b/@x.txt", "../@x.txt", "./@x.txt", "a/../@x.txt", "../a/@x.txt", "../b/@x.txt", "../../d1/@x.txt", "../d1/@x.txt", "../../d1/a/@x.txt", "../d0/a/@x.txt",
    "b/../a/@x.txt", "./a/./@x.txt",
];
const DIRS01: [&str; 2] = ["d0", "d1"];
const DIRS10: [&str; 2] = ["d1", "d0"];
const DIRSA: [&str; 3] = ["d0/a", "d1", "d0"];

fn find(dirs: &[&str], from: &str, to: &str, f: &Files) -> String {
    Tree::new(f.0.keys().map(|x| x.as_str())).find(dirs, Some(from), to).unwrap_or_else(|| panic!("model: {to} from {from}"))
}
fn find01(from: &str, to: &str, f: &Files) -> String {
    find(&DIRS01, from, to, f)
}
fn find10(from: &str, to: &str, f: &Files) -> String {
    find(&DIRS10, from, to, f)
}
fn finda(from: &str, to: &str, f: &Files) -> String {
    find(&DIRSA, from, to, f)
}

struct Conf {
    dirs: &'static [&'static str],
    find: fn(&str, &str, &Files) -> String,
}

fn confs() -> [Conf; 3] {
    [Conf { dirs: &DIRS01, find: find01 }, Conf { dirs: &DIRS10, find: find10 }, Conf { dirs: &DIRSA, find: finda }]
}

fn toml(c: &Conf) -> String {
    format!("[general]\ndirs = [{}]\n", c.dirs.iter().map(|d| format!("\"@/{d}\"")).collect::<Vec<_>>().join(", "))
}

/// A reference to x from a file at `loc` finds something?
fn finds(c: &Conf, files: &[(String, Vec<N>)], from: &str, to: &str) -> bool {
    Tree::new(files.iter().map(|x| x.0.as_str())).find(c.dirs, Some(from), to).is_some()
}

fn make(c: &Conf, root: &str, path: Option<&str>, files: Vec<(String, Vec<N>)>) -> Model {
    let mut m = Model::files(root, files.iter().map(|(n, x)| (n.as_str(), x.clone())).collect());
    m.on_disk = true;
    m.html = false;
    m.config = Some(toml(c));
    m.resolve = Some(c.find);
    m.path = Some(path.unwrap_or_else(|| {
        // Named from the configured directory that contains it.
        let d = c.dirs.iter().filter(|d| root.starts_with(&format!("{d}/"))).max_by_key(|d| d.len()).unwrap();
        &root[d.len() + 1..]
    }).to_string());
    m.field("v", "i32")
}

fn keep() -> Vec<(String, Vec<N>)> {
    LOC.iter().map(|l| (format!("{l}/keep.txt"), vec![t("keep")])).collect()
}

/// The x files of a subset: one per kind of use, with content naming the place.
fn xs(sub: usize) -> Vec<(String, Vec<N>)> {
    let mut v = keep();
    for (k, l) in LOC.iter().enumerate() {
        if sub >> k & 1 == 1 {
            v.push((format!("{l}/ix.txt"), vec![t(&format!("<i {l} ")), outv("v"), t(">")]));
            v.push((format!("{l}/mx.txt"), vec![macro_("m", &["p"], vec![t(&format!("<m {l} ")), outv("p"), t(">")])]));
            v.push((format!("{l}/ex.txt"), vec![t(&format!("<e {l} ")), block("b", vec![t("no"), outv("v")]), t(">")]));
        }
    }
    v
}

/// Tags for every reference that resolves at `from`, as top-level nodes and as nodes for the body.
fn uses(c: &Conf, files: &[(String, Vec<N>)], from: &str, tag: usize) -> (Vec<N>, Vec<N>, u64) {
    let (mut top, mut body) = (vec![], vec![]);
    let mut n = 0;
    for (k, r) in REFS.iter().enumerate() {
        let (i, m) = (r.replace('@', "i"), r.replace('@', "m"));
        if finds(c, files, from, &i) {
            n += 1;
            body.push(N::Include(i, N0));
            body.push(t(";"));
            let s = format!("s{tag}x{k}");
            top.push(N::Import(m, s.clone(), N0));
            body.push(N::Call(Some(s), "m".into(), vec![(None, E::Known("7".into(), i64v(7)))], N0));
        }
    }
    (top, body, n)
}

fn i64v(n: i64) -> V {
    i(n)
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let inp = [vec![i(5)]];
    let cs = confs();
    let mut nrefs = 0;

    // Every reference from every place to every subset of the files.
    let mut su = Suite::new();
    for (ci, c) in cs.iter().enumerate() {
        for sub in 1..32 {
            for (li, l) in LOC.iter().enumerate() {
                if !deep && ci != (sub + li) % 3 && ci != 0 {
                    continue;
                }
                let root = format!("{l}/t.txt");
                let mut files = xs(sub);
                let (mut top, body, n) = uses(c, &files, &root, 0);
                nrefs += 2 * n;
                top.extend(body);
                files.push((root.clone(), top));
                su.add(&make(c, &root, None, files), &inp);
                for r in REFS {
                    let e = r.replace('@', "e");
                    let mut files = xs(sub);
                    if !finds(c, &files, &root, &e) || (!deep && (sub + li + r.len()) % 3 != ci) {
                        continue;
                    }
                    nrefs += 1;
                    files.push((root.clone(), vec![N::Extends(e), block("b", vec![t("mine"), N::Super(N0)])]));
                    su.add(&make(c, &root, None, files), &inp);
                }
            }
        }
    }
    su.run(&mut p, "c13-lookup", 60);

    // The same from a file that was itself included, imported or inherited from elsewhere.
    let mut su = Suite::new();
    for (ci, c) in cs.iter().enumerate() {
        for sub in 1..32usize {
            for (a, la) in LOC.iter().enumerate() {
                for (b, lb) in LOC.iter().enumerate() {
                    for kind in 0..6 {
                        if !deep && (sub + a * 2 + b * 3 + kind) % 9 != ci {
                            continue;
                        }
                        let (root, mid) = (format!("{la}/t.txt"), format!("{lb}/mid.txt"));
                        let mut files = xs(sub);
                        let (top, body, n) = uses(c, &files, &mid, 1);
                        let (rtop, rbody, rn) = uses(c, &files, &root, 2);
                        nrefs += 2 * (n + rn);
                        files.push((mid.clone(), vec![]));
                        // Some reference from the root to the file in the middle.
                        let tree = Tree::new(files.iter().map(|x| x.0.as_str()));
                        let Some(r) = REFS.iter().map(|r| r.replace("@x", "mid")).find(|r| tree.find(c.dirs, Some(&root), r).is_some()) else { continue };
                        let cat = |v: Vec<Vec<N>>| v.concat();
                        let (rn, mn) = match kind {
                            0 => (cat(vec![rtop, vec![t("("), N::Include(r, N0), t(")")], rbody]), cat(vec![top, body])),
                            1 => (
                                cat(vec![vec![N::Import(r, "mid".into(), N0)], rtop, vec![N::Call(Some("mid".into()), "q".into(), vec![(None, var("v"))], N0), t("|")], rbody]),
                                cat(vec![top, vec![macro_("q", &["v"], body)]]),
                            ),
                            // The layout of the parent.
                            2 => (cat(vec![vec![N::Extends(r)], rtop, vec![block("b", rbody)]]), cat(vec![top, body, vec![block("b", vec![])]])),
                            // A block of the parent that is not overridden, and one with super().
                            3 => (
                                cat(vec![vec![N::Extends(r)], rtop, vec![block("b", cat(vec![rbody.clone(), vec![N::Super(N0)], rbody]))]]),
                                cat(vec![top, vec![block("b", body.clone()), t("/"), block("c", body)]]),
                            ),
                            // Include inside a macro of the including file, called there.
                            4 => (
                                cat(vec![rtop, vec![macro_("q", &["v"], cat(vec![vec![N::Include(r, N0)], rbody]))], vec![call("q", vec![var("v")])]]),
                                cat(vec![top, body]),
                            ),
                            // An included file that inherits.
                            _ => {
                                files.push((format!("{lb}/base.txt"), vec![t("base "), block("b", vec![])]));
                                (cat(vec![rtop, vec![N::Include(r, N0)], rbody]), cat(vec![vec![N::Extends("base.txt".into())], top, vec![block("b", body)]]))
                            }
                        };
                        files.retain(|x| x.0 != mid);
                        files.push((mid, mn));
                        files.push((root.clone(), rn));
                        su.add(&make(c, &root, None, files), &inp);
                    }
                }
            }
        }
    }
    p.add("references", nrefs);
    su.run(&mut p, "c13-nested", 60);

    // The template itself goes through the directories in order.
    let mut su = Suite::new();
    for c in &cs {
        for sub in 1..32usize {
            for path in ["t.txt", "a/t.txt", "b/t.txt", "a/../t.txt", "./t.txt", "b/../a/t.txt"] {
                let mut files = keep();
                for (k, l) in LOC.iter().enumerate() {
                    if sub >> k & 1 == 1 {
                        files.push((format!("{l}/t.txt"), vec![t(&format!("<t {l}>")), N::Include("keep.txt".into(), N0)]));
                    }
                }
                let tree = Tree::new(files.iter().map(|x| x.0.as_str()));
                if let Some(root) = tree.find(c.dirs, None, path) {
                    su.add(&make(c, &root, Some(path), files), &inp);
                }
            }
        }
    }
    su.run(&mut p, "c13-root", 60);
    scope(&mut p, deep);
    places(&mut p, deep);
    p.finish();
}

/// What an included file sees, and what it leaves behind.
fn scope(p: &mut Part, deep: bool) {
    let inp = [vec![i(5), i(6)]];
    let k = |n: i64| E::Known(format!("{n}i32"), i(n));
    let show = || vec![outv("v"), t(","), outv("w"), t(";")];
    let some_p = |n: &str| P::Tuple("Some".into(), vec![pn(n)]);
    // Where the include stands.
    let places: Vec<Box<dyn Fn(Vec<N>) -> Vec<N>>> = vec![
        Box::new(|b| b),
        Box::new(|b| vec![let_("v", E::Known("11i32".into(), i(11)))].into_iter().chain(b).collect()),
        Box::new(|b| vec![for_("v", E::Known("[12i32, 13]".into(), V::L(vec![i(12), i(13)])), b)]),
        Box::new(|b| vec![let_("w", E::Known("14i32".into(), i(14))), if_(E::Known("true".into(), V::B(true)), b)]),
        Box::new(move |b| vec![N::If(vec![(N0, Some(Cond::Let(some_p("w"), E::Ctor("Some".into(), vec![E::Known("15i32".into(), i(15))]))), b)], N0)]),
        Box::new(|b| vec![block("bl", b)]),
        Box::new(|b| vec![block("bl", vec![let_("v", E::Known("16i32".into(), i(16)))].into_iter().chain(b).collect())]),
        Box::new(|b| vec![macro_("mm", &["v", "w"], b), call("mm", vec![E::Known("17i32".into(), i(17)), var("v")])]),
        Box::new(|b| vec![N::Match(N0, E::Ctor("Some".into(), vec![E::Known("18i32".into(), i(18))]), "".into(), vec![(N0, P::Tuple("Some".into(), vec![pn("v")]), b), (N0, pn("__else"), vec![])], N0)]),
    ];
    // What it contains.
    let stmts: Vec<Vec<N>> = vec![
        vec![let_("v", k(21))],
        vec![let_("w", var("v"))],
        vec![let_("z", k(22)), outv("z")],
        vec![for_("w", E::Arr(vec![k(23), k(24)]), show())],
        vec![if_(E::Known("true".into(), V::B(true)), vec![let_("v", k(25)), outv("v")])],
        vec![N::Include("j.txt".into(), N0)],
        vec![N::Let(pn("v"), None, N0), ifelse(E::Known("true".into(), V::B(true)), vec![let_("v", k(26))], vec![let_("v", k(27))])],
        show(),
    ];
    let mut su = Suite::new();
    let nested = vec![
        vec![],
        vec![let_("v", k(31)), outv("v")],
        vec![let_("w", k(32)), let_("u", var("w")), outv("u")],
        vec![for_("v", E::Arr(vec![k(33)]), show())],
    ];
    for pl in &places {
        for (a, s1) in stmts.iter().enumerate() {
            for (b, s2) in stmts.iter().enumerate() {
                for (c, nest) in nested.iter().enumerate() {
                    if c > 0 && a != 5 && b != 5 {
                        continue;
                    }
                    for twice in [false, true] {
                        if twice && !deep && (a + b + c) % 2 == 0 {
                            continue;
                        }
                        let inc = [show(), s1.clone(), show(), s2.clone(), show()].concat();
                        let mut body = [show(), vec![N::Include("i.txt".into(), N0)], show()].concat();
                        if twice {
                            body = [body, vec![let_("w", k(41)), N::Include("i.txt".into(), N0)], show()].concat();
                        }
                        let root = [show(), pl(body), show()].concat();
                        let m = Model::files("t.txt", vec![("t.txt", root), ("i.txt", inc), ("j.txt", [show(), nest.clone(), show()].concat())]);
                        su.add(&m.field("v", "i32").field("w", "i32"), &inp);
                    }
                }
            }
        }
    }
    su.run(p, "c13-scope", 80);

    // Macros and imports of three files that include each other, and of three levels of templates.
    let mut su = Suite::new();
    let names = ["t", "i", "j"];
    // bit 0: own macro m, bit 1: own import s
    for cfg in 0..64usize {
        let has = |f: usize, b: usize| cfg >> (2 * f + b) & 1 == 1;
        let lib = |f: usize| (format!("k{}.txt", names[f]), vec![macro_("im", &["p"], vec![t(&format!("[{}im ", names[f])), outv("p"), t("]")])]);
        let top = |f: usize| {
            let mut v = vec![];
            if has(f, 0) {
                v.push(macro_("m", &["p"], vec![t(&format!("[{}m ", names[f])), outv("p"), t("]")]));
            }
            if has(f, 1) {
                v.push(N::Import(format!("k{}.txt", names[f]), "s".into(), N0));
            }
            v
        };
        let calls = |m: bool, s: bool| {
            let mut v = vec![t("(")];
            if m {
                v.push(call("m", vec![var("v")]));
            }
            if s {
                v.push(N::Call(Some("s".into()), "im".into(), vec![(None, var("w"))], N0));
            }
            v.push(t(")"));
            v
        };
        let upto = |f: usize, b: usize| (0..=f).any(|g| has(g, b));
        for shape in 0..4 {
            // Includes: files of the outer ones are visible inside.
            let see = |f: usize| calls(upto(f, 0), upto(f, 1));
            let inc = |f: usize| N::Include(format!("{}.txt", names[f]), N0);
            let wrap = |b: Vec<N>| match shape {
                0 => b,
                1 => vec![if_(E::Known("true".into(), V::B(true)), b)],
                2 => vec![for_("q", E::Known("[1, 2]".into(), V::L(vec![i(1), i(2)])), b)],
                _ => vec![block("bl", b)],
            };
            let fs = vec![
                ("t.txt".to_string(), [top(0), wrap([see(0), vec![inc(1)], see(0), vec![inc(2)], see(0)].concat())].concat()),
                ("i.txt".to_string(), [top(1), see(1), vec![inc(2)], see(1)].concat()),
                ("j.txt".to_string(), [top(2), calls(has(0, 0) || has(2, 0), has(0, 1) || has(2, 1))].concat()),
                lib(0),
                lib(1),
                lib(2),
            ];
            let m = Model::files("t.txt", fs.iter().map(|(n, x)| (n.as_str(), x.clone())).collect());
            su.add(&m.field("v", "i32").field("w", "i32"), &inp);
        }
        // Inheritance: blocks use what their own file defines.
        let own = |f: usize| calls(has(f, 0), has(f, 1));
        for shape in 0..3 {
            let mut fs = vec![
                ("t.txt".to_string(), [vec![N::Extends("i.txt".into())], top(0), vec![block("a", own(0)), block("b", [own(0), vec![N::Super(N0)], own(0)].concat())]].concat()),
                ("i.txt".to_string(), [vec![N::Extends("j.txt".into())], top(1), vec![block("b", [own(1), vec![N::Super(N0)], own(1)].concat()), block("c", own(1))]].concat()),
                (
                    "j.txt".to_string(),
                    [top(2), own(2), vec![block("a", own(2))], own(2), vec![block("b", own(2)), block("c", vec![])], own(2)].concat(),
                ),
                lib(0),
                lib(1),
                lib(2),
            ];
            if shape == 1 {
                // The base is included rather than inherited by the middle one's block.
                fs[1].1 = [vec![N::Extends("j.txt".into())], top(1), vec![block("b", [own(1), vec![N::Include("x.txt".into(), N0)], own(1)].concat())]].concat();
                fs.push(("x.txt".to_string(), own(1)));
            }
            if shape == 2 {
                fs[0].1 = [vec![N::Extends("i.txt".into())], top(0), vec![block("c", [vec![N::Include("x.txt".into(), N0)], own(0)].concat())]].concat();
                fs.push(("x.txt".to_string(), own(0)));
            }
            let m = Model::files("t.txt", fs.iter().map(|(n, x)| (n.as_str(), x.clone())).collect());
            su.add(&m.field("v", "i32").field("w", "i32"), &inp);
        }
    }
    // Names that are similar are different ones: of macros, and of what is imported.
    for (x, y) in SIMILAR {
        for (x, y) in [(x, y), (y, x)] {
            let mac = |n: &str, id: &str| macro_(n, &["p"], vec![t(&format!("[{id} ")), outv("p"), t("]")]);
            let sc = |s: &str, n: &str| N::Call(Some(s.into()), n.into(), vec![(None, var("w"))], N0);
            let libs = || vec![("l1.txt".to_string(), vec![mac(x, "1x"), mac(y, "1y")]), ("l2.txt".to_string(), vec![mac(y, "2y"), mac(x, "2x")])];
            let imp = || vec![N::Import("l1.txt".into(), x.to_string(), N0), N::Import("l2.txt".into(), y.to_string(), N0)];
            let calls = |m: bool| {
                let mut v = if m { vec![call(x, vec![var("v")]), call(y, vec![var("w")]), t("/")] } else { vec![] };
                v.extend([sc(x, x), sc(x, y), sc(y, x), sc(y, y), t(";")]);
                v
            };
            for both in 0..3 {
                // The included file has none, one or both of its own.
                let own = match both {
                    0 => vec![],
                    1 => vec![mac(x, "ix")],
                    _ => vec![N::Import("l2.txt".into(), x.to_string(), N0), mac(y, "iy")],
                };
                for within in 0..3 {
                    let body = vec![vec![N::Include("i.txt".into(), N0)], calls(true)].concat();
                    let body = match within {
                        0 => body,
                        1 => vec![block("bl", body)],
                        _ => vec![macro_("outer", &["v", "w"], body), call("outer", vec![var("v"), var("w")])],
                    };
                    let mut fs = vec![("t.txt".to_string(), [imp(), vec![mac(x, "tx"), mac(y, "ty")], body].concat()), ("i.txt".to_string(), [own.clone(), calls(true)].concat())];
                    fs.extend(libs());
                    su.add(&Model::files("t.txt", fs.iter().map(|(n, x)| (n.as_str(), x.clone())).collect()).field("v", "i32").field("w", "i32"), &inp);
                }
                // Inherited blocks use what their own file defines.
                let mut fs = vec![
                    ("t.txt".to_string(), [vec![N::Extends("i.txt".into())], imp(), vec![mac(x, "tx"), mac(y, "ty"), block("a", [calls(true), vec![N::Super(N0)]].concat())]].concat()),
                    ("i.txt".to_string(), [imp(), vec![mac(x, "jx"), mac(y, "jy")], calls(true), vec![block("a", calls(true)), block("b", calls(true))]].concat()),
                ];
                fs.extend(libs());
                su.add(&Model::files("t.txt", fs.iter().map(|(n, x)| (n.as_str(), x.clone())).collect()).field("v", "i32").field("w", "i32"), &inp);
            }
        }
    }
    su.run(p, "c13-macros", 40);
}

/// A file that is referred to from one place only, wherever that is.
fn places(p: &mut Part, deep: bool) {
    let vars = ["v"];
    let k = |n: i64| E::Known(format!("{n}i32"), i(n));
    let inc = |f: &str| N::Include(f.into(), N0);
    let mut su = Suite::new();
    for a in 0..INNER {
        for b in 0..INNER {
            if !nests(a, b) {
                continue;
            }
            for o in std::iter::once(0).chain(INNER..INNER + OUTER) {
                for kind in 0..4 {
                    if !deep && o != 0 && b != 0 && (a + b + o + kind) % 14 != 0 || !deep && o == 0 && b != 0 && kind != 0 && (a + b) % 4 != kind {
                        continue;
                    }
                    let only = |body: Vec<N>| vec![t("<only "), outv("v")].into_iter().chain(body).chain([t(">")]).collect::<Vec<_>>();
                    let (mut pc, mut files) = (Piece::body(vec![t("["), inc("only.txt"), t("]")]), vec![]);
                    match kind {
                        0 => files.push(("only.txt", only(vec![]))),
                        // Two further steps.
                        1 => {
                            files.push(("only.txt", only(vec![inc("two.txt")])));
                            files.push(("two.txt", vec![t("(2"), for_("q9", E::Arr(vec![k(1)]), vec![inc("three.txt")]), t("2)")]));
                            files.push(("three.txt", vec![t("3"), outv("v")]));
                        }
                        // It inherits.
                        2 => {
                            files.push(("only.txt", vec![N::Extends("base9.txt".into()), block("b9", vec![t("mine"), outv("v"), inc("leaf.txt"), N::Super(N0)])]));
                            files.push(("base9.txt", vec![t("<base "), block("b9", vec![inc("leaf2.txt")]), t(">")]));
                            files.push(("leaf.txt", vec![t("{leaf"), outv("v"), t("}")]));
                            files.push(("leaf2.txt", vec![t("{leaf2"), outv("v"), t("}")]));
                        }
                        // It imports, and what it imports includes.
                        _ => {
                            files.push(("only.txt", vec![N::Import("lib9.txt".into(), "lib9".into(), N0), t("<only "), N::Call(Some("lib9".into()), "m9".into(), vec![(None, var("v"))], N0), t(">")]));
                            files.push(("lib9.txt", vec![macro_("m9", &["v"], vec![t("m9"), ifelse(E::Known("false".into(), V::B(false)), vec![inc("leaf.txt")], vec![inc("leaf2.txt")])])]));
                            files.push(("leaf.txt", vec![t("{leaf"), outv("v"), t("}")]));
                            files.push(("leaf2.txt", vec![t("{leaf2"), outv("v"), t("}")]));
                        }
                    }
                    pc.files.extend(files.into_iter().map(|(n, x)| (n.to_string(), x)));
                    let pc = inner(a, 1, inner(b, 2, pc, &vars, "txt"), &vars, "txt");
                    su.add(&outer(o, pc, "txt").field("v", "i32"), &[vec![i(5)]]);
                }
            }
        }
    }
    p.add("places", su.cases.len() as u64);
    su.run(p, "c13-places", 60);
}
