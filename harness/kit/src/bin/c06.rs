//! C06: whitespace control trims exactly the adjoining spans it names.
use vkit::e2e::*;
use vkit::filters::USER_FILTERS;
use vkit::model::*;
use vkit::part::*;

const SHAPES: [&str; 14] = ["", " ", "\n", "   ", " \n ", "\t", "\r\n", " \r\n\t\n", "\r", " \n a\t\n ", "\n\ta b\n ", " \u{c}\u{a0}\u{b} ", "a", "  é\r\n"];
const COMBOS: usize = 14 * 16;

enum It<'a> {
    Text(&'a mut String),
    Edge(&'a mut Option<W>),
}

fn tag<'a>(w: &'a mut Ws, o: &mut Vec<It<'a>>) {
    let Ws(a, b) = w;
    o.push(It::Edge(a));
    o.push(It::Edge(b));
}

/// Texts and tag edges in the order they appear in the source.
fn items<'a>(ns: &'a mut [N], o: &mut Vec<It<'a>>) {
    for n in ns {
        match n {
            N::Text(x) => o.push(It::Text(x)),
            N::Comment(_, w) | N::Expr(_, w) | N::Let(_, _, w) | N::Break(w) | N::Continue(w) | N::Super(w) => tag(w, o),
            N::Call(_, _, _, w) | N::Include(_, w) | N::Import(_, _, w) => tag(w, o),
            N::Raw(x, a, b) => {
                tag(a, o);
                o.push(It::Text(x));
                tag(b, o);
            }
            N::If(br, end) => {
                for (w, _, body) in br {
                    tag(w, o);
                    items(body, o);
                }
                tag(end, o);
            }
            N::Match(w, _, _, arms, end) => {
                tag(w, o);
                for (w, _, body) in arms {
                    tag(w, o);
                    items(body, o);
                }
                tag(end, o);
            }
            N::For(f) => {
                let f = &mut **f;
                tag(&mut f.ws1, o);
                items(&mut f.body, o);
                if let Some((w, b)) = &mut f.els {
                    tag(w, o);
                    items(b, o);
                }
                tag(&mut f.ws2, o);
            }
            N::Block(_, a, body, b) | N::Filter(_, a, body, b) => {
                tag(a, o);
                items(body, o);
                tag(b, o);
            }
            N::Macro(m) => {
                tag(&mut m.ws1, o);
                items(&mut m.body, o);
                tag(&mut m.ws2, o);
            }
            N::Extends(_) => {}
        }
    }
}

/// Gives every span of the source its markers and whitespace. Over the variants 0..COMBOS every
/// span takes every combination of (marker before, marker after, text).
fn spans(ns: &mut Vec<N>, variant: usize, salt: usize) -> u64 {
    let mut it = vec![];
    items(ns, &mut it);
    let mut n = 0;
    for k in 0..it.len() {
        if !matches!(it[k], It::Text(_)) {
            continue;
        }
        // Odd and not a multiple of 7, so that the map is a permutation.
        let m = [1, 3, 5, 9, 11, 13, 15, 17, 19, 23, 25, 27, 29, 31][(k + salt) % 14];
        let c = (variant * m + k * 37 + salt * 11) % COMBOS;
        if k > 0 {
            if let It::Edge(e) = &mut it[k - 1] {
                **e = FLAGS[c % 4];
            }
        }
        if let Some(It::Edge(e)) = it.get_mut(k + 1) {
            **e = FLAGS[c / 4 % 4];
        }
        if let It::Text(x) = &mut it[k] {
            **x = SHAPES[c / 16].to_string();
        }
        n += 1;
    }
    *ns = drop_empty(ns);
    n
}

fn drop_empty(ns: &[N]) -> Vec<N> {
    merge_texts(ns)
}

fn sp() -> N {
    t("?")
}

const KINDS: usize = 14;
const LEAVES: usize = 7;

/// Construct `k` with `b` as (part of) its body.
fn kind(k: usize, id: &mut usize, b: Vec<N>) -> Vec<N> {
    *id += 1;
    let pad = |b: Vec<N>| {
        let mut v = vec![sp()];
        v.extend(b);
        v.push(sp());
        v
    };
    let x = || pad(vec![outv("x")]);
    let nn = |k: i64| bin("==", E::Via(Box::new(var("n")), ".abs()".into()), int(k));
    match k {
        0 => vec![outv("x")],
        1 => vec![N::Comment(" c ".into(), N0)],
        2 => vec![let_("z", var("x"))],
        3 => vec![call("mm", vec![var("n"), var("x")])],
        4 => vec![N::Include("i.txt".into(), N0)],
        5 => vec![N::Raw("?".into(), N0, N0)],
        6 => vec![N::Call(Some("s".into()), "im".into(), vec![(None, var("x"))], N0)],
        7 => vec![N::If(vec![(N0, Some(Cond::Expr(nn(0))), pad(b)), (N0, Some(Cond::Expr(nn(1))), x()), (N0, None, x())], N0)],
        8 => vec![N::For(Box::new(For {
            ws1: N0,
            var: pn(&format!("i{id}")),
            iter: E::Range(Some(Box::new(int(0))), Some(Box::new(var("n"))), false),
            cond: None,
            body: pad(b),
            els: Some((N0, x())),
            ws2: N0,
        }))],
        9 => vec![N::Match(N0, var("n"), "".into(), vec![(N0, P::Lit(i(0)), x()), (N0, P::Lit(i(1)), pad(b)), (N0, pn("__else"), x())], N0)],
        10 => vec![block(&format!("b{id}"), pad(b))],
        11 => vec![N::Filter(vec![("wrap".into(), vec![])], N0, pad(b), N0)],
        12 | 13 => {
            let stop = if k == 12 { N::Break(N0) } else { N::Continue(N0) };
            let mut body = pad(vec![if_(nn(1), vec![sp(), stop, sp()])]);
            body.extend(pad(b));
            let body = merge_texts(&body);
            vec![for_(&format!("i{id}"), E::Known("[7, 8]".into(), V::L(vec![i(7), i(8)])), body)]
        }
        _ => panic!(),
    }
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let inputs: Vec<Vec<V>> = (0..3).map(|n| vec![i(n), s("X")]).collect();
    let mut su = Suite::new();
    let mut nspans = 0u64;

    // Skeleton A: every B inside A, and A before and after B.
    let skeleton = |a: usize| -> Model {
        let mut id = 0;
        let mut main = vec![];
        let add = |v: &mut Vec<N>, ns: Vec<N>| {
            v.push(sp());
            v.extend(ns);
        };
        add(&mut main, vec![N::Import("k.txt".into(), "s".into(), N0)]);
        let macro_body = |id: &mut usize, b: usize| {
            let mut v = vec![sp()];
            v.extend(kind(b, id, vec![outv("x")]));
            v.push(sp());
            v
        };
        add(&mut main, vec![N::Macro(MacroDef { name: "mm".into(), params: vec!["n".into(), "x".into()], ws1: N0, body: vec![sp(), outv("x"), sp()], ws2: N0 })]);
        for b in 0..KINDS {
            // No blocks inside filter blocks.
            if !(a == 11 && b == 10) && a >= LEAVES {
                let inner = kind(b, &mut id, vec![outv("x")]);
                let ns = kind(a, &mut id, inner);
                add(&mut main, ns);
            }
            let one = kind(b, &mut id, vec![outv("x")]);
            add(&mut main, one);
            let one = kind(a, &mut id, vec![outv("x")]);
            add(&mut main, one);
        }
        main.push(sp());
        if a != 10 && a != 3 && a != 6 {
            let body = macro_body(&mut id, a);
            add(&mut main, vec![N::Macro(MacroDef { name: "mz".into(), params: vec!["n".into(), "x".into()], ws1: N0, body, ws2: N0 })]);
            main.push(sp());
            main.push(call("mz", vec![var("n"), var("x")]));
        }
        let files = vec![
            ("t.txt", merge_texts(&main)),
            ("i.txt", vec![sp(), outv("x"), sp(), outv("n"), sp()]),
            ("k.txt", vec![sp(), N::Macro(MacroDef { name: "im".into(), params: vec!["x".into()], ws1: N0, body: vec![sp(), outv("x"), sp()], ws2: N0 }), sp()]),
        ];
        Model::files("t.txt", files)
    };
    let finish = |mut m: Model| {
        m.prelude = USER_FILTERS.into();
        m.field("n", "i32").field("x", "&'static str")
    };
    let modes = [(W::Preserve, "preserve"), (W::Suppress, "suppress"), (W::Minimize, "minimize")];
    for a in 0..KINDS {
        let sk = skeleton(a);
        for v in 0..COMBOS {
            for (k, (w, name)) in modes.iter().enumerate() {
                if !deep && (v + a) % 3 != k {
                    continue;
                }
                let mut m = sk.clone();
                for (salt, (_, ns)) in m.files.0.iter_mut().enumerate() {
                    nspans += spans(ns, v, salt + a);
                }
                m.ws = *w;
                m.attrs = format!(", whitespace = {name:?}");
                su.add(&finish(m), &inputs);
            }
        }
    }
    p.add("spans", nspans);
    su.run(&mut p, "c06-pairs", 16);

    texts(&mut p, deep, &modes, &inputs);

    // Inheritance: the spans of layout, overridden and nested blocks and super().
    let mut su = Suite::new();
    let mut nspans = 0;
    for v in 0..COMBOS {
        for (k, (w, name)) in modes.iter().enumerate() {
            if !deep && v % 3 != k {
                continue;
            }
            let bl = |n: &str, b: Vec<N>| block(n, b);
            let files = vec![
                ("t.txt", vec![N::Extends("p.txt".into()), sp(), bl("a", vec![sp(), N::Super(N0), sp(), outv("x"), sp()]), sp(), bl("c", vec![sp()]), sp(), bl("d", vec![sp(), N::Super(N0), sp(), N::Super(N0), sp()])]),
                ("p.txt", vec![N::Extends("g.txt".into()), sp(), bl("a", vec![sp(), bl("c", vec![sp(), outv("x"), sp()]), sp()]), sp(), bl("b", vec![sp(), N::Super(N0), sp()])]),
                (
                    "g.txt",
                    vec![sp(), bl("a", vec![sp()]), sp(), bl("b", vec![sp(), outv("n"), sp()]), sp(), outv("x"), sp(), bl("d", vec![sp(), N::Include("i.txt".into(), N0), sp()]), sp(), bl("e", vec![sp()]), sp()],
                ),
                ("i.txt", vec![sp(), outv("x"), sp(), if_(E::Known("true".into(), V::B(true)), vec![sp()]), sp()]),
            ];
            let mut m = Model::files("t.txt", files);
            for (salt, (_, ns)) in m.files.0.iter_mut().enumerate() {
                nspans += spans(ns, v, salt * 3);
            }
            m.ws = *w;
            m.attrs = format!(", whitespace = {name:?}");
            su.add(&finish(m), &inputs[1..2]);
        }
    }
    p.add("spans", nspans);
    su.run(&mut p, "c06-inherit", 40);

    // Where the default comes from: attribute x configuration, inline and on disk.
    let mut su = Suite::new();
    let cfg: [Option<&str>; 4] = [None, Some("preserve"), Some("suppress"), Some("minimize")];
    let w_of = |x: &str| modes.iter().find(|m| m.1 == x).unwrap().0;
    for c in cfg {
        for at in cfg {
            for v in 0..COMBOS {
                if !deep && v % 7 != 0 {
                    continue;
                }
                for disk in [false, true] {
                    let mut ns = vec![sp(), outv("x"), sp(), if_(E::Known("true".into(), V::B(true)), vec![sp(), outv("n"), sp()]), sp(), N::Raw("?".into(), N0, N0), sp(), N::Comment(" c ".into(), N0), sp()];
                    spans(&mut ns, v, 5);
                    let mut m = Model::inline(ns, false);
                    m.on_disk = disk;
                    m.ws = w_of(at.or(c).unwrap_or("preserve"));
                    if let Some(a) = at {
                        m.attrs = format!(", whitespace = {a:?}");
                    }
                    if let Some(c) = c {
                        m.config = Some(format!("[general]\ndirs = [\"@/\"]\nwhitespace = {c:?}\n"));
                    } else if v % 2 == 0 {
                        m.config = Some("[general]\ndirs = [\"@/\"]\n".into());
                    }
                    su.add(&finish(m), &inputs[1..2]);
                }
            }
        }
    }
    su.run(&mut p, "c06-defaults", 100);
    p.finish();
}

/// Every short text between two tags, with every pair of markers.
fn texts(p: &mut Part, deep: bool, modes: &[(W, &str); 3], inputs: &[Vec<V>]) {
    let mut all: Vec<String> = vec![];
    for (alphabet, len) in [(" \n\r\ta", if deep { 5 } else { 4 }), (" \u{b}\u{c}\u{85}\u{a0}\u{2003}\u{feff}\n\\\"é", if deep { 3 } else { 2 })] {
        let mut level = vec![String::new()];
        for _ in 0..=len {
            all.extend(level.iter().filter(|x| !x.is_empty()).cloned());
            level = level.iter().flat_map(|x| alphabet.chars().map(move |c| format!("{x}{c}"))).collect();
        }
    }
    let mut su = Suite::new();
    let spans: Vec<(&String, usize)> = all.iter().flat_map(|x| (0..16).map(move |c| (x, c))).collect();
    for (n, part) in spans.chunks(96).enumerate() {
        for (k, (w, name)) in modes.iter().enumerate() {
            let mut ns = vec![];
            let mut left = None;
            for (j, (x, c)) in part.iter().enumerate() {
                let mut e = || {
                    let w = Ws(std::mem::take(&mut left), FLAGS[c % 4]);
                    match (j + n + k) % 3 {
                        0 => N::Comment(" c ".into(), w),
                        1 => N::Let(pn("q"), Some(int(1)), w),
                        _ => N::Expr(var("n"), w),
                    }
                };
                ns.push(e());
                ns.push(t(x));
                left = FLAGS[c / 4];
            }
            ns.push(N::Expr(var("x"), Ws(left, None)));
            let mut m = Model::inline(ns, false);
            m.ws = *w;
            m.attrs = format!(", whitespace = {name:?}");
            su.add(&m.field("n", "i32").field("x", "&'static str"), &inputs[1..2]);
        }
    }
    p.add("spans", 3 * spans.len() as u64);
    su.run(p, "c06-texts", 16);
}
