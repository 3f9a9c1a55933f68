//! C16: filters and filter blocks apply in order to exactly their operand.
use vkit::contexts::*;
use vkit::e2e::*;
use vkit::filters::USER_FILTERS;
use vkit::model::*;
use vkit::part::*;

type Chain = Vec<(&'static str, Vec<E>)>;

fn known(n: i64) -> E {
    E::Known(n.to_string(), i(n))
}

/// Every filter of text, with arguments where it takes some.
fn all() -> Chain {
    let mut v: Chain = ["upper", "lower", "trim", "capitalize", "title", "linebreaks", "linebreaksbr", "paragraphbreaks", "urlencode", "urlencode_strict", "wordcount", "wrap", "amp", "escape", "e", "safe", "uppercase", "lowercase"]
        .iter()
        .map(|n| (*n, vec![]))
        .collect();
    v.extend([
        ("truncate", vec![int(3)]),
        ("truncate", vec![int(0)]),
        ("center", vec![int(9)]),
        ("indent", vec![int(2)]),
        ("rep", vec![int(2)]),
        ("rep", vec![int(0)]),
        ("cat", vec![st("<")]),
        ("cat", vec![var("y")]),
        ("cat2", vec![var("y"), st("z")]),
        ("fmt", vec![st("<{}]")]),
        ("escape", vec![st("none")]),
        ("e", vec![st("html")]),
    ]);
    v
}

/// Filters that do not commute with each other.
fn few() -> Chain {
    vec![
        ("wrap", vec![]),
        ("amp", vec![]),
        ("upper", vec![]),
        ("rep", vec![int(2)]),
        ("cat", vec![var("y")]),
        ("cat2", vec![st("'"), var("x")]),
        ("truncate", vec![int(5)]),
        ("e", vec![]),
        ("safe", vec![]),
        ("linebreaks", vec![]),
        ("trim", vec![]),
        ("escape", vec![st("none")]),
    ]
}

fn apply(e: E, c: &[(&'static str, Vec<E>)]) -> E {
    c.iter().fold(e, |e, (n, a)| filt(e, n, a.clone()))
}

fn fblock(c: &[(&'static str, Vec<E>)], b: Vec<N>) -> N {
    N::Filter(c.iter().map(|(n, a)| (n.to_string(), a.clone())).collect(), N0, b, N0)
}

fn base(nodes: Vec<N>, html: bool) -> Model {
    let mut m = Model::inline(nodes, html).field("x", "&'static str").field("y", "&'static str");
    m.prelude = USER_FILTERS.into();
    m
}

fn inputs() -> Vec<Vec<V>> {
    vec![vec![s("a<B> c\n\nd'é"), s("Y&")], vec![s(""), s("")], vec![s(" x\n&  "), s("\"ß")]]
}

/// Bodies of every kind of node. A body may need a file to include.
fn bodies() -> Vec<Vec<N>> {
    let list = |v: &[i64]| E::Arr(v.iter().map(|x| E::Known(format!("{x}i32"), i(*x))).collect());
    let some = |n: &str| P::Tuple("Some".into(), vec![pn(n)]);
    let tr = || E::Known("true".into(), V::B(true));
    let fa = || E::Known("false".into(), V::B(false));
    let brk = |n: N| {
        for_("q", list(&[1, 2, 3]), vec![outv("q"), if_(bin("==", cl("q"), int(2)), vec![n]), t(";")])
    };
    vec![
        vec![],
        vec![t("a<b")],
        vec![t(" \n")],
        vec![outv("x")],
        vec![out(filt(var("x"), "upper", vec![])), t(" ")],
        vec![out(filt(var("x"), "safe", vec![]))],
        vec![t("a"), outv("x"), t("b"), outv("y"), t("c")],
        vec![N::Comment(" c ".into(), N0)],
        vec![N::Raw("{{ x }}".into(), N0, N0)],
        vec![if_(tr(), vec![t("y"), outv("x")])],
        vec![if_(fa(), vec![t("n")])],
        vec![ifelse(fa(), vec![t("n")], vec![outv("y")])],
        vec![for_("q", list(&[1, 2]), vec![outv("q"), outv("x"), out(E::Loop("last"))])],
        vec![N::For(Box::new(For { ws1: N0, var: pn("q"), iter: list(&[1]), cond: Some(fa()), body: vec![t("no")], els: None, ws2: N0 }))],
        vec![brk(N::Break(N0))],
        vec![brk(N::Continue(N0))],
        vec![N::Match(N0, E::Ctor("Some".into(), vec![known(1)]), " ".into(), vec![(N0, some("q"), vec![outv("q"), outv("x")]), (N0, pn("__else"), vec![])], N0)],
        vec![if_(tr(), vec![let_("x", st("<l")), outv("x")]), outv("x")],
        vec![if_(tr(), vec![N::Let(pn("z"), None, N0), ifelse(fa(), vec![let_("z", st("1"))], vec![let_("z", st("2<"))]), outv("z")])],
        vec![call("m", vec![var("x")])],
        vec![call("m", vec![st("<")]), t("-"), call("m", vec![var("y")])],
        vec![fblock(&[("wrap", vec![])], vec![t("in"), outv("x")])],
        vec![t("1"), fblock(&[("rep", vec![int(2)])], vec![]), t("2"), fblock(&[("amp", vec![])], vec![t("<")])],
        vec![N::Include("inc".into(), N0)],
        vec![t("<"), N::Include("inc".into(), N0), t(">")],
    ]
}

fn macros() -> N {
    macro_("m", &["p"], vec![t("<m>"), outv("p"), fblock(&[("wrap", vec![]), ("safe", vec![])], vec![outv("p")])])
}

fn has_include(ns: &[N]) -> bool {
    ns.iter().any(|n| match n {
        N::Include(..) => true,
        N::Filter(_, _, b, _) => has_include(b),
        N::If(b, _) => b.iter().any(|b| has_include(&b.2)),
        N::For(f) => has_include(&f.body),
        _ => false,
    })
}

fn rename(ns: &mut [N], f: &str) {
    for n in ns {
        match n {
            N::Include(p, _) => *p = f.into(),
            N::Filter(_, _, b, _) => rename(b, f),
            N::If(b, _) => b.iter_mut().for_each(|b| rename(&mut b.2, f)),
            N::For(l) => rename(&mut l.body, f),
            _ => {}
        }
    }
}

fn included() -> Vec<N> {
    vec![t("<i>"), outv("x"), fblock(&[("upper", vec![])], vec![t("i"), outv("y")]), t("</i>")]
}

/// A template of these nodes, with the macro and the file the bodies use.
fn full(mut nodes: Vec<N>, html: bool) -> Model {
    let inc = has_include(&nodes);
    nodes.insert(0, macros());
    if !inc {
        return base(nodes, html);
    }
    let ext = if html { "html" } else { "txt" };
    rename(&mut nodes, &format!("inc.{ext}"));
    let mut m = Model::files(&format!("t.{ext}"), vec![(&format!("t.{ext}"), nodes), (&format!("inc.{ext}"), included())]).field("x", "&'static str").field("y", "&'static str");
    m.prelude = USER_FILTERS.into();
    m
}

fn chains(deep: bool) -> Vec<Chain> {
    let (a, f) = (all(), few());
    let mut v: Vec<Chain> = a.iter().map(|x| vec![x.clone()]).collect();
    for x in &a {
        for y in &a {
            v.push(vec![x.clone(), y.clone()]);
        }
    }
    let three = if deep { &a } else { &f };
    for x in three {
        for y in three {
            for z in three {
                v.push(vec![x.clone(), y.clone(), z.clone()]);
            }
        }
    }
    if deep {
        for k in 0..6usize.pow(4) {
            v.push((0..4).map(|d| f[k / 6usize.pow(d) % 6].clone()).collect());
        }
    }
    v
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let inp = inputs();
    let cs = chains(deep);
    p.add("chains", cs.len() as u64);

    // Chains as outputs: every one next to the others, before, after and within a repetition.
    let mut su = Suite::new();
    for (k, g) in cs.chunks(6).enumerate() {
        let mut ns = vec![];
        for c in g {
            ns.extend([out(apply(var("x"), c)), t("|")]);
        }
        match k % 4 {
            0 => ns.extend(g.iter().rev().map(|c| out(apply(var("x"), c)))),
            1 => ns.extend(g.iter().map(|c| out(apply(var("y"), c)))),
            2 => ns.push(for_("q", E::Arr(vec![known(1), known(2)]), vec![out(apply(var("x"), &g[0])), t(","), out(apply(var("x"), &g[0])), outv("q")])),
            _ => ns.extend([let_("x", st("<n")), out(apply(var("x"), &g[0])), out(apply(var("x"), &g[g.len() - 1]))]),
        }
        su.add(&base(ns, k % 3 != 0), &inp);
    }
    su.run(&mut p, "chains", 120);

    // Chains anywhere an expression may stand, on every operand form.
    let mut su = Suite::new();
    let two: Vec<&Chain> = cs.iter().filter(|c| c.len() == 2 && few().contains(&c[0]) && few().contains(&c[1])).collect();
    for (k, c) in two.iter().enumerate() {
        let ops: Vec<E> = vec![
            st("l<"),
            E::SelfF("y".into()),
            E::Group(Box::new(var("x"))),
            E::Via(Box::new(var("x")), ".to_string()".into()),
            int(-7),
            E::Group(Box::new(bin("+", int(1), int(2)))),
            lit(V::C('<')),
            E::Known("true".into(), V::B(true)),
            E::Known("\"a<\".len()".into(), i(2)),
            E::Known("format!(\"<{}\", 1)".into(), s("<1")),
            E::Known("\"{}\".replace(\"{\", \"<\")".into(), s("<}")),
        ];
        // A literal such as `-7` is an operator applied to the filtered number.
        let neg = |e: &E| matches!(e, E::Lit(V::I(n)) if *n < 0);
        let mut ns = vec![];
        for o in ops.iter().filter(|o| !neg(o)) {
            ns.extend([out(apply(o.clone(), c)), t("|")]);
        }
        su.add(&base(ns, k % 2 == 0), &inp);
        let e = || apply(var("x"), c);
        let str_of = |e: E| E::Via(Box::new(E::Group(Box::new(e))), ".to_string()".into());
        let last = c[1].0;
        // A chain that ends in two built-in filters borrows from a temporary value, which Rust
        // does not allow in a `let` (and `call`).
        let user = |n: &str| ["wrap", "amp", "rep", "cat", "cat2"].contains(&n);
        let keeps = user(last);
        if !["e", "escape", "safe"].contains(&last) {
            let z = || if keeps { e() } else { st("z<") };
            let ns = vec![
                let_("z", z()),
                outv("z"),
                t("|"),
                out(filt(var("z"), "wrap", vec![])),
                t("|"),
                if_(E::Known("true".into(), V::B(true)), vec![out(e()), let_("z", st("in")), outv("z")]),
                out(filt(st("<"), "cat", vec![e()])),
                out(filt(e(), "cat2", vec![e(), filt(e(), "upper", vec![])])),
                N::Match(N0, E::Ctor("Some".into(), vec![e()]), "".into(), vec![(N0, P::Tuple("Some".into(), vec![pn("w")]), vec![outv("w")]), (N0, pn("__else"), vec![])], N0),
                ifelse(bin("==", str_of(e()), str_of(e())), vec![t("eq")], vec![t("ne")]),
                call("m", vec![z()]),
                fblock(c, vec![out(e())]),
                outv("z"),
            ];
            su.add(&full(ns, k % 2 == 1), &inp);
        }
    }
    // Arguments of every form, numbers and lists as operands.
    let nums: Vec<E> = vec![int(2), bin("+", int(1), int(1)), E::Group(Box::new(int(2))), E::Known("\"ab\".len()".into(), i(2)), E::Known("usize::min(2, 5)".into(), i(2)), var("n"), E::SelfF("n".into()), bin("*", var("n"), int(1)), filt(st("a b"), "wordcount", vec![]), E::Via(Box::new(var("n")), ".clone()".into())];
    let texts: Vec<E> = vec![st("<"), var("y"), E::SelfF("y".into()), filt(var("y"), "upper", vec![]), filt(var("y"), "safe", vec![]), filt(filt(st("a"), "cat", vec![var("y")]), "wrap", vec![]), int(5), bin("+", var("n"), int(1)), lit(V::C('"')), E::Via(Box::new(var("y")), ".trim()".into()), E::Group(Box::new(var("x"))), E::Known("concat!(\"<\", 1)".into(), s("<1")), filt(var("y"), "cat2", vec![var("x"), var("n")])];
    for (k, a) in texts.iter().enumerate() {
        for (l, b) in texts.iter().enumerate() {
            for n in [&nums[(k + l) % nums.len()], &nums[(k * 3 + l) % nums.len()]] {
                let cat2 = |e: E| filt(e, "cat2", vec![a.clone(), b.clone()]);
                let ns = vec![
                    out(filt(cat2(var("x")), "rep", vec![n.clone()])),
                    t("|"),
                    out(cat2(filt(filt(var("y"), "rep", vec![n.clone()]), "cat", vec![b.clone()]))),
                    t("|"),
                    N::Filter(vec![("cat2".into(), vec![a.clone(), b.clone()]), ("rep".into(), vec![n.clone()])], N0, vec![outv("y"), t("b")], N0),
                    N::Filter(vec![("rep".into(), vec![n.clone()]), ("cat".into(), vec![b.clone()]), ("cat".into(), vec![a.clone()])], N0, vec![], N0),
                    t("|"),
                    out(filt(if matches!(a, E::Bin(..)) { E::Group(Box::new(a.clone())) } else { a.clone() }, "cat", vec![b.clone()])),
                ];
                let m = base(ns, (k + l) % 2 == 0).field("n", "usize");
                let inp: Vec<Vec<V>> = inp.iter().map(|v| { let mut v = v.clone(); v.push(i(2)); v }).collect();
                su.add(&m, &inp);
            }
        }
    }
    let list = || E::Arr(vec![st("a"), var("x"), st("c")]);
    let lists: Vec<E> = vec![
        filt(list(), "join", vec![st("<")]),
        filt(filt(list(), "join", vec![var("y")]), "upper", vec![]),
        filt(filt(filt(list(), "join", vec![filt(var("y"), "wrap", vec![])]), "cat", vec![var("x")]), "safe", vec![]),
        filt(filt(E::Arr(vec![known(1), known(2), known(3)]), "join", vec![st(",")]), "wrap", vec![]),
        filt(filt(un("-", filt(int(3), "abs", vec![])), "inc", vec![int(1)]), "wrap", vec![]),
        filt(filt(filt(int(3), "inc", vec![filt(int(4), "mag", vec![])]), "inc", vec![int(5)]), "rep", vec![int(2)]),
    ];
    for (k, e) in lists.iter().enumerate() {
        if k == 4 {
            continue;
        }
        for f in few() {
            let e2 = filt(e.clone(), f.0, f.1.clone());
            su.add(&base(vec![out(e.clone()), t("|"), out(e2.clone()), out(e.clone()), out(e2)], true), &inp);
        }
    }
    su.run(&mut p, "operands", 120);

    // Filter blocks: every chain of one or two over every body.
    let mut su = Suite::new();
    let one_two: Vec<&Chain> = cs.iter().filter(|c| c.len() == 1 || (c.len() == 2 && (deep || few().contains(&c[0]) && few().contains(&c[1])))).collect();
    for (ci, c) in one_two.iter().enumerate() {
        for (bi, b) in bodies().iter().enumerate() {
            if !deep && c.len() == 2 && (ci + bi) % 2 == 0 {
                continue;
            }
            // What surrounds the block stays as it is.
            let fb = fblock(c, b.clone());
            let ns = match (ci + bi) % 5 {
                0 => vec![fb],
                1 => vec![t("<"), fb, t(">")],
                2 => vec![outv("x"), fb, outv("x")],
                3 => vec![out(apply(var("x"), c)), fb.clone(), t(" "), fb],
                _ => vec![t("a"), outv("y"), fb, t("\n"), outv("y"), t("b")],
            };
            su.add(&full(ns, (ci + bi) % 3 != 2), &inp);
        }
    }
    for c in cs.iter().filter(|c| c.len() >= 3) {
        su.add(&full(vec![t("("), fblock(c, vec![t("a<"), outv("x"), t("\n")]), t(")"), fblock(c, vec![])], true), &inp);
    }
    su.run(&mut p, "blocks", 120);

    // Bodies of two parts, blocks next to each other, blocks in blocks.
    let mut su = Suite::new();
    let f = few();
    let bs = bodies();
    for (a, ba) in bs.iter().enumerate() {
        for (b, bb) in bs.iter().enumerate() {
            let two = || ba.iter().chain(bb).cloned().collect::<Vec<_>>();
            let c = |k: usize| vec![f[k % f.len()].clone(), f[(k / 3 + b) % f.len()].clone()];
            su.add(&full(vec![t("1"), fblock(&c(a), two()), t("2")], true), &inp);
            su.add(&full(vec![t("1"), fblock(&c(a), ba.clone()), fblock(&c(a + b), bb.clone()), outv("y")], a % 2 == 0), &inp);
            let mut nest = vec![fblock(&c(b), bb.clone())];
            nest.extend(ba.iter().cloned());
            if b % 2 == 0 {
                nest.rotate_left(1);
            }
            su.add(&full(vec![outv("x"), fblock(&c(a), nest), t("2")], b % 2 == 0), &inp);
        }
    }
    // Blocks nested three deep with text at every level.
    let n = if deep { f.len() } else { 7 };
    for k in 0..n * n * n {
        let (a, b, c) = (&f[k % n], &f[k / n % n], &f[k / n / n]);
        let fb = |x: &(&'static str, Vec<E>), b: Vec<N>| fblock(&[x.clone()], b);
        let ns = vec![t("0"), fb(a, vec![t("a<"), fb(b, vec![t("b<"), fb(c, vec![t("c<"), outv("x")]), outv("y")]), outv("x"), fb(c, vec![])]), outv("y")];
        su.add(&base(ns, k % 2 == 0), &inp);
    }
    su.run(&mut p, "pairs", 120);

    // Filter blocks in every construct and pair of constructs.
    let mut su = Suite::new();
    let piece = |k: usize| {
        let c = |k: usize| vec![f[k % f.len()].clone(), f[(k / 5) % f.len()].clone()];
        let mut b = bs[k % bs.len()].clone();
        // The surrounding models have their own macros and files.
        if has_include(&b) || format!("{b:?}").contains("Call") {
            b = vec![t("r<"), for_("w", E::Arr(vec![known(1)]), vec![outv("w"), outv("x")])];
        }
        Piece::body(vec![t("["), fblock(&c(k), b), t("]"), out(apply(var("y"), &c(k))), fblock(&c(k + 1), vec![outv("x")])])
    };
    let mut k = 0;
    for o in std::iter::once(0).chain(INNER..INNER + OUTER) {
        for a in 0..INNER {
            for v in 0..if deep { 25 } else { 8 } {
                k += 1;
                let ext = if (k / 3) % 2 == 0 { "html" } else { "txt" };
                let m = outer(o, inner(a, 1, piece(v * 3 + k), &["x", "y"], ext), ext).field("x", "&'static str").field("y", "&'static str");
                su.add(&m, &inp);
            }
        }
    }
    for a in 1..INNER {
        for b in 1..INNER {
            if !nests(a, b) {
                continue;
            }
            for v in 0..if deep { 10 } else { 3 } {
                k += 1;
                let ext = if k % 2 == 0 { "html" } else { "txt" };
                let m = outer(0, inner(a, 1, inner(b, 2, piece(v * 7 + k), &["x", "y"], ext), &["x", "y"], ext), ext).field("x", "&'static str").field("y", "&'static str");
                su.add(&m, &inp);
            }
        }
    }
    su.run(&mut p, "contexts", 60);
    p.finish();
}
