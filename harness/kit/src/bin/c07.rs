//! C07: loops visit every selected item once, in order, with correct loop variables.
use vkit::e2e::*;
use vkit::filters::USER_FILTERS;
use vkit::model::*;
use vkit::part::*;

fn vecs(max: usize, dom: &[i64]) -> Vec<Vec<i64>> {
    let mut all = vec![vec![]];
    let mut cur: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for v in &cur {
            for d in dom {
                let mut w = v.clone();
                w.push(*d);
                next.push(w);
            }
        }
        all.extend(next.clone());
        cur = next;
    }
    all
}

fn lp(x: &'static str) -> N {
    out(E::Loop(x))
}

/// Prints everything the loop offers.
fn probe(v: &str) -> Vec<N> {
    vec![
        outv(v), t(":"), lp("index"), lp("index0"), if_(E::Loop("first"), vec![t("F")]), if_(E::Loop("last"), vec![t("L")]),
        out(E::Cycle(vec![st("x"), st("y"), st("z")])), t(";"),
    ]
}

fn forx(v: P, iter: E, cond: Option<E>, body: Vec<N>, els: Option<Vec<N>>) -> N {
    N::For(Box::new(For { ws1: N0, var: v, iter, cond, body, els: els.map(|b| (N0, b)), ws2: N0 }))
}

fn eq(v: &str, k: i64) -> E {
    bin("==", cl(v), int(k))
}

/// Middle parts of a loop body with variable `v`, `d` levels of nesting left. Fields: v (list), w (list).
fn middles(v: &str, d: usize) -> Vec<Vec<N>> {
    let mut m: Vec<Vec<N>> = vec![
        vec![],
        vec![if_(eq(v, 1), vec![N::Break(N0)])],
        vec![if_(eq(v, 1), vec![N::Continue(N0)])],
        vec![if_(eq(v, 1), vec![t("b"), N::Break(N0)])],
        vec![ifelse(eq(v, 2), vec![t("<"), N::Continue(N0)], vec![t(">")])],
        vec![if_(E::Loop("last"), vec![N::Continue(N0)])],
        vec![if_(E::Loop("first"), vec![N::Break(N0)])],
        vec![N::Match(N0, cl(v), "".into(), vec![(N0, P::Lit(i(0)), vec![N::Continue(N0)]), (N0, P::Lit(i(2)), vec![t("2"), N::Break(N0)]), (N0, P::Wild, vec![t("w")])], N0)],
        vec![let_("q", E::Loop("index")), t("("), outv("q"), t(")")],
        vec![let_(v, E::Cycle(vec![E::Known("7i32".into(), i(7)), E::Known("8i32".into(), i(8))])), outv(v)],
    ];
    // Leaving the loop from within filter blocks.
    let f = |n: &str, b: Vec<N>| N::Filter(vec![(n.into(), vec![])], N0, b, N0);
    let two = || E::Known("0i32..2".into(), V::L(vec![i(0), i(1)]));
    m.push(vec![f("upper", vec![t("f"), if_(eq(v, 1), vec![t("b"), outv(v), N::Break(N0)]), t("g")]), t("h")]);
    m.push(vec![f("upper", vec![t("f"), ifelse(eq(v, 1), vec![t("b"), N::Continue(N0)], vec![t("e")]), lp("index")])]);
    m.push(vec![f("wrap", vec![t("f"), f("upper", vec![t("i"), N::Match(N0, cl(v), "".into(), vec![(N0, P::Lit(i(0)), vec![t("c"), N::Continue(N0)]), (N0, P::Lit(i(2)), vec![t("b"), N::Break(N0)]), (N0, P::Wild, vec![t("w")])], N0), t("j")]), t("g")]), t("h")]);
    m.push(vec![f("wrap", vec![t("f"), forx(pn("k"), two(), None, vec![t("k"), f("upper", vec![t("u"), if_(eq("k", 1), vec![N::Break(N0)]), t("v")]), t("l")], None), if_(eq(v, 1), vec![N::Continue(N0)]), t("g")]), f("lower", vec![t("X"), if_(eq(v, 2), vec![N::Break(N0)])])]);
    m.push(vec![f("wrap", vec![t("f"), forx(pn("k"), two(), Some(eq("k", 5)), vec![N::Break(N0)], Some(vec![t("e"), if_(eq(v, 1), vec![N::Continue(N0)]), if_(eq(v, 2), vec![N::Break(N0)]), t("s")])), t("g")])]);
    if d > 0 {
        let inner = if v == "x" { "y" } else { "z" };
        let conds = [None, Some(bin("!=", cl(inner), int(1))), Some(bin("==", cl(inner), cl(v)))];
        for (k, c) in conds.iter().enumerate() {
            for b in middles(inner, d - 1).into_iter().take(if d > 1 { 14 } else { 8 }) {
                for els in [None, Some(vec![t("E"), outv(v), lp("index")])] {
                    if k == 2 && els.is_none() {
                        continue;
                    }
                    let mut body = probe(inner);
                    body.extend(b.clone());
                    body.push(t(","));
                    m.push(vec![t("["), forx(pn(inner), var("w"), c.clone(), body, els), t("]")]);
                }
            }
        }
        // The inner loop shadows the outer variable; break/continue in the inner else body belong outside.
        m.push(vec![forx(pn(v), var("w"), None, probe(v), None), outv(v)]);
        m.push(vec![forx(pn(inner), var("w"), Some(eq(inner, 9)), vec![], Some(vec![t("B"), N::Break(N0)]))]);
        m.push(vec![forx(pn(inner), var("w"), Some(bin(">", cl(inner), cl(v))), vec![t("i")], Some(vec![t("C"), N::Continue(N0)]))]);
        m.push(vec![forx(pn(inner), E::Range(Some(Box::new(int(0))), Some(Box::new(cl(v))), false), None, probe(inner), Some(vec![t("0")]))]);
        m.push(vec![forx(pn(inner), E::Range(Some(Box::new(E::Loop("index0")))  , Some(Box::new(int(2))), true), None, probe(inner), None)]);
    }
    m
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let mut su = Suite::new();
    let vs = vecs(3, &[0, 1, 2]);
    let lists: Vec<V> = vs.iter().map(|v| V::L(v.iter().map(|k| i(*k)).collect())).collect();
    let wsel: Vec<V> = vec![V::L(vec![]), V::L(vec![i(1)]), V::L(vec![i(0), i(1), i(2)]), V::L(vec![i(2), i(1), i(1)])];
    let mut inputs1 = vec![];
    let mut inputs2 = vec![];
    for l in &lists {
        inputs1.push(vec![l.clone(), wsel[2].clone()]);
        for w in &wsel {
            inputs2.push(vec![l.clone(), w.clone()]);
        }
    }
    if !deep {
        // Nested: all outer lists of length <= 2.
        inputs2.retain(|x| x[0].items().len() <= 2 || x[0] == V::L(vec![i(0), i(2), i(1)]));
    }
    let conds: Vec<Option<E>> = vec![
        None,
        Some(bin("!=", cl("x"), int(1))),
        Some(bin(">", cl("x"), int(0))),
        Some(eq("x", 7)),
        Some(bin("||", eq("x", 0), eq("x", 2))),
    ];
    let els = [None, Some(vec![t("none")]), Some(vec![])];
    let ty = "&'static [i32]";
    let add = |su: &mut Suite, nodes: Vec<N>, inputs: &[Vec<V>]| {
        let mut m = Model::inline(nodes, false).field("v", ty).field("w", ty);
        m.prelude = USER_FILTERS.into();
        su.add(&m, inputs);
    };
    let depth = if deep { 2 } else { 1 };
    let plain = middles("x", 0).len();
    for c in &conds {
        for e in &els {
            for (k, mid) in middles("x", depth).into_iter().enumerate() {
                let mut body = probe("x");
                body.extend(mid);
                body.push(t("/"));
                if k < plain || c.is_none() || e.is_none() {
                    // What follows an inner loop sees the outer loop again.
                    body.extend(probe("x"));
                }
                let n = forx(pn("x"), var("v"), c.clone(), body, e.clone());
                let nested = k >= plain;
                if nested && !deep && (c.is_some() && e.is_some() || e == &els[2]) {
                    continue;
                }
                add(&mut su, vec![t("a"), n, t("z")], if nested { &inputs2 } else { &inputs1 });
            }
        }
    }
    // Two statements in a row.
    let ms = middles("x", if deep { 1 } else { 0 });
    for c in conds.iter().take(if deep { 5 } else { 2 }) {
        for (j, m1) in ms.iter().enumerate() {
            for (k, m2) in ms.iter().enumerate() {
                if j == 0 || k == 0 || j >= 30 || k >= 30 {
                    continue;
                }
                let mut body = vec![outv("x")];
                body.extend(m1.clone());
                body.extend([t("."), lp("index")]);
                body.extend(m2.clone());
                body.push(lp("index0"));
                add(&mut su, vec![forx(pn("x"), var("v"), c.clone(), body, els[(j + k) % 3].clone()), t("z")], if j < plain && k < plain { &inputs1 } else { &inputs2 });
            }
        }
    }
    // Forms of the iterated expression and of the loop target.
    let small: Vec<Vec<V>> = inputs1.iter().filter(|x| x[0].items().len() <= 2).cloned().collect();
    let iters: Vec<(E, bool)> = vec![
        (var("v"), true),
        (E::SelfF("v".into()), true),
        (E::Group(Box::new(var("v"))), true),
        (E::Known("[2i32, 1, 0]".into(), V::L(vec![i(2), i(1), i(0)])), true),
        (E::Known("0i32..3".into(), V::L(vec![i(0), i(1), i(2)])), true),
        (E::Known("0..=3i32".into(), V::L(vec![i(0), i(1), i(2), i(3)])), true),
        (E::Known("(0i32..3).rev()".into(), V::L(vec![i(2), i(1), i(0)])), true),
        (E::Known("v.iter()".into(), V::None_), true),
        (E::Known("v.iter().rev()".into(), V::None_), true),
        (E::Known("v.iter().skip(1)".into(), V::None_), true),
        (E::Known("v.to_vec()".into(), V::None_), true),
        (E::Known("v[..]".into(), V::None_), true),
    ];
    for inp in &small {
        for (it, _) in &iters {
            // Known texts get their value per input.
            let it = match it {
                E::Known(x, _) => {
                    let mut l = if let (false, E::Known(_, V::L(l))) = (x.starts_with('v'), it) { l.clone() } else { inp[0].items() };
                    if x.starts_with("v.iter().rev") {
                        l.reverse();
                    }
                    if x.contains("skip") && !l.is_empty() {
                        l.remove(0);
                    }
                    E::Known(x.clone(), V::L(l))
                }
                x => x.clone(),
            };
            let mut body = probe("x");
            body.push(if_(bin("==", cl("x"), int(1)), vec![N::Continue(N0)]));
            body.push(t("."));
            let n = forx(pn("x"), it.clone(), Some(bin("<", cl("x"), int(2))), body, Some(vec![t("none")]));
            add(&mut su, vec![n], &[inp.clone()]);
            if inp[0].items().len() > 1 {
                let n = forx(pn("x"), it, None, probe("x"), None);
                add(&mut su, vec![n.clone(), t("|"), n], &[inp.clone()]);
            }
        }
    }
    // Destructuring targets, two loops in a row, loops in other constructs.
    let pairs: Vec<V> = vec![V::L(vec![]), V::L(vec![V::T(vec![i(1), i(2)]), V::T(vec![i(3), i(1)]), V::T(vec![i(2), i(2)])]), V::L(vec![V::T(vec![i(0), i(0)])])];
    let pin: Vec<Vec<V>> = pairs.iter().map(|x| vec![x.clone()]).collect();
    let targets = [
        P::Tuple("".into(), vec![pn("x"), pn("y")]),
        P::Tuple("".into(), vec![pn("x"), P::Wild]),
        P::Tuple("".into(), vec![P::Wild, pn("x")]),
        P::Tuple("".into(), vec![pn("y"), pn("x")]),
        pn("p"),
    ];
    for tg in &targets {
        for c in [None, Some(bin("!=", cl("x"), int(2)))] {
            for e in &els[..2] {
                if tg == &targets[4] && c.is_some() {
                    continue;
                }
                let mut body = match tg {
                    P::Name(_) => vec![out(attr(var("p"), "0")), t("-"), out(attr(var("p"), "1"))],
                    _ => probe("x"),
                };
                if matches!(tg, P::Tuple(_, x) if x.iter().all(|q| q != &P::Wild)) {
                    body.push(outv("y"));
                }
                let f = forx(tg.clone(), var("ps"), c.clone(), body, e.clone());
                su.add(&Model::inline(vec![f.clone(), t("|"), f], false).field("ps", "&'static [(i32, i32)]"), &pin);
            }
        }
    }
    // Loops inside of macros, blocks, filter blocks and branches keep their own loop state.
    for c in [None, Some(bin("!=", cl("x"), int(1)))] {
        for mid in middles("x", 0) {
            let mut body = probe("x");
            body.extend(mid);
            let f = forx(pn("x"), var("v"), c.clone(), body, Some(vec![t("none")]));
            let fm = match &f {
                N::For(b) => N::For(Box::new(For { iter: var("arg"), ..(**b).clone() })),
                _ => unreachable!(),
            };
            let wrapped: Vec<Vec<N>> = vec![
                vec![block("b", vec![f.clone()]), t("!")],
                vec![macro_("m", &["arg"], vec![fm.clone()]), call("m", vec![var("v")]), t("|"), call("m", vec![var("v")])],
                vec![macro_("m", &["arg"], vec![fm]), forx(pn("o"), var("v"), None, vec![lp("index"), call("m", vec![var("v")]), lp("index"), t("|")], None)],
                vec![N::Filter(vec![("upper".into(), vec![])], N0, vec![t("f"), f.clone()], N0)],
                vec![forx(pn("o"), var("v"), None, vec![N::Filter(vec![("upper".into(), vec![])], N0, vec![lp("index"), t("q")], N0), lp("index"), if_(E::Loop("last"), vec![f.clone()])], None)],
                vec![ifelse(lit(V::B(true)), vec![f.clone()], vec![]), f.clone()],
            ];
            for w in wrapped {
                add(&mut su, w, &small);
            }
        }
    }
    // A block or filter block that ends the loop or the round, with and without a condition.
    for n in 0..2 {
        let end = || if n == 0 { N::Break(N0) } else { N::Continue(N0) };
        let fl = |b: Vec<N>| N::Filter(vec![("upper".into(), vec![])], N0, b, N0);
        let many = || bin("!=", var("v"), var("w"));
        let bodies = vec![
            vec![t("a"), block("b", vec![t("b"), end()])],
            vec![t("a"), block("b", vec![t("b"), if_(many(), vec![t("m"), end()]), t("c")]), t("d")],
            vec![t("a"), block("b", vec![t("b"), fl(vec![t("f"), if_(many(), vec![t("m"), end()]), t("g")]), t("c")]), t("d")],
            vec![t("a"), fl(vec![t("f"), end()])],
            vec![t("a"), fl(vec![end()])],
            vec![fl(vec![fl(vec![t("f"), outv("x"), end()])])],
            vec![t("a"), fl(vec![t("f"), block("b", vec![t("k"), if_(many(), vec![t("m"), end()]), t("c")]), t("g")]), t("d")],
            vec![t("a"), fl(vec![t("f"), fl(vec![t("h"), block("b", vec![end()])]), t("g")]), t("d")],
            vec![t("a"), fl(vec![t("f"), block("b", vec![t("k"), fl(vec![t("h"), if_(many(), vec![end()]), t("i")])]), t("g")]), t("d")],
            vec![if_(many(), vec![t("p"), fl(vec![t("f"), outv("x"), if_(bin("==", cl("x"), int(1)), vec![end()]), let_("x", int(3)), outv("x")]), t("q")]), outv("x")],
        ];
        for b in bodies {
            for e in [None, Some(vec![t("none")])] {
                add(&mut su, vec![t("<"), forx(pn("x"), var("v"), None, b.clone(), e.clone()), t(">")], &small);
                add(&mut su, vec![t("<"), forx(pn("x"), var("v"), Some(bin("!=", cl("x"), int(1))), [b.clone(), vec![t("z")]].concat(), e), t(">")], &inputs1);
            }
        }
    }
    // Long sequences, with and without a known length, and deeply nested loops.
    for n in [7i64, 9, 10, 16, 31, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 32769, 65537] {
        let cyc = E::Cycle((1..8).map(int).collect());
        let full = n <= 1000;
        let mut body = if full { vec![outv("x"), t(":"), lp("index0"), t("/"), lp("index"), out(cyc)] } else { vec![] };
        body.push(if_(E::Loop("first"), vec![t("F")]));
        body.push(if_(E::Loop("last"), vec![t("L"), lp("index"), lp("index0")]));
        let all = E::Known(format!("0i32..{n}"), V::L((0..n).map(i).collect()));
        let fil = E::Known(format!("crate::evens({n})"), V::L((0..n).filter(|x| x % 2 == 0).map(i).collect()));
        for (k, e) in [all, fil].into_iter().enumerate() {
            for c in [None, Some(bin("!=", cl("x"), int(n - 1)))] {
                if k == 1 && c.is_some() {
                    continue;
                }
                add(&mut su, vec![forx(pn("x"), e.clone(), c, body.clone(), Some(vec![t("none")])), t("z")], &inputs1[..1]);
            }
        }
        // Break and continue far into the sequence.
        let e = E::Known(format!("0i32..{}", n + 50), V::L((0..n + 50).map(i).collect()));
        let b = vec![if_(eq("x", n), vec![lp("index"), N::Break(N0)]), if_(bin("<", cl("x"), int(n - 2)), vec![N::Continue(N0)]), outv("x"), lp("index0"), t(",")];
        add(&mut su, vec![forx(pn("x"), e, None, b, Some(vec![t("none")])), t("z")], &inputs1[..1]);
    }
    for d in 3..=8usize {
        let mut n = vec![outv("x0")];
        for k in (0..d).rev() {
            let x = format!("x{k}");
            let mut b = probe(&x);
            b.extend(n);
            b.extend([lp("index"), if_(E::Loop("last"), vec![t("l")]), t(";")]);
            let e = E::Known("0i32..2".into(), V::L(vec![i(0), i(1)]));
            n = vec![forx(pn(&x), e, if k % 2 == 1 { Some(bin("<", cl(&x), int(1))) } else { None }, b, Some(vec![t("none")]))];
        }
        add(&mut su, n, &inputs1[..1]);
    }
    su.run(&mut p, "c07", 60);
    // A condition or body with effects: each item is asked about once, in order.
    let mut cases = vec![];
    for k in 0..vs.len() {
        let v = &vs[k];
        let src = "{% for x in v if crate::tb(*x * 10, *x != 1) %}{{ crate::tr(x.abs()) }},{% else %}{{ crate::tr(77) }}{% endfor %}";
        let src = src.replace("*x", "x.abs()");
        let vis: Vec<i64> = v.iter().copied().filter(|x| *x != 1).collect();
        let want: String = if vis.is_empty() { "77".into() } else { vis.iter().map(|x| format!("{x},")).collect() };
        let mut c = Case::source(format!("{src} {v:?}"), src.clone(), "txt");
        c.fields = vec![("v".into(), ty.into())];
        c.runs.push(Run { init: vec![format!("&{v:?}")], expect: Expect::Out(want), trace: None, code: None });
        cases.push(c);
    }
    p.add("states", cases.len() as u64);
    check(&mut p, "c07b", &cases, 60);
    p.finish();
}
