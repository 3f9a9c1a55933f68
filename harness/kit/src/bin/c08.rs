//! C08: if / if let / match render exactly the first branch that applies.
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;

const PRE: &str = "
#[derive(Clone, Copy)] pub enum En { A, B(i32), C { x: i32, y: i32 }, D(i32, i32) }
#[derive(Clone, Copy)] pub struct St { pub x: i32, pub y: i32 }
impl En { pub const K: i32 = 2; }
";

/// Condition of the k-th branch: reads fields bk / ok.
fn conds(k: usize) -> Vec<Cond> {
    let b = format!("b{k}");
    let o = format!("o{k}");
    let tb = |n: i64, e: E| E::Call("crate::tb".into(), vec![int(n), e]);
    vec![
        Cond::Expr(tb(k as i64, var(&b))),
        Cond::Expr(un("!", tb(k as i64, var(&b)))),
        Cond::Let(P::Tuple("Some".into(), vec![pn("v")]), var(&o)),
        Cond::Let(P::Tuple("Some".into(), vec![P::Lit(i(1))]), var(&o)),
        Cond::Let(P::Path("None".into()), var(&o)),
        Cond::Expr(bin("&&", tb(k as i64, var(&b)), tb(10 + k as i64, var("b0")))),
        Cond::Expr(bin("==", E::Call("crate::tr".into(), vec![int(k as i64)]), int(1))),
    ]
}

fn body(k: usize, c: &Cond) -> Vec<N> {
    let mut v = vec![t(&format!("<{k}"))];
    if let Cond::Let(P::Tuple(_, ps), _) = c {
        if ps[0] == pn("v") {
            v.push(outv("v"));
        }
    }
    v.push(t(">"));
    v
}

fn ifs(p: &mut Part) {
    let deep = thorough();
    let mut su = Suite::new();
    let opts = [V::None_, some(i(1)), some(i(2))];
    let max = if deep { 4 } else { 3 };
    for n in 1..=max {
        let menu: Vec<Vec<Cond>> = (0..n).map(conds).collect();
        let mut idx = vec![0usize; n];
        loop {
            let mut fields = vec![];
            for (k, j) in idx.iter().enumerate() {
                match j {
                    2..=4 => fields.push((format!("o{k}"), "Option<i32>")),
                    6 => {}
                    _ => fields.push((format!("b{k}"), "bool")),
                }
                if *j == 5 && k > 0 && !fields.iter().any(|f| f.0 == "b0") {
                    fields.push(("b0".into(), "bool"));
                }
            }
            // The fourth branch only with the plain kinds.
            if n < 4 || idx[3] < 3 {
                for els in [None, Some(vec![t("<e>")]), Some(vec![])] {
                    if els == Some(vec![]) && n > 1 {
                        continue;
                    }
                    let mut br: Vec<(Ws, Option<Cond>, Vec<N>)> = idx.iter().enumerate().map(|(k, j)| (N0, Some(menu[k][*j].clone()), body(k, &menu[k][*j]))).collect();
                    // One branch body may be empty.
                    if idx.iter().sum::<usize>() % 5 == 4 {
                        br[0].2 = vec![];
                    }
                    if let Some(e) = &els {
                        br.push((N0, None, e.clone()));
                    }
                    let mut m = Model::inline(vec![t("a"), N::If(br, N0), t("z")], false);
                    m.trace = true;
                    for (f, ty) in &fields {
                        m = m.field(f, ty);
                    }
                    let mut inputs: Vec<Vec<V>> = vec![vec![]];
                    for (_, ty) in &fields {
                        let vals: Vec<V> = if *ty == "bool" { vec![V::B(true), V::B(false)] } else { opts.to_vec() };
                        inputs = inputs.into_iter().flat_map(|x| vals.iter().map(move |v| { let mut y = x.clone(); y.push(v.clone()); y }).collect::<Vec<_>>()).collect();
                    }
                    if n == 2 {
                        m.style.else_if = "elif";
                    }
                    su.add(&m, &inputs);
                }
            }
            let mut k = 0;
            while k < n {
                idx[k] += 1;
                if idx[k] < menu[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == n {
                break;
            }
        }
    }
    su.run(p, "c08a", 120);
}

struct Ty {
    ty: &'static str,
    values: Vec<V>,
    /// Patterns that always print their names as variables.
    pats: Vec<P>,
    /// Copies of the scrutinee expression to match on (pattern against value or reference).
    exprs: Vec<E>,
    /// Patterns needing the value, not a reference to it: (literals at top level).
    only: usize,
}

fn tup(p: &str, v: Vec<P>) -> P {
    P::Tuple(p.into(), v)
}

fn types() -> Vec<Ty> {
    let li = |k| P::Lit(i(k));
    let c = |n: &str, v: Vec<V>, m: Vec<(&str, V)>| V::Ctor(n.into(), v, m.into_iter().map(|(a, b)| (a.to_string(), b)).collect());
    let x = var("s");
    vec![
        Ty {
            ty: "Option<i32>",
            values: vec![V::None_, some(i(1)), some(i(2)), some(i(3))],
            pats: vec![tup("Some", vec![pn("v")]), tup("Some", vec![li(1)]), tup("Some", vec![P::Wild]), P::Path("None".into()), P::Or(vec![tup("Some", vec![li(2)]), P::Path("None".into())]), tup("Option::Some", vec![P::Or(vec![li(1), li(3)])]), P::Wild],
            exprs: vec![x.clone(), E::SelfF("s".into())],
            only: 0,
        },
        Ty {
            ty: "Result<i32, &'static str>",
            values: vec![V::Ok_(Box::new(i(1))), V::Ok_(Box::new(i(5))), V::Err_(Box::new(s("e"))), V::Err_(Box::new(s("")))],
            pats: vec![tup("Ok", vec![pn("v")]), tup("Ok", vec![li(5)]), tup("Err", vec![pn("e")]), tup("Err", vec![P::Wild]), P::Or(vec![tup("Ok", vec![li(1)]), tup("Err", vec![P::Wild])])],
            exprs: vec![x.clone()],
            only: 0,
        },
        Ty {
            ty: "En",
            values: vec![c("En::A", vec![], vec![]), c("En::B", vec![i(1)], vec![]), c("En::B", vec![i(2)], vec![]), c("En::C", vec![], vec![("x", i(1)), ("y", i(2))]), c("En::C", vec![], vec![("x", i(3)), ("y", i(1))]), c("En::D", vec![i(1), i(2)], vec![])],
            pats: vec![
                P::Path("En::A".into()),
                tup("En::B", vec![pn("v")]),
                tup("En::B", vec![li(2)]),
                P::Struct("En::C".into(), vec![("x".into(), None), ("y".into(), None)]),
                P::Struct("En::C".into(), vec![("x".into(), Some(li(1))), ("y".into(), Some(pn("q")))]),
                P::Struct("En::C".into(), vec![("y".into(), Some(pn("x"))), ("x".into(), Some(pn("y")))]),
                tup("En::D", vec![pn("v"), pn("w")]),
                tup("En::D", vec![P::Wild, pn("v")]),
                P::Or(vec![P::Path("En::A".into()), tup("En::D", vec![P::Wild, P::Wild])]),
                P::Or(vec![tup("En::B", vec![li(1)]), P::Struct("En::C".into(), vec![("x".into(), Some(li(3))), ("y".into(), Some(P::Wild))]), P::Path("En::A".into())]),
            ],
            exprs: vec![x.clone()],
            only: 0,
        },
        Ty {
            ty: "(i32, Option<i32>)",
            values: vec![V::T(vec![i(1), V::None_]), V::T(vec![i(1), some(i(1))]), V::T(vec![i(2), some(i(1))]), V::T(vec![i(2), some(i(3))])],
            pats: vec![tup("", vec![pn("v"), P::Path("None".into())]), tup("", vec![li(1), P::Wild]), tup("", vec![P::Wild, tup("Some", vec![pn("w")])]), tup("", vec![li(2), tup("Some", vec![li(1)])]), tup("", vec![pn("v"), pn("_w")])],
            exprs: vec![x.clone()],
            only: 0,
        },
        Ty {
            ty: "i32",
            values: vec![i(0), i(1), i(2), i(-1)],
            pats: vec![li(0), li(1), P::Or(vec![li(1), li(2)]), pn("v"), P::Wild, li(-1), P::Or(vec![li(-1), li(0), li(2)])],
            exprs: vec![E::Via(Box::new(x.clone()), ".clone()".into())],
            only: 0,
        },
        Ty {
            ty: "&'static str",
            values: vec![s(""), s("a"), s("b\"c")],
            pats: vec![P::Lit(s("a")), P::Lit(s("")), P::Or(vec![P::Lit(s("b\"c")), P::Lit(s("a"))]), pn("v"), P::Wild],
            exprs: vec![E::Via(Box::new(x.clone()), ".trim()".into())],
            only: 0,
        },
        Ty {
            ty: "char",
            values: vec![V::C('a'), V::C('é'), V::C('\'')],
            pats: vec![P::Lit(V::C('a')), P::Lit(V::C('\'')), P::Or(vec![P::Lit(V::C('a')), P::Lit(V::C('é'))]), P::Wild],
            exprs: vec![E::Via(Box::new(x.clone()), ".clone()".into())],
            only: 0,
        },
        Ty {
            ty: "bool",
            values: vec![V::B(true), V::B(false)],
            pats: vec![P::Lit(V::B(true)), P::Lit(V::B(false)), P::Wild, P::Or(vec![P::Lit(V::B(false)), P::Lit(V::B(true))])],
            exprs: vec![E::Via(Box::new(x.clone()), ".clone()".into())],
            only: 0,
        },
        Ty {
            ty: "St",
            values: vec![c("St", vec![], vec![("x", i(1)), ("y", i(2))]), c("St", vec![], vec![("x", i(2)), ("y", i(2))])],
            pats: vec![
                P::Struct("St".into(), vec![("x".into(), None), ("y".into(), None)]),
                P::Struct("St".into(), vec![("x".into(), Some(li(1))), ("y".into(), Some(pn("v")))]),
                P::Struct("St".into(), vec![("y".into(), Some(P::Wild)), ("x".into(), Some(P::Or(vec![li(2), li(7)])))]),
            ],
            exprs: vec![x.clone()],
            only: 0,
        },
        Ty {
            ty: "Option<(i32, bool)>",
            values: vec![V::None_, some(V::T(vec![i(1), V::B(true)])), some(V::T(vec![i(1), V::B(false)])), some(V::T(vec![i(2), V::B(true)]))],
            pats: vec![tup("Some", vec![tup("", vec![pn("v"), P::Lit(V::B(true))])]), tup("Some", vec![tup("", vec![li(1), pn("w")])]), tup("Some", vec![P::Wild]), P::Path("None".into())],
            exprs: vec![x],
            only: 0,
        },
    ]
}

fn names(p: &P, o: &mut Vec<String>) {
    match p {
        P::Name(n) if !n.starts_with("__") => o.push(n.clone()),
        P::Tuple(_, ps) => ps.iter().for_each(|p| names(p, o)),
        P::Or(ps) => names(&ps[0], o),
        P::As(_, p) => names(p, o),
        P::Struct(_, ps) => {
            for (n, p) in ps {
                match p {
                    Some(p) => names(p, o),
                    None => o.push(n.clone()),
                }
            }
        }
        _ => {}
    }
}

fn arm(k: usize, p: &P) -> Vec<N> {
    let mut v = vec![t(&format!("[{k}"))];
    let mut ns = vec![];
    names(p, &mut ns);
    for n in ns {
        if n != "_w" {
            v.push(t(" "));
            v.push(outv(&n));
        }
    }
    v.push(t("]"));
    v
}

fn matches(p: &mut Part) {
    let deep = thorough();
    let mut su = Suite::new();
    for ty in types() {
        let _ = ty.only;
        let max = if deep { 4 } else if ty.pats.len() > 7 { 2 } else { 3 };
        let inputs: Vec<Vec<V>> = ty.values.iter().map(|v| vec![v.clone(), i(8), i(9)]).collect();
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut cur = seqs.clone();
        for _ in 0..max {
            cur = cur.into_iter().flat_map(|q| (0..ty.pats.len()).filter(|k| !q.contains(k)).map(|k| { let mut r = q.clone(); r.push(k); r }).collect::<Vec<_>>()).collect();
            seqs.extend(cur.clone());
        }
        for q in seqs.iter().filter(|q| !q.is_empty()) {
            // Complete without a final else?
            let vals = Files::default();
            let it = Interp::new(&vals, &[], false);
            let total = ty.values.iter().all(|v| q.iter().any(|k| it.matches(&ty.pats[*k], v, &mut vec![])));
            let irref = q.iter().any(|k| matches!(ty.pats[*k], P::Wild | P::Name(_)));
            for e in &ty.exprs {
                let mut arms: Vec<(Ws, P, Vec<N>)> = q.iter().enumerate().map(|(n, k)| (N0, ty.pats[*k].clone(), arm(n, &ty.pats[*k]))).collect();
                let fills: &[&str] = if q.len() == 1 { &["", " \n", "\t"] } else { &[""] };
                for fill in fills {
                    if irref && !total {
                        unreachable!();
                    }
                    if !irref {
                        arms.push((N0, if q.len() % 2 == 0 { pn("__else") } else { P::Wild }, vec![t("[else]")]));
                    }
                    // Fields v and w keep their meaning outside of the arms.
                    let mut nodes = vec![outv("v"), N::Match(N0, e.clone(), fill.to_string(), arms.clone(), N0), outv("v"), outv("w")];
                    if q.len() == 2 {
                        nodes.insert(0, t("x"));
                        nodes.push(t("y"));
                    }
                    let mut m = Model::inline(nodes, false).field("s", ty.ty).field("v", "i32").field("w", "i32");
                    m.prelude = PRE.into();
                    su.add(&m, &inputs);
                    if !irref {
                        arms.pop();
                    }
                }
            }
            // The same patterns as an if let chain.
            if q.len() <= 2 && !q.is_empty() {
                let mut br: Vec<(Ws, Option<Cond>, Vec<N>)> = q.iter().enumerate().map(|(n, k)| (N0, Some(Cond::Let(ty.pats[*k].clone(), ty.exprs[0].clone())), arm(n, &ty.pats[*k]))).collect();
                for els in [false, true] {
                    if els {
                        br.push((N0, None, vec![t("[else]"), outv("v")]));
                    }
                    let mut m = Model::inline(vec![N::If(br.clone(), N0), outv("v"), outv("w")], false).field("s", ty.ty).field("v", "i32").field("w", "i32");
                    m.prelude = PRE.into();
                    su.add(&m, &inputs);
                }
            }
        }
    }
    su.run(p, "c08b", 150);
}

/// Nesting: every construct inside every branch of every construct.
fn nested(p: &mut Part) {
    let mut su = Suite::new();
    // (template with a hole per branch), the hole sees variable v.
    let some_v = tup("Some", vec![pn("v")]);
    type Mk = Box<dyn Fn(&[Vec<N>]) -> N>;
    let mk: Vec<(usize, Mk)> = {
        let sv = some_v.clone();
        let sv2 = some_v.clone();
        let sv3 = some_v;
        vec![
            (2, Box::new(|h: &[Vec<N>]| ifelse(var("b"), h[0].clone(), h[1].clone())) as Mk),
            (1, Box::new(|h: &[Vec<N>]| if_(un("!", var("b")), h[0].clone())) as Mk),
            (2, Box::new(move |h: &[Vec<N>]| N::If(vec![(N0, Some(Cond::Let(sv.clone(), var("o"))), h[0].clone()), (N0, None, h[1].clone())], N0)) as Mk),
            (2, Box::new(move |h: &[Vec<N>]| N::Match(N0, var("o"), "".into(), vec![(N0, sv2.clone(), h[0].clone()), (N0, P::Path("None".into()), h[1].clone())], N0)) as Mk),
            (2, Box::new(move |h: &[Vec<N>]| N::If(vec![(N0, Some(Cond::Expr(var("c"))), h[0].clone()), (N0, Some(Cond::Let(sv3.clone(), var("u"))), h[1].clone())], N0)) as Mk),
            (2, Box::new(|h: &[Vec<N>]| N::Match(N0, var("u"), "".into(), vec![(N0, P::Tuple("Some".into(), vec![P::Lit(i(1))]), h[0].clone()), (N0, pn("__else"), h[1].clone())], N0)) as Mk),
        ]
    };
    let depth = if thorough() { 3 } else { 2 };
    // Trees: every hole holds either the leaf or a construct (one of them at a time is expanded).
    fn build(mk: &[(usize, Mk)], d: usize, tag: &str) -> Vec<Vec<N>> {
        let leaf = vec![t(&format!("({tag}")), outv("v"), t(")")];
        let mut r = vec![leaf.clone()];
        if d == 0 {
            return r;
        }
        for (n, f) in mk {
            for h in 0..*n {
                for sub in build(mk, d - 1, &format!("{tag}{h}")) {
                    let holes: Vec<Vec<N>> = (0..*n).map(|k| if k == h { sub.clone() } else { vec![t(&format!("({tag}{k}")), outv("v"), t(")")] }).collect();
                    if *n == 2 && h == 1 && sub.len() == 3 {
                        continue;
                    }
                    r.push(vec![f(&holes), outv("v")]);
                }
            }
        }
        r
    }
    let ob = [V::None_, some(i(1)), some(i(2))];
    let mut inputs = vec![];
    for b in [true, false] {
        for c in [true, false] {
            for o in &ob {
                for u in &ob {
                    inputs.push(vec![V::B(b), V::B(c), o.clone(), u.clone(), i(9)]);
                }
            }
        }
    }
    for n in build(&mk, depth + 1, "") {
        let m = Model::inline(n, false).field("b", "bool").field("c", "bool").field("o", "Option<i32>").field("u", "Option<i32>").field("v", "i32");
        su.add(&m, &inputs);
    }
    su.run(p, "c08c", 100);
}

/// Long chains, long patterns, and bodies of every kind in every branch.
fn wide(p: &mut Part) {
    let deep = thorough();
    let mut su = Suite::new();
    let li = |k: usize| P::Lit(i(k as i64));
    let x = || E::Via(Box::new(var("s")), ".clone()".into());
    let ints: Vec<Vec<V>> = (0..14).map(|k| vec![i(k)]).collect();
    let int_field = |n: Vec<N>| Model::inline(n, false).field("s", "i32");
    // Bodies: nothing, a comment, text, white space, an output, a let, an inner match.
    let kinds = |k: usize, a: usize| -> Vec<N> {
        match k {
            0 => vec![],
            1 => vec![N::Comment(" c ".into(), N0)],
            2 => vec![t(&format!("<{a}>"))],
            3 => vec![t(" ")],
            4 => vec![out(int(a as i64 + 20))],
            5 => vec![let_("q", int(3))],
            _ => vec![N::Match(N0, x(), "".into(), vec![(N0, P::Lit(i(1)), vec![]), (N0, pn("__else"), vec![])], N0)],
        }
    };
    let nk = if deep { 7 } else { 5 };
    for n in 1..=3usize {
        for code in 0..nk * usize::pow(nk, n as u32) * 3 {
            let mut c = code;
            let mut next = |m: usize| { let r = c % m; c /= m; r };
            // Rotates through the last kinds in the quick tier.
            let form = next(3);
            let bodies: Vec<Vec<N>> = (0..=n).map(|a| { let k = next(nk); kinds(if !deep && k == 4 { 4 + (a + code) % 3 } else { k }, a) }).collect();
            if !deep && n == 3 && code % 3 != form {
                continue;
            }
            let node = match form {
                0 => {
                    let mut br: Vec<(Ws, Option<Cond>, Vec<N>)> = (0..n).map(|a| (N0, Some(Cond::Expr(bin("==", var("s"), int(a as i64)))), bodies[a].clone())).collect();
                    br.push((N0, None, bodies[n].clone()));
                    N::If(br, N0)
                }
                f => {
                    let mut arms: Vec<(Ws, P, Vec<N>)> = (0..n).map(|a| (N0, li(a), bodies[a].clone())).collect();
                    arms.push((N0, if f == 1 { pn("__else") } else { P::Wild }, bodies[n].clone()));
                    N::Match(N0, x(), "".into(), arms, N0)
                }
            };
            su.add(&int_field(vec![t("a"), node, t("z")]), &ints[..n + 1]);
        }
    }
    // Many branches, many arms.
    for n in [4usize, 5, 6, 8, 12] {
        for els in [false, true] {
            let mut br: Vec<(Ws, Option<Cond>, Vec<N>)> = (0..n).map(|a| (N0, Some(Cond::Expr(E::Call("crate::tb".into(), vec![int(a as i64), bin("==", var("s"), int(a as i64))]))), vec![t(&format!("<{a}>")), outv("s")])).collect();
            let mut lets: Vec<(Ws, Option<Cond>, Vec<N>)> = (0..n).map(|a| (N0, Some(Cond::Let(li(a), x())), vec![t(&format!("<{a}>")), outv("s")])).collect();
            if els {
                br.push((N0, None, vec![t("e")]));
                lets.push((N0, None, vec![t("e")]));
            }
            let mut m = int_field(vec![t("a"), N::If(br, N0), t("z")]);
            m.trace = true;
            su.add(&m, &ints);
            let mut m = int_field(vec![t("a"), N::If(lets, N0), t("z")]);
            m.style.else_if = "elif";
            su.add(&m, &ints);
        }
        let arms: Vec<(Ws, P, Vec<N>)> = (0..n).map(|a| (N0, li(a), vec![t(&format!("<{a}>")), outv("s")])).chain([(N0, pn("v"), vec![t("v"), outv("v")])]).collect();
        su.add(&int_field(vec![t("a"), N::Match(N0, x(), "".into(), arms, N0), t("z")]), &ints);
    }
    // Alternatives: how many, where, of what.
    for n in 1..=9usize {
        let alts: Vec<P> = (0..n).map(|k| li(k)).collect();
        let strs: Vec<P> = (0..n).map(|k| P::Lit(s(&format!("k{k}")))).collect();
        let chars: Vec<P> = (0..n).map(|k| P::Lit(V::C((b'a' + k as u8) as char))).collect();
        let tups: Vec<P> = (0..n).map(|k| tup("", vec![li(k), P::Or(vec![li(1), li(k + 2)])])).collect();
        let somes: Vec<P> = (0..n).map(|k| tup("Some", vec![li(k)])).collect();
        let mk = |pats: Vec<P>, e: E, ty: &str, inputs: Vec<V>, su: &mut Suite| {
            let inputs: Vec<Vec<V>> = inputs.into_iter().map(|v| vec![v]).collect();
            let p = P::Or(pats);
            let p = if let P::Or(x) = &p { if x.len() == 1 { x[0].clone() } else { p } } else { p };
            for (k, e) in [e.clone(), E::Group(Box::new(e))].into_iter().enumerate() {
                let nodes = match k {
                    0 => N::Match(N0, e, "".into(), vec![(N0, p.clone(), vec![t("y")]), (N0, pn("__else"), vec![t("n")])], N0),
                    _ => N::If(vec![(N0, Some(Cond::Let(p.clone(), e)), vec![t("y")]), (N0, None, vec![t("n")])], N0),
                };
                su.add(&Model::inline(vec![t("a"), nodes, t("z")], false).field("s", ty), &inputs);
            }
        };
        let iv: Vec<V> = (0..12).map(i).collect();
        mk(alts.clone(), x(), "i32", iv.clone(), &mut su);
        mk(strs, E::Via(Box::new(var("s")), ".trim()".into()), "&'static str", (0..12).map(|k| s(&format!("k{k}"))).collect(), &mut su);
        mk(chars, x(), "char", (0..12u8).map(|k| V::C((b'a' + k) as char)).collect(), &mut su);
        mk(tups, var("s"), "(i32, i32)", (0..11).flat_map(|a| [1, a + 2, a + 3].map(|b| V::T(vec![i(a), i(b)]))).collect(), &mut su);
        mk(somes, var("s"), "Option<i32>", iv.iter().cloned().map(some).chain([V::None_]).collect(), &mut su);
        mk(vec![tup("Some", vec![P::Or(alts.clone())])], var("s"), "Option<i32>", iv.iter().cloned().map(some).chain([V::None_]).collect(), &mut su);
        mk(vec![tup("", vec![P::Or(alts.clone()), P::Or(alts.iter().rev().cloned().collect())])], var("s"), "(i32, i32)", (0..11).flat_map(|a| [0, a, 10].map(|b| V::T(vec![i(a), i(b)]))).collect(), &mut su);
    }
    // Other spellings of patterns.
    let sp: Vec<(&str, P, &str, Vec<V>)> = vec![
        ("(1)", li(1), "i32", (0..4).map(i).collect()),
        ("(1 or 2)", P::Or(vec![li(1), li(2)]), "i32", (0..4).map(i).collect()),
        ("((1) or (2 or 3))", P::Or(vec![li(1), li(2), li(3)]), "i32", (0..5).map(i).collect()),
        ("(v)", pn("v"), "i32", (0..2).map(i).collect()),
        ("Some with (v)", tup("Some", vec![pn("v")]), "Option<i32>", vec![V::None_, some(i(4))]),
        ("Some(v,)", tup("Some", vec![pn("v")]), "Option<i32>", vec![V::None_, some(i(4))]),
        ("Some ( ( v ) )", tup("Some", vec![pn("v")]), "Option<i32>", vec![V::None_, some(i(4))]),
        ("std::option::Option::Some(v)", tup("Some", vec![pn("v")]), "Option<i32>", vec![V::None_, some(i(4))]),
        ("Option::None", P::Path("None".into()), "Option<i32>", vec![V::None_, some(i(4))]),
        ("::std::option::Option::None", P::Path("None".into()), "Option<i32>", vec![V::None_, some(i(4))]),
        ("Some((a, b))", tup("Some", vec![tup("", vec![pn("a"), pn("b")])]), "Option<(i32, i32)>", vec![V::None_, some(V::T(vec![i(4), i(5)]))]),
        ("Some((a, b,))", tup("Some", vec![tup("", vec![pn("a"), pn("b")])]), "Option<(i32, i32)>", vec![V::None_, some(V::T(vec![i(4), i(5)]))]),
        ("Some(((a), (b)))", tup("Some", vec![tup("", vec![pn("a"), pn("b")])]), "Option<(i32, i32)>", vec![V::None_, some(V::T(vec![i(4), i(5)]))]),
        ("((a, b), c)", tup("", vec![tup("", vec![pn("a"), pn("b")]), pn("c")]), "((i32, i32), i32)", vec![V::T(vec![V::T(vec![i(1), i(2)]), i(3)])]),
        ("(a, (b, (c, 4)))", tup("", vec![pn("a"), tup("", vec![pn("b"), tup("", vec![pn("c"), li(4)])])]), "(i32, (i32, (i32, i32)))", vec![V::T(vec![i(1), V::T(vec![i(2), V::T(vec![i(3), i(4)])])]), V::T(vec![i(1), V::T(vec![i(2), V::T(vec![i(3), i(5)])])])]),
        ("(a, b, c, d, e, f)", tup("", ["a", "b", "c", "d", "e", "f"].iter().map(|x| pn(x)).collect()), "(i32, i32, i32, i32, i32, i32)", vec![V::T((1..7).map(i).collect())]),
        ("(f, e, d, c, b, a)", tup("", ["f", "e", "d", "c", "b", "a"].iter().map(|x| pn(x)).collect()), "(i32, i32, i32, i32, i32, i32)", vec![V::T((1..7).map(i).collect())]),
        ("(_, _, 3, _, e, _)", tup("", vec![P::Wild, P::Wild, li(3), P::Wild, pn("e"), P::Wild]), "(i32, i32, i32, i32, i32, i32)", vec![V::T((1..7).map(i).collect()), V::T((0..6).map(i).collect())]),
    ];
    for (text, pat, ty, vals) in sp {
        for refd in [false, true] {
            let mut ns = vec![];
            names(&pat, &mut ns);
            let body: Vec<N> = ns.iter().flat_map(|n| [outv(n), t(",")]).collect();
            let e = if refd { E::SelfF("s".into()) } else if ty.len() == 3 { x() } else { var("s") };
            if refd && ty.len() == 3 {
                continue;
            }
            let p = P::As(text.into(), Box::new(pat.clone()));
            let mut body2 = vec![t("y")];
            body2.extend(body);
            let inputs: Vec<Vec<V>> = vals.iter().map(|v| vec![v.clone()]).collect();
            let irref = matches!(pat, P::Name(_)) || vals.len() == 1;
            let mut arms = vec![(N0, p.clone(), body2.clone())];
            if !irref {
                arms.push((N0, pn("__else"), vec![t("n")]));
            }
            su.add(&Model::inline(vec![t("a"), N::Match(N0, e.clone(), "".into(), arms, N0), t("z")], false).field("s", ty), &inputs);
            su.add(&Model::inline(vec![t("a"), N::If(vec![(N0, Some(Cond::Let(p, e)), body2), (N0, None, vec![t("n")])], N0), t("z")], false).field("s", ty), &inputs);
        }
    }
    // What the variables are called: every binding position, next to a field of the same name.
    for name in ["_a", "_0", "_1a", "a_", "aB", "x1", "\u{e9}", "\u{540d}", "s1", "ss", "n", "_s", "when_", "el", "_else", "orb", "o", "ora", "or_", "some", "none", "self_", "writer_", "_writer", "wri", "item", "expr0", "_iter", "_loop_item", "_did_loop", "f", "v"] {
        let mk = |pat: P, e: E, ty: &str, v: Vec<V>, su: &mut Suite| {
            let mut ns = vec![];
            names(&pat, &mut ns);
            let mut b = vec![t("y")];
            b.extend(ns.iter().chain([&name.to_string()]).flat_map(|n| [outv(n), t(",")]));
            let inputs: Vec<Vec<V>> = v.iter().map(|v| vec![v.clone(), i(99)]).collect();
            let total = v.len() == 1;
            let mut arms = vec![(N0, pat.clone(), b.clone())];
            if !total {
                arms.push((N0, pn("__else"), vec![t("n"), outv(name)]));
            }
            let m = |n: N| {
                let mut m = Model::inline(vec![t("a"), n, t("z"), outv(name)], false).field("s", ty).field(name, "i32");
                m.prelude = format!("#[derive(Clone)] pub struct Nm {{ pub {name}: i32, pub z: i32 }} #[allow(non_snake_case, uncommon_codepoints)] #[derive(Clone)] pub enum Ne {{ A {{ {name}: i32, z: i32 }}, B(i32) }}");
                m
            };
            su.add(&m(N::Match(N0, e.clone(), "".into(), arms, N0)), &inputs);
            su.add(&m(N::If(vec![(N0, Some(Cond::Let(pat.clone(), e)), b), (N0, None, vec![t("n"), outv(name)])], N0)), &inputs);
        };
        let nm = |a: i64| V::Ctor("Nm".into(), vec![], vec![(name.to_string(), i(a)), ("z".into(), i(7))]);
        let ne = |a: i64| V::Ctor("Ne::A".into(), vec![], vec![(name.to_string(), i(a)), ("z".into(), i(7))]);
        let nb = |a: i64| V::Ctor("Ne::B".into(), vec![i(a)], vec![]);
        mk(pn(name), var("s"), "i32", vec![i(3)], &mut su);
        mk(tup("Some", vec![pn(name)]), var("s"), "Option<i32>", vec![V::None_, some(i(4))], &mut su);
        mk(tup("", vec![pn(name), P::Wild]), var("s"), "(i32, i32)", vec![V::T(vec![i(1), i(2)])], &mut su);
        mk(P::Struct("Nm".into(), vec![(name.into(), None), ("z".into(), None)]), var("s"), "Nm", vec![nm(1)], &mut su);
        mk(P::Struct("Nm".into(), vec![("z".into(), Some(P::Wild)), (name.into(), None)]), var("s"), "Nm", vec![nm(2)], &mut su);
        mk(P::Struct("Nm".into(), vec![("z".into(), Some(pn(name))), (name.into(), Some(P::Wild))]), var("s"), "Nm", vec![nm(3)], &mut su);
        mk(P::Struct("Nm".into(), vec![(name.into(), Some(pn(name))), ("z".into(), Some(li(7)))]), var("s"), "Nm", vec![nm(3), V::Ctor("Nm".into(), vec![], vec![(name.to_string(), i(5)), ("z".into(), i(8))])], &mut su);
        mk(P::Struct("Nm".into(), vec![(name.into(), Some(P::Or(vec![li(3), li(4)]))), ("z".into(), Some(pn("q")))]), var("s"), "Nm", vec![nm(3), nm(4), nm(5)], &mut su);
        mk(P::Or(vec![P::Struct("Ne::A".into(), vec![(name.into(), None), ("z".into(), Some(P::Wild))]), tup("Ne::B", vec![pn(name)])]), var("s"), "Ne", vec![ne(5)], &mut su);
        mk(P::Or(vec![tup("Ne::B", vec![pn(name)]), P::Struct("Ne::A".into(), vec![("z".into(), Some(P::Wild)), (name.into(), None)])]), var("s"), "Ne", vec![nb(5)], &mut su);
        mk(tup("Ne::B", vec![pn(name)]), var("s"), "Ne", vec![ne(5), nb(6)], &mut su);
    }
    su.run(p, "c08d", 150);
}

fn main() {
    let mut p = Part::from_args();
    wide(&mut p);
    ifs(&mut p);
    matches(&mut p);
    nested(&mut p);
    p.finish();
}
