//! C09: every output uses the binding visible at its point in the template.
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;

// ------------------------------------------------------------------ scopes

#[derive(Clone, Debug)]
enum S {
    LetA,
    LetB,
    AB,
    BA,
    Inc,
    /// A `let` with a pattern.
    D(usize),
    C(usize, Vec<S>),
}

const CONT: usize = 12;

/// All statement sequences with exactly n statements (containers count one plus their body).
fn seqs(n: usize, kinds: &[usize], leafs: &[S]) -> Vec<Vec<S>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for l in leafs {
        for rest in seqs(n - 1, kinds, leafs) {
            let mut v = vec![l.clone()];
            v.extend(rest);
            r.push(v);
        }
    }
    for k in 0..n {
        let bodies = seqs(k, kinds, leafs);
        let rests = seqs(n - 1 - k, kinds, leafs);
        for c in kinds {
            for b in &bodies {
                for rest in &rests {
                    let mut v = vec![S::C(*c, b.clone())];
                    v.extend(rest.clone());
                    r.push(v);
                }
            }
        }
    }
    r
}

fn probe() -> Vec<N> {
    vec![t("["), outv("a"), t(","), outv("b"), t("]")]
}

struct Build {
    next: i64,
    macros: Vec<N>,
}

impl Build {
    fn konst(&mut self) -> E {
        self.next += 1;
        E::Known(format!("{}i32", self.next), V::I(self.next))
    }
    fn seq(&mut self, v: &[S], o: &mut Vec<N>) {
        o.extend(probe());
        for x in v {
            match x {
                S::LetA => {
                    let e = self.konst();
                    o.push(let_("a", e));
                }
                S::LetB => {
                    let e = self.konst();
                    o.push(let_("b", e));
                }
                S::AB => o.push(let_("a", var("b"))),
                S::BA => o.push(let_("b", var("a"))),
                S::Inc => o.push(let_("a", E::Via(Box::new(var("a")), ".clone()".into()))),
                S::D(k) => {
                    let st = |n: &str, ps: Vec<(&str, Option<P>)>| P::Struct(n.into(), ps.into_iter().map(|(a, b)| (a.to_string(), b)).collect());
                    let (p, e) = match k {
                        0 => (P::Tuple("".into(), vec![pn("a"), pn("b")]), var("tp")),
                        1 => (P::Tuple("".into(), vec![pn("b"), P::Wild]), var("tp")),
                        2 => (st("Pr", vec![("a", None), ("b", None)]), var("pr")),
                        3 => (st("Pr", vec![("a", Some(pn("b"))), ("b", Some(pn("a")))]), var("pr")),
                        4 => (st("Pr", vec![("b", Some(P::Wild)), ("a", None)]), var("pr")),
                        5 => (P::Tuple("Tp".into(), vec![pn("c"), P::Tuple("".into(), vec![P::Wild, pn("a")])]), var("nt")),
                        6 => (st("Pr", vec![("a", Some(P::Wild)), ("b", Some(pn("a")))]), var("pr")),
                        _ => (P::Tuple("".into(), vec![pn("c"), pn("a")]), E::Tup(vec![int(7), E::Via(Box::new(var("b")), ".clone()".into())])),
                    };
                    o.push(N::Let(p, Some(e), N0));
                }
                S::C(k, body) => {
                    let mut b = vec![];
                    self.next += 1;
                    let lit = E::Known(format!("{}i32", self.next), V::I(self.next));
                    let one = E::Arr(vec![lit.clone()]);
                    self.seq(body, &mut b);
                    let for1 = |v: &str, b: Vec<N>| for_(v, one.clone(), b);
                    let some = |v: &str| P::Tuple("Some".into(), vec![pn(v)]);
                    let opt = E::Ctor("Some".into(), vec![lit.clone()]);
                    match k {
                        0 => o.push(if_(un("!", var("no")), b)),
                        1 => o.push(for1("a", b)),
                        2 => o.push(for1("b", b)),
                        3 => o.push(N::If(vec![(N0, Some(Cond::Let(some("a"), opt)), b), (N0, None, vec![outv("a")])], N0)),
                        4 => o.push(N::Match(N0, opt, "".into(), vec![(N0, some("a"), b), (N0, pn("__else"), vec![outv("a")])], N0)),
                        // Whether a let directly in a filter block ends with it is not specified.
                        5 => o.push(N::Filter(vec![("upper".into(), vec![])], N0, vec![if_(un("!", var("no")), b), outv("a")], N0)),
                        6 => {
                            let name = format!("m{}", self.macros.len());
                            self.macros.push(macro_(&name, &["a", "b"], b));
                            o.push(call(&name, vec![lit, var("a")]));
                        }
                        7 => {
                            let name = format!("m{}", self.macros.len());
                            self.macros.push(macro_(&name, &["b", "a"], b));
                            o.push(call(&name, vec![var("a"), var("b")]));
                        }
                        8 => o.push(N::If(vec![(N0, Some(Cond::Expr(var("no"))), vec![let_("a", lit), outv("a")]), (N0, None, b)], N0)),
                        9 => o.push(N::Match(N0, var("none"), "".into(), vec![(N0, some("b"), vec![outv("b")]), (N0, pn("__else"), b)], N0)),
                        10 => o.push(N::For(Box::new(For { ws1: N0, var: pn("a"), iter: one, cond: Some(bin("==", E::Via(Box::new(var("a")), ".abs()".into()), int(-1))), body: vec![outv("a")], els: Some((N0, b)), ws2: N0 }))),
                        _ => o.push(N::For(Box::new(For { ws1: N0, var: P::Tuple("".into(), vec![pn("a"), pn("b")]), iter: var("ps"), cond: None, body: b, els: None, ws2: N0 }))),
                    }
                }
            }
            o.extend(probe());
        }
    }
}

fn model(v: &[S]) -> Model {
    let mut b = Build { next: 10, macros: vec![] };
    let mut o = vec![];
    b.seq(v, &mut o);
    let mut nodes = b.macros;
    nodes.extend(o);
    patterns(Model::inline(nodes, false).field("a", "i32").field("b", "i32").field("no", "bool").field("none", "Option<i32>").field("ps", "&'static [(i32, i32)]"))
}

fn patterns(mut m: Model) -> Model {
    m.prelude = "#[derive(Clone, Copy)] pub struct Pr { pub a: i32, pub b: i32 } #[derive(Clone, Copy)] pub struct Tp(pub i32, pub (i32, i32));".into();
    m.field("tp", "(i32, i32)").field("pr", "Pr").field("nt", "Tp")
}

fn inputs9d() -> Vec<V> {
    let mut v = inputs9();
    v.push(V::T(vec![i(701), i(702)]));
    v.push(V::Ctor("Pr".into(), vec![], vec![("a".into(), i(703)), ("b".into(), i(704))]));
    v.push(V::Ctor("Tp".into(), vec![i(705), V::T(vec![i(706), i(707)])], vec![]));
    v
}

fn inputs9() -> Vec<V> {
    vec![i(1), i(2), V::B(false), V::None_, V::L(vec![V::T(vec![i(601), i(602)])])]
}

fn uses_pattern(v: &[S]) -> bool {
    v.iter().any(|x| match x {
        S::D(_) => true,
        S::C(_, b) => uses_pattern(b),
        _ => false,
    })
}

fn scopes(p: &mut Part) {
    let all: Vec<usize> = (0..CONT).collect();
    let leafs = [S::LetA, S::AB, S::BA];
    let full = [S::LetA, S::LetB, S::AB, S::BA, S::Inc];
    let mut su = Suite::new();
    let inp = [inputs9d()];
    let mut add = |v: Vec<S>| su.add(&model(&v), &inp);
    for n in 0..=2 {
        seqs(n, &all, &full).into_iter().for_each(&mut add);
    }
    let pats: Vec<S> = (0..8).map(S::D).chain([S::LetA, S::BA]).collect();
    for n in 1..=2 {
        seqs(n, &all, &pats).into_iter().filter(|v| uses_pattern(v)).for_each(&mut add);
    }
    if thorough() {
        seqs(3, &[0, 1, 3, 6], &pats).into_iter().filter(|v| uses_pattern(v)).for_each(&mut add);
        seqs(3, &all, &full).into_iter().for_each(&mut add);
        seqs(4, &[0, 1, 3, 5, 6], &leafs).into_iter().for_each(&mut add);
    } else {
        seqs(3, &[0, 1, 3, 5, 6], &leafs).into_iter().for_each(&mut add);
        seqs(3, &[4, 7, 8, 10, 11], &[S::LetA, S::BA]).into_iter().for_each(&mut add);
    }
    su.run(p, "c09a", 150);
}

// ------------------------------------------------------------------ declare, then assign

/// Sequences of nodes that assign x exactly once on every path.
fn assigns(d: usize) -> Vec<Vec<N>> {
    let a = |k: i64| let_("x", int(k));
    let mut r: Vec<Vec<N>> = vec![vec![a(1)], vec![t("p"), a(2), outv("x"), t("q")], vec![let_("y", int(5)), let_("x", bin("+", var("y"), int(1)))], vec![out(E::SelfF("x".into())), a(3)]];
    if d == 0 {
        return r;
    }
    let sub = assigns(d - 1);
    for s1 in &sub {
        for s2 in sub.iter().take(if d > 1 { 6 } else { 4 }) {
            let some = P::Tuple("Some".into(), vec![pn("v")]);
            r.push(vec![ifelse(var("c"), s1.clone(), s2.clone())]);
            r.push(vec![N::Match(N0, var("o"), "".into(), vec![(N0, some.clone(), s1.clone()), (N0, P::Path("None".into()), s2.clone())], N0)]);
            r.push(vec![N::If(vec![(N0, Some(Cond::Let(some.clone(), var("o"))), s1.clone()), (N0, Some(Cond::Expr(var("c"))), s2.clone()), (N0, None, vec![a(9)])], N0)]);
        }
        r.push(vec![N::Filter(vec![("upper".into(), vec![])], N0, vec![t("f"), outv("y")], N0)].into_iter().chain(s1.clone()).collect());
    }
    r
}

fn declared(p: &mut Part) {
    let mut su = Suite::new();
    let ob = [V::None_, some(i(1))];
    let mut inputs = vec![];
    for c in [true, false] {
        for o in &ob {
            inputs.push(vec![i(100), i(200), V::B(c), o.clone()]);
        }
    }
    let decl = || N::Let(pn("x"), None, N0);
    let fields = |m: Model| m.field("x", "i32").field("y", "i32").field("c", "bool").field("o", "Option<i32>");
    for (k, s) in assigns(if thorough() { 2 } else { 1 }).into_iter().enumerate() {
        let mut pre: Vec<Vec<N>> = vec![vec![], vec![outv("x")], vec![let_("x", int(7)), outv("x")]];
        if k % 3 != 0 {
            pre.truncate(2);
        }
        for pr in pre {
            let mut n = pr.clone();
            n.push(decl());
            n.extend(s.clone());
            n.extend([t("="), outv("x"), outv("y")]);
            su.add(&fields(Model::inline(n.clone(), false)), &inputs);
            // In a scope of its own: afterwards the former binding is back.
            let mut m = pr.clone();
            m.push(for_("w", E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false), n.clone()));
            m.push(outv("x"));
            su.add(&fields(Model::inline(m, false)), &inputs);
            let mut m = pr.clone();
            m.push(if_(lit(V::B(true)), n.clone()));
            m.push(outv("x"));
            su.add(&fields(Model::inline(m, false)), &inputs);
            // Shadowed afterwards: in the same scope, in inner scopes, declared and assigned again.
            let show = |v: Vec<N>| [v, vec![t("/"), outv("x")]].concat();
            let posts = [
                vec![if_(var("c"), show(vec![let_("x", int(11))]))],
                show(vec![let_("x", int(12))]),
                vec![ifelse(var("c"), show(vec![let_("x", int(13))]), show(vec![let_("x", int(14))]))],
                vec![decl(), ifelse(var("c"), vec![let_("x", int(15))], vec![let_("x", int(16))])],
                vec![for_("x", E::Range(Some(Box::new(int(17))), Some(Box::new(int(19))), false), show(vec![let_("y", int(20))]))],
                vec![if_(var("c"), show(vec![decl(), ifelse(var("c"), vec![let_("x", int(21))], vec![let_("x", int(22))])]))],
            ];
            for (j, post) in posts.into_iter().enumerate() {
                if j < 3 || thorough() || (k + j) % 5 == 0 {
                    let m = show([n.clone(), post].concat());
                    su.add(&fields(Model::inline(m, false)), &inputs);
                }
            }
        }
    }
    // Branches that assign and then shadow the variable, declare their own, or leave the loop.
    let one = |n: i64| let_("x", int(n));
    let shadow = |n: i64| vec![one(n), outv("x"), one(n + 1), outv("x")];
    let own = |n: i64| vec![decl(), ifelse(var("c"), vec![one(n)], vec![one(n + 1)]), outv("x")];
    let some = || P::Tuple("Some".into(), vec![pn("v")]);
    let lists = [
        vec![decl(), ifelse(var("c"), shadow(31), vec![one(33)]), outv("x"), if_(var("c"), shadow(35)), outv("x")],
        vec![decl(), ifelse(var("c"), shadow(31), shadow(33)), outv("x"), one(37), outv("x")],
        vec![let_("x", int(40)), ifelse(var("c"), own(41), own(43)), outv("x")],
        vec![ifelse(var("c"), own(41), own(43)), outv("x"), one(45), outv("x")],
        vec![decl(), ifelse(var("c"), own(41), vec![t("n")]), one(45), outv("x")],
        vec![decl(), ifelse(var("c"), vec![if_(var("c"), own(41))], own(43)), ifelse(var("c"), vec![one(45)], vec![one(46)]), outv("x")],
        vec![decl(), N::Match(N0, var("o"), "".into(), vec![(N0, some(), vec![if_(var("c"), own(51)), one(53)]), (N0, P::Path("None".into()), vec![one(54)])], N0), outv("x")],
        vec![decl(), N::If(vec![(N0, Some(Cond::Let(some(), var("o"))), vec![N::Let(P::Name("x".into()), Some(E::Via(Box::new(var("v")), ".abs()".into())), N0)]), (N0, None, vec![one(55)])], N0), outv("y")],
    ];
    for l in lists {
        su.add(&fields(Model::inline(l.clone(), false)), &inputs);
        let m = vec![for_("w", E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false), l.clone()), outv("x")];
        su.add(&fields(Model::inline(m, false)), &inputs);
    }
    for (j, stop) in [N::Break(N0), N::Continue(N0)].into_iter().enumerate() {
        let leave = |v: Vec<N>| [v, vec![stop.clone()]].concat();
        let then = vec![ifelse(var("c"), vec![one(61)], vec![one(62)]), outv("x"), one(63), outv("x")];
        for first in [
            if_(bin("==", E::Via(Box::new(var("w")), ".abs()".into()), int(j as i64)), leave(vec![one(64), outv("x")])),
            if_(var("c"), leave(vec![t("b")])),
            ifelse(var("c"), leave(vec![one(64), outv("x")]), vec![t("e")]),
            N::Match(N0, var("o"), "".into(), vec![(N0, some(), leave(vec![one(65), outv("x")])), (N0, P::Path("None".into()), vec![])], N0),
        ] {
            let body = [vec![decl(), first], then.clone()].concat();
            let m = vec![for_("w", E::Known("0i32..3".into(), V::L(vec![i(0), i(1), i(2)])), body), t(";"), outv("x")];
            su.add(&fields(Model::inline(m, false)), &inputs);
        }
    }
    su.run(p, "c09b", 120);
}

// ------------------------------------------------------------------ repeated outputs

const PRE: &str = "pub struct Ob { pub n: i32, pub s: &'static str } impl Ob { pub fn nx(&self) -> i32 { crate::nx() } pub fn m(&self, k: i32) -> i32 { self.n * k } }\npub fn two(x: &i32) -> i32 { *x * 2 }\n";

fn repeats(p: &mut Part) {
    let mut su = Suite::new();
    let ob = || var("ob");
    let exprs: Vec<E> = vec![
        var("a"),
        st("<lit>"),
        int(42),
        bin("+", var("a"), var("b")),
        filt(var("s"), "upper", vec![]),
        filt(var("s"), "safe", vec![]),
        filt(var("l"), "join", vec![st(",")]),
        attr(ob(), "s"),
        E::Known("ob.m(3)".into(), V::I(15)),
        E::Index(Box::new(var("l")), Box::new(int(0))),
        E::Group(Box::new(var("s"))),
        E::SelfF("a".into()),
        E::Call("crate::tr".into(), vec![int(5)]),
        filt(filt(var("s"), "lower", vec![]), "e", vec![]),
        E::Known("self::two(a)".into(), V::I(2)),
        lit(V::C('c')),
        E::Known("format!(\"{}-{}\", self.a, self.b)".into(), s("1-2")),
        lit(V::B(true)),
        E::Try(Box::new(var("rs"))),
        un("-", var("a")),
        filt(var("s"), "truncate", vec![int(2)]),
    ];
    let n = exprs.len();
    let fields = |mut m: Model| {
        m.prelude = PRE.into();
        m.trace = true;
        m.field("a", "i32").field("b", "i32").field("s", "&'static str").field("l", "&'static [i32]").field("ob", "Ob").field("rs", "Result<i32, std::fmt::Error>")
    };
    let inputs = vec![vec![
        i(1),
        i(2),
        s("a<B"),
        V::L(vec![i(3), i(4)]),
        V::Ctor("Ob".into(), vec![], vec![("n".into(), i(5)), ("s".into(), s("o'"))]),
        V::Ok_(Box::new(i(6))),
    ]];
    let seps: Vec<(Vec<N>, bool)> = vec![
        (vec![], true),
        (vec![t(" & ")], true),
        (vec![let_("zz", int(3))], true),
        (vec![if_(lit(V::B(true)), vec![t("i")])], true),
        (vec![N::Comment("c".into(), N0)], true),
        (vec![let_("a", E::Known("70i32".into(), i(70)))], false),
        (vec![for_("q", E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false), vec![outv("q")])], true),
        (vec![N::Raw("{{ a }}".into(), N0, N0)], true),
    ];
    let deep = thorough();
    let refs_a = |k: usize| [0usize, 3, 14, 16, 19].contains(&k);
    let mut case = |seq: &[usize], sep: &[N], html: bool, changes: bool| {
        if changes && seq[1..].iter().any(|k| *k == 14 || *k == 16) {
            return;
        }
        let mut v = vec![];
        for (k, j) in seq.iter().enumerate() {
            if k > 0 {
                v.extend(sep.iter().cloned());
            }
            v.push(out(exprs[*j].clone()));
        }
        su.add(&fields_trace(fields(Model::inline(v, html))), &inputs);
    };
    fn fields_trace(m: Model) -> Model {
        m
    }
    for x in 0..n {
        for y in 0..n {
            for (k, (sep, plain)) in seps.iter().enumerate() {
                if *plain || refs_a(x) || refs_a(y) {
                    case(&[x, y], sep, true, !plain);
                    if k < 2 || x == y {
                        case(&[x, y, x], sep, k % 2 == 0, !plain);
                        case(&[x, x, y], sep, k % 2 == 1, !plain);
                    }
                }
            }
            if deep {
                for z in 0..n {
                    case(&[x, y, z], &[], true, false);
                    case(&[x, y, z, x], &seps[1].0, true, false);
                }
            }
        }
    }
    su.run(p, "c09c", 150);

    // Whatever may have effects is evaluated each time it is written.
    let mut su = Suite::new();
    let nx = |n: &str| E::Call(n.into(), vec![]);
    let mut effects: Vec<E> = vec![];
    for base in [nx("crate::nx"), nx("crate::nxm!"), nx("ob.nx"), E::Try(Box::new(nx("crate::rnx")))] {
        let e = || base.clone();
        effects.extend([
            e(),
            E::Group(Box::new(e())),
            E::Group(Box::new(E::Group(Box::new(e())))),
            bin("+", e(), int(0)),
            bin("+", int(0), e()),
            bin("+", e(), e()),
            un("-", e()),
            filt(e(), "e", vec![]),
            filt(e(), "safe", vec![]),
            filt(filt(e(), "lower", vec![]), "upper", vec![]),
            filt(st("x"), "cat", vec![e()]),
            filt(st("x"), "cat2", vec![st("y"), e()]),
            filt(filt(st("x"), "cat", vec![e()]), "cat", vec![int(0)]),
            filt(E::Arr(vec![e(), int(0)]), "join", vec![st(",")]),
            E::Index(Box::new(E::Arr(vec![int(0), e()])), Box::new(int(1))),
            E::Index(Box::new(E::Arr(vec![e(), int(0)])), Box::new(int(0))),
            E::Index(Box::new(var("l")), Box::new(bin("-", E::Via(Box::new(E::Via(Box::new(e()), ".min(1)".into())), " as usize".into()), int(1)))),
            attr(E::Tup(vec![int(0), e()]), "1"),
            attr(E::Tup(vec![e(), int(0)]), "0"),
            E::Cycle(vec![e(), int(0)]),
            E::Call("crate::tr".into(), vec![e()]),
        ]);
    }
    let simple = |e: &E| !matches!(e, E::Index(a, _) if matches!(**a, E::Var(_))) && !matches!(e, E::Cycle(_));
    let two = || E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false);
    for (x, ex) in effects.iter().enumerate() {
        if !simple(ex) {
            continue;
        }
        let fields = |mut m: Model| {
            m.prelude = format!("{PRE}{}", vkit::filters::USER_FILTERS);
            m.trace = true;
            m.field("a", "i32").field("ob", "Ob")
        };
        let inputs = [vec![i(1), V::Ctor("Ob".into(), vec![], vec![("n".into(), i(5)), ("s".into(), s("o'"))])]];
        let o = || out(ex.clone());
        let mut lists = vec![
            vec![o(), o()],
            vec![t("<"), o(), t(","), o(), t(","), o(), t(">")],
            vec![o(), outv("a"), o(), let_("z", int(1)), o(), o()],
            vec![for_("q", two(), vec![o(), t(","), o()]), o()],
            vec![if_(lit(V::B(true)), vec![o(), o()]), o(), o()],
            vec![let_("z", ex.clone()), outv("z"), outv("z"), o(), outv("z")],
            vec![macro_("m", &["p"], vec![outv("p"), t(","), outv("p")]), call("m", vec![ex.clone()]), o(), call("m", vec![ex.clone()])],
            vec![N::Filter(vec![("upper".into(), vec![])], N0, vec![o(), o()], N0), o()],
        ];
        // A `let` or parameter cannot hold what borrows a temporary value.
        if matches!(ex, E::Filter(..) | E::Index(..)) {
            lists.drain(5..7);
        }
        for (y, ey) in effects.iter().enumerate() {
            if simple(ey) && y != x && (deep || (x + y) % 7 == 0) {
                lists.push(vec![o(), out(ey.clone()), o(), t("-"), out(ey.clone())]);
            }
        }
        for (k, l) in lists.into_iter().enumerate() {
            su.add(&fields(Model::inline(l, k % 2 == 0)), &inputs);
        }
    }
    su.run(p, "c09e", 150);
}

// ------------------------------------------------------------------ includes, blocks, parents

fn files(p: &mut Part) {
    let mut su = Suite::new();
    let inp = [inputs9()];
    let kinds = [S::LetA, S::BA, S::AB];
    let small: Vec<Vec<S>> = (0..=2).flat_map(|n| seqs(n, &[0, 1], &kinds)).filter(|v| v.len() <= 2).collect();
    let nodes = |v: &[S], from: i64| {
        let mut b = Build { next: from, macros: vec![] };
        let mut o = vec![];
        b.seq(v, &mut o);
        o
    };
    for x in &small {
        for y in &small {
            if x.len() + y.len() > 3 || (!thorough() && x.len() + y.len() > 2) {
                continue;
            }
            let (xs, ys) = (nodes(x, 10), nodes(y, 50));
            let mut around = xs.clone();
            around.push(N::Include("i.txt".into(), N0));
            around.extend(probe());
            su.add(&Model::files("r.txt", vec![("r.txt", around.clone()), ("i.txt", ys.clone())]).field("a", "i32").field("b", "i32").field("no", "bool").field("none", "Option<i32>").field("ps", "&'static [(i32, i32)]"), &inp);
            // In a loop body, and twice.
            let l = vec![for_("a", E::Arr(vec![E::Known("90i32".into(), i(90)), E::Known("91i32".into(), i(91))]), around.clone()), N::Include("i.txt".into(), N0), outv("a"), outv("b")];
            su.add(&Model::files("r.txt", vec![("r.txt", l), ("i.txt", ys.clone())]).field("a", "i32").field("b", "i32").field("no", "bool").field("none", "Option<i32>").field("ps", "&'static [(i32, i32)]"), &inp);
            // Blocks see the fields only.
            let mut bl = xs.clone();
            bl.push(block("k", ys.clone()));
            bl.extend(probe());
            bl.push(block("j", probe()));
            su.add(&Model::files("r.txt", vec![("r.txt", bl.clone())]).field("a", "i32").field("b", "i32").field("no", "bool").field("none", "Option<i32>").field("ps", "&'static [(i32, i32)]"), &inp);
            let child = vec![N::Extends("r.txt".into()), block("j", { let mut v = nodes(x, 70); v.push(N::Super(N0)); v.extend(probe()); v })];
            su.add(&Model::files("c.txt", vec![("c.txt", child), ("r.txt", bl)]).field("a", "i32").field("b", "i32").field("no", "bool").field("none", "Option<i32>").field("ps", "&'static [(i32, i32)]"), &inp);
        }
    }
    su.run(p, "c09d", 150);
}

/// What the variable is called does not matter: with an initial underscore, without case, and (where
/// no field can be meant) in uppercase.
fn called(p: &mut Part) {
    let mut su = Suite::new();
    let names = ["x", "_x", "__x", "_0", "x_", "xY", "\u{540d}", "_\u{540d}", "_self", "\u{e9}", "X", "XY", "X_1", "\u{c9}"];
    let inputs: Vec<Vec<V>> = [(true, V::None_), (false, V::None_), (true, some(i(6))), (false, some(i(6)))].into_iter().map(|(c, o)| vec![V::B(c), o, V::T(vec![i(71), i(72)]), i(100)]).collect();
    for name in names {
        let field = !name.chars().next().unwrap().is_uppercase();
        let (l, o) = (|n: i64| let_(name, int(n)), || outv(name));
        let decl = || N::Let(pn(name), None, N0);
        let tp = |a: P, b: P| N::Let(P::Tuple("".into(), vec![a, b]), Some(var("tp")), N0);
        let mut steps: Vec<(bool, Vec<N>)> = vec![
            (false, vec![l(1)]),
            (false, vec![l(1), o(), l(2)]),
            (false, vec![l(3), if_(var("c"), vec![o(), l(4), o()])]),
            (false, vec![l(3), for_("w", E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false), vec![o(), l(5), o(), l(6), o()])]),
        ];
        if field {
            steps.extend([
                (true, vec![]),
                (false, vec![tp(P::Wild, pn(name))]),
                (false, vec![tp(pn(name), P::Wild)]),
                (false, vec![l(1), tp(P::Wild, pn(name))]),
                (false, vec![l(1), ifelse(var("c"), vec![tp(P::Wild, pn(name)), o()], vec![tp(pn(name), P::Wild), o()])]),
                (false, vec![decl(), ifelse(var("c"), vec![l(8)], vec![l(9), o(), l(10), o()])]),
                (false, vec![decl(), N::Match(N0, var("o"), "".into(), vec![(N0, P::Tuple("Some".into(), vec![pn("q")]), vec![l(11)]), (N0, P::Path("None".into()), vec![l(12)])], N0)]),
                (true, vec![N::Match(N0, var("o"), "".into(), vec![(N0, P::Tuple("Some".into(), vec![pn(name)]), vec![o(), l(13), o()]), (N0, P::Path("None".into()), vec![o()])], N0)]),
                (true, vec![N::If(vec![(N0, Some(Cond::Let(P::Tuple("Some".into(), vec![pn(name)]), var("o"))), vec![o()]), (N0, None, vec![o(), l(14), o()])], N0)]),
                (true, vec![for_(name, E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false), vec![o(), l(15), o()])]),
                (true, vec![macro_("m", &[name], vec![o(), l(16), o()]), call("m", vec![int(17)]), call("m", vec![un("-", var(name))])]),
                (true, vec![if_(var("c"), vec![l(18), o()])]),
            ]);
        }
        for (_, a) in &steps {
            for (free, b) in &steps {
                // A second declaration is of no use after the first.
                if !field && *free {
                    continue;
                }
                for k in 0..3 {
                    let mut n = vec![t("[")];
                    n.extend(a.clone());
                    if k != 1 {
                        n.push(t("|"));
                        if field || !a.is_empty() {
                            n.push(o());
                        }
                    }
                    match k {
                        2 => n.push(if_(var("c"), [b.clone(), vec![o()]].concat())),
                        _ => n.extend(b.clone()),
                    }
                    n.extend([t("="), o()]);
                    let n = if k == 1 && field { [vec![t("<"), o()], n].concat() } else { n };
                    // Macros are declared once, on the top level.
                    let macros = n.iter().filter(|x| matches!(x, N::Macro(..))).count();
                    if macros > 1 || (k == 2 && b.iter().any(|x| matches!(x, N::Macro(..)))) {
                        continue;
                    }
                    let mut m = Model::inline(n, false).field("c", "bool").field("o", "Option<i32>").field("tp", "(i32, i32)");
                    if field {
                        m = m.field(name, "i32");
                        su.add(&m, &inputs);
                    } else {
                        let inputs: Vec<Vec<V>> = inputs.iter().map(|v| v[..3].to_vec()).collect();
                        su.add(&m, &inputs);
                    }
                }
            }
        }
    }
    su.run(p, "c09e", 150);
}

fn main() {
    let mut p = Part::from_args();
    called(&mut p);
    scopes(&mut p);
    declared(&mut p);
    repeats(&mut p);
    files(&mut p);
    p.finish();
}
