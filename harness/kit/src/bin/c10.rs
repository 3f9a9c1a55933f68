//! C10: a macro call renders the macro body with its parameters bound to the arguments.
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;

fn add(a: &str, b: &str) -> E {
    bin("+", var(a), var(b))
}

fn k(n: i64) -> E {
    E::Known(format!("{n}i32"), V::I(n))
}

/// Bodies of a macro with parameters p and q. `inner`: macro to call, with (x, y) parameters.
fn bodies(p: &str, q: &str) -> Vec<(Vec<N>, bool)> {
    let show = || vec![t("("), outv(p), t(","), outv(q), t(")")];
    let with = |pre: Vec<N>, post: Vec<N>| {
        let mut v = pre;
        v.extend(show());
        v.extend(post);
        v
    };
    let some = |n: &str| P::Tuple("Some".into(), vec![pn(n)]);
    vec![
        (show(), false),
        (vec![outv(q), t(";"), outv(p)], false),
        (vec![outv(p), outv(p)], false),
        (vec![t("-")], false),
        (with(vec![let_("z", k(50)), outv("z")], vec![]), false),
        // The body shadows parameters.
        (with(vec![let_(p, k(51))], vec![]), false),
        (with(vec![let_(q, var(p))], vec![]), false),
        (with(vec![let_(p, var(q)), let_(q, k(52))], vec![]), false),
        (with(vec![for_(p, E::Arr(vec![k(53), k(54)]), show())], vec![]), false),
        (with(vec![for_("i", E::Arr(vec![k(55)]), vec![let_(q, var("i")), outv(q)])], vec![]), false),
        (with(vec![N::If(vec![(N0, Some(Cond::Let(some(q), E::Ctor("Some".into(), vec![k(56)]))), show())], N0)], vec![]), false),
        (with(vec![N::Match(N0, E::Ctor("Some".into(), vec![k(57)]), "".into(), vec![(N0, some(p), show()), (N0, pn("__else"), vec![])], N0)], vec![]), false),
        (with(vec![], vec![out(add(p, q))]), false),
        (vec![if_(bin("==", E::Via(Box::new(var(p)), ".abs()".into()), int(1)), vec![t("one")]), outv(q)], false),
        // Uses names of the caller or the fields for its own variables.
        (with(vec![let_("a", var(p)), let_("b", var(q)), outv("a")], vec![]), false),
        (with(vec![let_("l", k(58)), outv("l")], vec![]), false),
        (vec![N::Filter(vec![("upper".into(), vec![])], N0, show(), N0)], false),
        // Calls another macro with its parameters, in order, swapped, by name.
        (with(vec![call("in", vec![var(p), var(q)])], vec![]), true),
        (with(vec![call("in", vec![var(q), var(p)])], show()), true),
        (vec![N::Call(None, "in".into(), vec![(Some("y".into()), var(p)), (Some("x".into()), var(q))], N0)], true),
        (vec![call("in", vec![k(59), var(p)]), call("in", vec![var(q), k(60)])], true),
        (vec![let_(p, k(61)), call("in", vec![var(p), var(q)])], true),
        (vec![for_(q, E::Arr(vec![k(62)]), vec![call("in", vec![var(q), var(p)])]), outv(q)], true),
        (vec![if_(bin("!=", E::Via(Box::new(var(p)), ".abs()".into()), int(7)), vec![call("in", vec![var(p), var(p)])]), call("in", vec![var(q), var(q)])], true),
    ]
}

const BEFORE: usize = 5;

/// What precedes the call: local variables called like the parameters or like the fields.
fn before(n: usize) -> Vec<N> {
    match n {
        0 => vec![],
        1 => vec![let_("l", k(20)), let_("p", k(21)), let_("q", k(22))],
        2 => vec![let_("q", k(23)), let_("l", var("q"))],
        3 => vec![let_("a", k(24)), let_("l", k(25)), let_("x", var("a"))],
        _ => vec![let_("p", var("a")), let_("l", var("b"))],
    }
}

/// Arguments valid after `before(n)`.
fn args(n: usize) -> Vec<E> {
    let mut v = vec![k(3), var("a"), var("b"), add("a", "b"), filt(var("a"), "inc", vec![var("b")]), E::SelfF("b".into())];
    match n {
        0 => {}
        1 => v.extend([var("p"), var("q"), var("l"), add("p", "q"), filt(var("q"), "inc", vec![var("p")])]),
        2 => v.extend([var("q"), var("l"), add("q", "a"), E::Group(Box::new(var("q")))]),
        3 => v.extend([var("l"), var("x"), un("-", var("x"))]),
        _ => v.extend([var("p"), var("l"), add("l", "p")]),
    }
    v
}

fn inner() -> N {
    macro_("in", &["x", "y"], vec![t("<"), outv("x"), t("|"), outv("y"), let_("x", k(80)), outv("x"), t(">")])
}

fn fields(mut m: Model) -> Model {
    m.prelude = vkit::filters::USER_FILTERS.into();
    m.field("a", "i32").field("b", "i32").field("c", "i32")
}

fn k_(n: usize) -> E {
    k(50 + n as i64)
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let inp = [vec![i(1), i(2), i(7)]];
    let mut su = Suite::new();
    let pars: &[(&str, &str)] = &[("p", "q"), ("a", "b"), ("b", "a"), ("q", "l"), ("a", "zz"), ("x", "y"), ("y", "x")];
    // Every body x parameter names x caller context x pair of arguments x order of naming.
    for (pi, (pp, qq)) in pars.iter().enumerate() {
        for (bi, (body, nested)) in bodies(pp, qq).into_iter().enumerate() {
            if pp == &"l" || qq == &"l" && bi == 15 {
                continue;
            }
            for n in 0..BEFORE {
                let av = args(n);
                for (x, ex) in av.iter().enumerate() {
                    for (y, ey) in av.iter().enumerate() {
                        // In the quick tier a fixed slice of the product: everything for two
                        // parameter names, a diagonal of arguments for the others.
                        if !deep && pi >= 2 && (x + 2 * y + bi) % 9 != 0 {
                            continue;
                        }
                        if !deep && pi < 2 && (x * 3 + y + bi + n) % 4 != 0 {
                            continue;
                        }
                        let named = |v: Vec<(Option<&str>, &E)>| N::Call(None, "m".into(), v.into_iter().map(|(n, e)| (n.map(|x| x.to_string()), e.clone())).collect(), N0);
                        let forms = [
                            named(vec![(None, ex), (None, ey)]),
                            named(vec![(Some(pp), ex), (Some(qq), ey)]),
                            named(vec![(Some(qq), ey), (Some(pp), ex)]),
                            named(vec![(None, ex), (Some(qq), ey)]),
                        ];
                        let mut nodes = vec![];
                        if nested {
                            nodes.push(inner());
                        }
                        nodes.push(macro_("m", &[pp, qq], body.clone()));
                        nodes.extend(before(n));
                        nodes.push(t("A"));
                        // Two calls of different forms: earlier calls do not matter.
                        let f = (x + y + bi) % 4;
                        nodes.push(forms[f].clone());
                        nodes.push(t("B"));
                        nodes.push(forms[(f + 1 + bi % 3) % 4].clone());
                        nodes.extend([outv("a"), outv("b"), t("C")]);
                        if n > 0 {
                            nodes.push(outv("l"));
                        }
                        su.add(&fields(Model::inline(nodes, false)), &inp);
                    }
                }
            }
        }
    }
    su.run(&mut p, "c10a", 250);

    // Call sites: in loops, branches, blocks, filter blocks, other macros; the argument is what it means there.
    let mut su = Suite::new();
    for (pp, qq) in [("p", "q"), ("a", "b"), ("v", "w"), ("w", "v")] {
        for (body, nested) in bodies(pp, qq) {
            let m = |nodes: Vec<N>| {
                let mut v = vec![];
                if nested {
                    v.push(inner());
                }
                v.push(macro_("m", &[pp, qq], body.clone()));
                v.extend(nodes);
                fields(Model::inline(v, false))
            };
            let c = |x: E, y: E| call("m", vec![x, y]);
            let some = P::Tuple("Some".into(), vec![pn("v")]);
            let opt = || E::Ctor("Some".into(), vec![k(33)]);
            let two = || E::Arr(vec![k(31), k(32)]);
            let sites: Vec<Vec<N>> = vec![
                vec![for_("v", two(), vec![c(var("v"), var("a")), outv("v")])],
                vec![for_("v", two(), vec![c(var("a"), var("v"))])],
                vec![for_("p", two(), vec![let_("w", var("p")), c(var("w"), var("p")), outv("w")])],
                vec![for_("v", two(), vec![for_("w", two(), vec![c(var("w"), var("v"))])])],
                vec![for_("v", two(), vec![if_(E::Loop("first"), vec![c(var("b"), var("v"))]), c(var("v"), var("v"))])],
                vec![N::If(vec![(N0, Some(Cond::Let(some.clone(), opt())), vec![c(var("v"), var("b")), outv("v")])], N0)],
                vec![N::Match(N0, opt(), "".into(), vec![(N0, some.clone(), vec![c(var("a"), var("v"))]), (N0, pn("__else"), vec![])], N0)],
                vec![block("k", vec![c(var("a"), var("b")), let_("v", var("b")), c(var("v"), var("a"))]), c(var("b"), var("b"))],
                vec![N::Filter(vec![("upper".into(), vec![])], N0, vec![t("f"), c(var("b"), var("a"))], N0)],
                vec![N::Filter(vec![("wrap".into(), vec![])], N0, vec![for_("v", two(), vec![c(var("v"), var("b"))])], N0), c(var("a"), var("a"))],
                vec![macro_("o", &["v"], vec![c(var("v"), var("v")), t("/"), c(k(1), var("v"))]), call("o", vec![var("b")]), call("o", vec![var("a")])],
                vec![macro_("o", &["p", "q"], vec![c(var("q"), var("p"))]), call("o", vec![var("a"), var("b")]), let_("p", k(70)), call("o", vec![var("b"), var("p")])],
                vec![macro_("o", &["a"], vec![let_("b", k(71)), c(var("b"), var("a"))]), call("o", vec![var("b")])],
                vec![c(E::Index(Box::new(two()), Box::new(int(1))), var("c")), c(var("c"), var("c"))],
                vec![let_("v", var("a")), c(var("v"), var("b")), let_("v", k(72)), c(var("v"), var("b")), let_("b", var("v")), c(var("a"), var("b"))],
            ];
            for s in sites {
                su.add(&m(s), &inp);
            }
        }
    }
    // Imported macros, with own helpers, through one or two imports, from blocks of a child.
    for (pp, qq) in [("p", "q"), ("a", "b"), ("x", "y")] {
        for (body, nested) in bodies(pp, qq) {
            for n in 0..BEFORE {
                let av = args(n);
                let (ex, ey) = (av[av.len() - 1].clone(), av[1 + n % 2].clone());
                let mut lib = vec![];
                if nested {
                    lib.push(inner());
                }
                lib.push(macro_("m", &[pp, qq], body.clone()));
                let c = N::Call(Some("s".into()), "m".into(), vec![(None, ex.clone()), (None, ey.clone())], N0);
                let c2 = N::Call(Some("s".into()), "m".into(), vec![(Some(qq.into()), ex.clone()), (Some(pp.into()), ey.clone())], N0);
                let imp = N::Import("lib.txt".into(), "s".into(), N0);
                // The caller has macros of the same names.
                let own = vec![macro_("in", &["x", "y"], vec![t("OWN-IN")]), macro_("m", &["z"], vec![t("OWN"), outv("z")])];
                let mut root = vec![imp.clone()];
                root.extend(own.clone());
                root.extend(before(n));
                root.extend([c.clone(), t("|"), c2.clone(), call("m", vec![ex.clone()])]);
                su.add(&fields(Model::files("r.txt", vec![("r.txt", root), ("lib.txt", lib.clone())])), &inp);
                // A library whose macro calls a macro of a second library.
                let lib2 = vec![N::Import("lib.txt".into(), "s".into(), N0), macro_("w", &["q", "p"], vec![t("w"), N::Call(Some("s".into()), "m".into(), vec![(None, var("p")), (None, var("q"))], N0), outv("q")])];
                let mut root = vec![N::Import("lib2.txt".into(), "z".into(), N0)];
                root.extend(before(n));
                root.push(N::Call(Some("z".into()), "w".into(), vec![(None, ex.clone()), (None, ey.clone())], N0));
                su.add(&fields(Model::files("r.txt", vec![("r.txt", root), ("lib2.txt", lib2), ("lib.txt", lib.clone())])), &inp);
                // From the block of a child template.
                let mut blk = before(n);
                blk.push(c);
                let child = vec![N::Extends("base.txt".into()), imp, block("k", blk)];
                let base = vec![t("<<"), block("k", vec![]), t(">>")];
                su.add(&fields(Model::files("r.txt", vec![("r.txt", child), ("base.txt", base), ("lib.txt", lib)])), &inp);
            }
        }
    }
    su.run(&mut p, "c10b", 120);

    // Numbers of parameters, all orders of named arguments.
    let mut su = Suite::new();
    for n in 0..=4usize {
        let names: Vec<String> = ["w", "a", "p", "b"].iter().take(n).map(|x| x.to_string()).collect();
        let refs: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
        let mut perms: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n {
            perms = perms.into_iter().flat_map(|q| (0..n).filter(|k| !q.contains(k)).map(|k| { let mut r = q.clone(); r.push(k); r }).collect::<Vec<_>>()).collect();
        }
        let body: Vec<N> = refs.iter().flat_map(|x| [outv(x), t(",")]).collect();
        for pos in 0..=n {
            for perm in perms.iter().filter(|q| (0..pos).all(|k| q[k] == k)) {
                let vals = [var("b"), k(40), add("a", "c"), var("a")];
                let argv: Vec<(Option<String>, E)> = perm.iter().enumerate().map(|(at, k)| (if at < pos { None } else { Some(names[*k].clone()) }, vals[*k].clone())).collect();
                let mut nodes = vec![macro_("m", &refs, body.clone()), t("[")];
                nodes.push(N::Call(None, "m".into(), argv, N0));
                nodes.push(t("]"));
                nodes.push(outv("a"));
                su.add(&fields(Model::inline(nodes, false)), &inp);
            }
        }
    }
    // Many parameters.
    for n in 5..=16usize {
        let names: Vec<String> = (0..n).map(|k| format!("{}{}", ["w", "a", "p", "b"][k % 4], (k * 7) % 16)).collect();
        let refs: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
        let body: Vec<N> = refs.iter().flat_map(|x| [outv(x), t(",")]).collect();
        for pos in 0..=n {
            let rest: Vec<usize> = (pos..n).collect();
            let mut orders = vec![rest.clone(), rest.iter().rev().copied().collect::<Vec<_>>()];
            for r in 1..rest.len() {
                let mut o = rest.clone();
                o.rotate_left(r);
                orders.push(o);
                let mut o = rest.clone();
                o.swap(0, r);
                orders.push(o);
            }
            orders.push(rest.iter().step_by(2).chain(rest.iter().skip(1).step_by(2)).copied().collect());
            for o in orders {
                let mut argv: Vec<(Option<String>, E)> = (0..pos).map(|k| (None, k_(k))).collect();
                argv.extend(o.iter().map(|k| (Some(names[*k].clone()), k_(*k))));
                su.add(&fields(Model::inline(vec![macro_("m", &refs, body.clone()), t("["), N::Call(None, "m".into(), argv, N0), t("]")], false)), &inp);
            }
        }
    }
    // Each argument is evaluated once, wherever and however often its parameter is used.
    let nx = || E::Call("crate::nx".into(), vec![]);
    let uses = [vec![], vec!["p"], vec!["q"], vec!["p", "p"], vec!["p", "q", "p"], vec!["q", "p", "q", "p"]];
    let args: Vec<E> = vec![nx(), E::Group(Box::new(nx())), bin("+", nx(), int(0)), bin("+", nx(), var("a")), un("-", nx()), filt(nx(), "e", vec![]), filt(nx(), "safe", vec![]), E::Call("crate::tr".into(), vec![nx()])];
    for u in &uses {
        let plain: Vec<N> = u.iter().flat_map(|x| [outv(x), t(",")]).collect();
        let bodies: Vec<Vec<N>> = vec![
            plain.clone(),
            vec![for_("o", E::Arr(vec![int(1), int(2)]), plain.clone())],
            vec![if_(bin("==", int(1), int(1)), plain.clone()), if_(bin("==", int(1), int(2)), plain.clone())],
            vec![call("in", vec![var("p"), var("q")]), t("/"), call("in", vec![var("q"), var("q")])],
        ];
        for b in bodies {
            for x in &args {
                for form in 0..4 {
                    let a: Vec<(Option<String>, E)> = match form {
                        0 => vec![(None, x.clone()), (None, var("a"))],
                        1 => vec![(None, var("a")), (None, x.clone())],
                        2 => vec![(Some("q".into()), x.clone()), (Some("p".into()), var("a"))],
                        _ => vec![(None, var("b")), (Some("q".into()), x.clone())],
                    };
                    let nodes = vec![macro_("in", &["p", "q"], plain.clone()), macro_("m", &["p", "q"], b.clone()), t("["), N::Call(None, "m".into(), a.clone(), N0), t("]"), out(nx()), N::Call(None, "m".into(), a, N0), out(nx())];
                    su.add(&fields(Model::inline(nodes, false)), &inp);
                }
            }
        }
    }
    // A macro is defined after its first use, and a chain of macros of depth 5.
    su.add(&fields(Model::inline(vec![call("m", vec![var("a")]), macro_("m", &["b"], vec![outv("b")])], false)), &inp);
    for d in 1..=5 {
        let mut v = vec![];
        for j in 0..d {
            let b = if j == 0 { vec![outv("p"), outv("q")] } else { vec![outv("p"), call(&format!("m{}", j - 1), vec![add("p", "q"), var("p")]), outv("q")] };
            v.push(macro_(&format!("m{j}"), &["p", "q"], b));
        }
        v.push(call(&format!("m{}", d - 1), vec![var("b"), var("a")]));
        su.add(&fields(Model::inline(v, false)), &inp);
    }
    su.run(&mut p, "c10c", 120);
    p.finish();
}
