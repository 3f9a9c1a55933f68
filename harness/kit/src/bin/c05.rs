//! C05: expressions have the value they have in Rust. Exhaustive over typed operator chains.
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;

const INT_OPS: [&str; 10] = ["+", "-", "*", "/", "%", "|", "^", "&", "<<", ">>"];
const CMP_OPS: [&str; 6] = ["==", "!=", "<", ">", "<=", ">="];
const BOOL_OPS: [&str; 7] = ["&&", "||", "|", "^", "&", "==", "!="];

/// Bundle of values the operands may take: v-th assignment of the k-th operand.
const INTS: [[i64; 5]; 8] = [
    [5, 2, 1, 3, 2],
    [7, 3, 2, 1, 4],
    [1, 2, 3, 4, 5],
    [12, 5, 3, 2, 1],
    [9, 1, 4, 2, 3],
    [2, 2, 2, 1, 1],
    [3, 1, 1, 1, 2],
    [6, 4, 1, 0, 3],
];
const BOOLS: [[bool; 5]; 8] = [
    [true, false, false, true, false],
    [false, true, true, false, true],
    [false, false, true, true, false],
    [true, true, false, false, true],
    [false, true, false, true, true],
    [true, false, true, false, false],
    [true, true, true, false, true],
    [false, false, false, true, true],
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    I,
    B,
}

/// Type of a tree, None if Rust rejects it.
fn ty(e: &E) -> Option<Ty> {
    Some(match e {
        E::Var(n) => if n.starts_with('i') { Ty::I } else { Ty::B },
        E::Lit(V::I(_)) => Ty::I,
        E::Group(a) => ty(a)?,
        E::Un("-", a) => (ty(a)? == Ty::I).then_some(Ty::I)?,
        E::Un(_, a) => ty(a)?,
        E::Filter(a, n, args) => {
            for x in args {
                (ty(x)? == Ty::I).then_some(())?;
            }
            match n.as_str() {
                "mag" | "inc" => (ty(a)? == Ty::I).then_some(Ty::I)?,
                _ => (ty(a)? == Ty::B).then_some(Ty::B)?,
            }
        }
        E::Bin(op, a, b) => {
            let (x, y) = (ty(a)?, ty(b)?);
            if x != y {
                return None;
            }
            if CMP_OPS.contains(op) {
                // Comparisons do not chain in Rust.
                for s in [a, b] {
                    if let E::Bin(o, ..) = &**s {
                        if CMP_OPS.contains(o) {
                            return None;
                        }
                    }
                }
                return Some(Ty::B);
            }
            match x {
                Ty::I if INT_OPS.contains(op) => Ty::I,
                Ty::B if BOOL_OPS.contains(op) => Ty::B,
                _ => return None,
            }
        }
        _ => return None,
    })
}

/// Rust's grouping of a flat chain.
fn climb(xs: &[E], ops: &[&'static str]) -> E {
    if ops.is_empty() {
        return xs[0].clone();
    }
    // The last operator of the lowest precedence is the outermost (all are left associative).
    let lo = ops.iter().map(|o| prec(o)).min().unwrap();
    let k = ops.iter().rposition(|o| prec(o) == lo).unwrap();
    bin(ops[k], climb(&xs[..k + 1], &ops[..k]), climb(&xs[k + 1..], &ops[k + 1..]))
}

/// All groupings of a flat chain.
fn groupings(xs: &[E], ops: &[&'static str]) -> Vec<E> {
    if ops.is_empty() {
        return vec![xs[0].clone()];
    }
    let mut v = vec![];
    for k in 0..ops.len() {
        for a in groupings(&xs[..k + 1], &ops[..k]) {
            for b in groupings(&xs[k + 1..], &ops[k + 1..]) {
                v.push(bin(ops[k], a.clone(), b));
            }
        }
    }
    v
}

fn no_panic(e: &E, f: &[(String, V)]) -> Option<V> {
    // Evaluate with checked arithmetic; None if Rust would panic.
    fn ev(e: &E, f: &[(String, V)]) -> Option<V> {
        Some(match e {
            E::Var(n) => f.iter().find(|(k, _)| k == n).unwrap().1.clone(),
            E::Lit(v) => v.clone(),
            E::Group(a) => ev(a, f)?,
            E::Un("-", a) => V::I(-ev(a, f)?.int()),
            E::Un(_, a) => match ev(a, f)? {
                V::B(b) => V::B(!b),
                V::I(k) => V::I(!(k as i32) as i64),
                _ => return None,
            },
            E::Filter(a, n, args) => {
                let x = ev(a, f)?;
                let mut av = vec![];
                for b in args {
                    av.push(ev(b, f)?);
                }
                match (n.as_str(), x) {
                    ("mag", V::I(k)) => V::I(k.abs()),
                    ("inc", V::I(k)) => V::I(k + av[0].int()),
                    (_, V::B(b)) => V::B(!b),
                    _ => return None,
                }
            }
            E::Bin("&&", a, b) => match ev(a, f)? {
                V::B(false) => V::B(false),
                _ => ev(b, f)?,
            },
            E::Bin("||", a, b) => match ev(a, f)? {
                V::B(true) => V::B(true),
                _ => ev(b, f)?,
            },
            E::Bin(op, a, b) => binop(op, &ev(a, f)?, &ev(b, f)?)?,
            _ => return None,
        })
    }
    ev(e, f)
}

/// `x|f | y`: the bit-or directly after a filter without arguments is read as a filter
/// (known finding, covered by a case of its own); such chains are spelled with parentheses.
fn guard(e: E) -> E {
    fn bare(e: &E) -> bool {
        match e {
            E::Filter(_, _, a) => a.is_empty(),
            E::Bin(_, _, b) => bare(b),
            E::Un(_, a) => bare(a),
            _ => false,
        }
    }
    match e {
        E::Bin(op, a, b) => {
            let (a, b) = (guard(*a), guard(*b));
            if op == "|" && bare(&a) { bin(op, E::Group(Box::new(a)), b) } else { bin(op, a, b) }
        }
        e => e,
    }
}

/// Fields i<v><k>, b<v><k> for every assignment.
fn fields() -> Vec<(String, V)> {
    let mut f = vec![];
    for v in 0..INTS.len() {
        for k in 0..5 {
            f.push((format!("i{v}{k}"), V::I(INTS[v][k])));
            f.push((format!("b{v}{k}"), V::B(BOOLS[v][k])));
        }
    }
    f
}

fn operand(t: Ty, v: usize, k: usize) -> E {
    var(&format!("{}{v}{k}", if t == Ty::I { "i" } else { "b" }))
}

struct Gen {
    f: Vec<(String, V)>,
    exprs: Vec<E>,
    combos: u64,
}

impl Gen {
    /// A chain: operand builders and operators. Picks up to `want` assignments, preferring those
    /// which tell Rust's grouping from the other groupings.
    fn chain(&mut self, ts: &[Ty], ops: &[&'static str], deco: &dyn Fn(usize, E) -> E, want: usize) {
        let mk = |v: usize| -> Vec<E> { ts.iter().enumerate().map(|(k, t)| deco(k, operand(*t, v, k))).collect() };
        let tree = climb(&mk(0), ops);
        if ty(&tree).is_none() {
            return;
        }
        self.combos += 1;
        let mut cand: Vec<(usize, usize)> = vec![];
        for v in 0..INTS.len() {
            let xs = mk(v);
            let Some(r) = no_panic(&climb(&xs, ops), &self.f) else { continue };
            let diff = groupings(&xs, ops).iter().filter(|g| ty(g).is_some() && no_panic(g, &self.f).is_some_and(|x| x != r)).count();
            cand.push((diff, v));
        }
        cand.sort_by_key(|(d, v)| (std::cmp::Reverse(*d), *v));
        for (_, v) in cand.into_iter().take(want) {
            self.exprs.push(climb(&mk(v), ops));
        }
    }
}

fn types(n: usize) -> Vec<Vec<Ty>> {
    (0..1usize << n).map(|m| (0..n).map(|k| if m >> k & 1 == 0 { Ty::I } else { Ty::B }).collect()).collect()
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let all_ops: Vec<&'static str> = {
        let mut v: Vec<&'static str> = INT_OPS.to_vec();
        v.extend(CMP_OPS);
        v.extend(["&&", "||"]);
        v
    };
    let mut g = Gen { f: fields(), exprs: vec![], combos: 0 };
    let plain = |_: usize, e: E| e;
    // Chains of one, two (and three) operators.
    for &o in &all_ops {
        for t in types(2) {
            g.chain(&t, &[o], &plain, 3);
        }
        for &o2 in &all_ops {
            for t in types(3) {
                g.chain(&t, &[o, o2], &plain, 2);
            }
            for &o3 in &all_ops {
                for t in types(4) {
                    g.chain(&t, &[o, o2, o3], &plain, 1);
                }
                if deep {
                    for &o4 in &all_ops {
                        // All type patterns of five operands that can be well typed.
                        for t in types(5) {
                            g.chain(&t, &[o, o2, o3, o4], &plain, 1);
                        }
                    }
                }
            }
        }
    }
    p.add("chains", g.combos);
    // Decorated operands: prefixes, filters, groups on every operand of chains of up to two.
    type D = fn(E) -> E;
    let decos: Vec<D> = vec![
        |e| e,
        |e| un("!", e),
        |e| un("-", e),
        |e| un("!", un("!", e)),
        |e| un("-", un("-", e)),
        |e| un("!", un("-", e)),
        |e| filt(e, "mag", vec![]),
        |e| filt(un("-", e), "mag", vec![]),
        |e| filt(un("!", e), "mag", vec![]),
        |e| filt(e, "inc", vec![int(3)]),
        |e| filt(un("-", e), "inc", vec![bin("+", int(3), int(4))]),
        |e| filt(filt(un("-", e), "mag", vec![]), "inc", vec![un("-", int(3))]),
        |e| filt(filt(un("-", e), "inc", vec![filt(un("-", int(2)), "mag", vec![])]), "mag", vec![]),
        |e| filt(e, "not", vec![]),
        |e| filt(un("!", e), "not", vec![]),
        |e| filt(filt(e, "not", vec![]), "not", vec![]),
    ];
    for t in types(1) {
        for d in &decos {
            g.chain(&t, &[], &|_, e| d(e), 2);
        }
    }
    for &o in &all_ops {
        for t in types(2) {
            for d1 in &decos {
                for d2 in &decos {
                    g.chain(&t, &[o], &|k, e| if k == 0 { d1(e) } else { d2(e) }, 1);
                }
            }
        }
        for &o2 in &all_ops {
            for t in types(3) {
                for (di, d) in decos.iter().enumerate() {
                    if !deep && ![1, 2, 7, 12, 13].contains(&di) {
                        continue;
                    }
                    for at in 0..3 {
                        g.chain(&t, &[o, o2], &|k, e| if k == at { d(e) } else { e }, 1);
                    }
                }
            }
        }
    }
    // Explicit groups: every grouping of chains of two operators, decorated.
    let mut groups: Vec<E> = vec![];
    for &o in &all_ops {
        for &o2 in &all_ops {
            for t in types(3) {
                for left in [true, false] {
                    for outer in 0..4 {
                        let mk = |v: usize| {
                            let x: Vec<E> = (0..3).map(|k| operand(t[k], v, k)).collect();
                            let wrap = |e: E| {
                                let g = E::Group(Box::new(e));
                                match outer {
                                    0 => g,
                                    1 => un("-", g),
                                    2 => un("!", g),
                                    _ => filt(g, "mag", vec![]),
                                }
                            };
                            if left {
                                bin(o2, wrap(bin(o, x[0].clone(), x[1].clone())), x[2].clone())
                            } else {
                                bin(o, x[0].clone(), wrap(bin(o2, x[1].clone(), x[2].clone())))
                            }
                        };
                        if ty(&mk(0)).is_none() {
                            continue;
                        }
                        if let Some(v) = (0..INTS.len()).find(|v| no_panic(&mk(*v), &g.f).is_some()) {
                            groups.push(mk(v));
                        }
                    }
                }
            }
        }
    }
    p.add("grouped", groups.len() as u64);
    p.add("expressions", (g.exprs.len() + groups.len()) as u64);

    let mut all = std::mem::take(&mut g.exprs);
    all.extend(groups);
    let mut s = Suite::new();
    let styles = [Style::default(), Style::tight(), Style::loose()];
    let fs = g.f.clone();
    for (k, ch) in all.chunks(24).enumerate() {
        let mut nodes = vec![];
        for e in ch {
            nodes.push(out(guard(e.clone())));
            nodes.push(t(";"));
        }
        let mut m = Model::inline(nodes, false);
        m.style = styles[k % 3].clone();
        m.prelude = vkit::filters::USER_FILTERS.into();
        // Only the fields this template uses.
        let src = m.text();
        let used: Vec<&(String, V)> = fs.iter().filter(|(n, _)| src.contains(n.as_str())).collect();
        m.fields = used.iter().map(|(n, v)| (n.clone(), if matches!(v, V::I(_)) { "i32" } else { "bool" }.to_string())).collect();
        s.add(&m, &[used.iter().map(|(_, v)| v.clone()).collect()]);
    }

    // Laziness: chains of traced booleans, all assignments.
    let n = if deep { 4 } else { 3 };
    for len in 1..=n {
        for ops in 0..1usize << (len - 1) {
            for neg in 0..1usize << len {
                let xs: Vec<E> = (0..len)
                    .map(|k| {
                        let c = E::Call("crate::tb".into(), vec![int(k as i64 + 1), E::SelfF(format!("p{k}"))]);
                        if neg >> k & 1 == 1 { un("!", c) } else { c }
                    })
                    .collect();
                let os: Vec<&'static str> = (0..len - 1).map(|k| if ops >> k & 1 == 0 { "&&" } else { "||" }).collect();
                let mut m = Model::inline(vec![if_(climb(&xs, &os), vec![t("Y")]), t("."), out(climb(&xs, &os))], false);
                m.style = styles[(ops + neg) % 3].clone();
                m.trace = true;
                m.fields = (0..len).map(|k| (format!("p{k}"), "bool".to_string())).collect();
                let inputs: Vec<Vec<V>> = (0..1usize << len).map(|a| (0..len).map(|k| V::B(a >> k & 1 == 1)).collect()).collect();
                s.add(&m, &inputs);
            }
        }
    }
    let mut m = Model::inline(vec![out(bin("|", filt(var("i00"), "mag", vec![]), var("i01")))], false).field("i00", "i32").field("i01", "i32");
    m.prelude = vkit::filters::USER_FILTERS.into();
    s.add(&m, &[vec![i(5), i(2)]]);
    s.run(&mut p, "c05", 300);
    forms(&mut p, deep);
    p.finish();
}

const PRELUDE: &str = r#"
#[derive(Clone, Copy)]
pub struct S { pub n: i32, pub m: i32, pub t: (i32, (i32, i32)), pub arr: [i32; 3], pub cb: fn(i32) -> i32 }
impl S {
    pub fn me(&self) -> &S { self }
    pub fn swap(&self) -> S { S { n: self.m, m: self.n, ..*self } }
    pub fn get(&self) -> i32 { self.n }
    pub fn add<A: std::borrow::Borrow<i32>>(&self, x: A) -> i32 { self.n + *x.borrow() }
    pub fn sub2<A: std::borrow::Borrow<i32>, B: std::borrow::Borrow<i32>>(&self, x: A, y: B) -> i32 { *x.borrow() - *y.borrow() }
    pub fn with<A: std::borrow::Borrow<i32>>(&self, x: A) -> S { S { n: *x.borrow(), ..*self } }
    pub fn opt(&self) -> Option<i32> { Some(self.n) }
}
pub trait Level { fn lv(self) -> String; }
impl Level for i32 { fn lv(self) -> String { format!("v{self}") } }
impl Level for &i32 { fn lv(self) -> String { format!("r{self}") } }
impl Level for &&i32 { fn lv(self) -> String { format!("rr{self}") } }
impl Level for &&&i32 { fn lv(self) -> String { format!("rrr{self}") } }
pub fn dbl(x: i32) -> i32 { x * 2 }
pub mod cst { pub const K: i32 = 41; pub mod deep { pub const L: i32 = 17; pub fn f<A: std::borrow::Borrow<i32>>(x: A) -> i32 { *x.borrow() * 10 } } }
"#;

/// Expression forms beyond operators; the oracle is rustc on the same text.
fn forms(p: &mut Part, deep: bool) {
    // Typed suffix chains from `s`: (text, type).
    let mut level: Vec<(String, char)> = vec![("s".into(), 'S'), ("self.s".into(), 'S')];
    let mut ints: Vec<String> = vec!["a".into(), "self.b".into(), "3".into(), "cst::K".into(), "cst::deep::L".into(), "self::cst::deep::f(a)".into()];
    for d in 0..if deep { 4 } else { 3 } {
        let mut next = vec![];
        for (x, ty) in &level {
            let steps: Vec<(&str, char)> = match ty {
                'S' => vec![
                    (".n", 'I'),
                    (".m", 'I'),
                    (".t", 'T'),
                    (".arr", 'A'),
                    (".me()", 'S'),
                    (".swap()", 'S'),
                    (".get()", 'I'),
                    (".add(b)", 'I'),
                    (".add(b + 1)", 'I'),
                    (".add(-b)", 'I'),
                    (".sub2(a * 2, b - 1)", 'I'),
                    (".with(a)", 'S'),
                    (".opt()", 'O'),
                ],
                'T' => vec![(".0", 'I'), (".1", 'U')],
                'U' => vec![(".0", 'I'), (".1", 'I')],
                'A' => vec![("[0]", 'I'), ("[u]", 'I'), ("[u + 1]", 'I'), ("[(u - 1)]", 'I')],
                'O' => vec![(".unwrap()", 'I')],
                'I' => vec![(".abs()", 'I'), (".pow(2)", 'I'), (".wrapping_mul(3)", 'I')],
                _ => vec![],
            };
            for (s, t) in steps {
                // `.t.1.0` reads as a float in old Rust but is fine today.
                next.push((format!("{x}{s}"), t));
            }
        }
        ints.extend(next.iter().filter(|(_, t)| *t == 'I').map(|(x, _)| x.clone()));
        if d < 3 {
            level = next;
        }
    }
    for x in [
        "[a, b, a + b][u]",
        "[a + 1, -b,][1]",
        "(a, b).1",
        "(a, (b, 7)).1.0",
        "(a,).0",
        "((a))",
        "(a + b).pow(2)",
        "-(a + b).abs()",
        "(-a).abs()",
        "-a.abs()",
        "!a.abs()",
        "(s.cb)(5)",
        "self::dbl(5)",
        "self::dbl(3 + 4)",
        "(i32::MAX - 2147483000)",
        "core::cmp::max(3, 4 * 2)",
        "*self::cst::deep::f(2)"
    ] {
        if !x.starts_with('*') {
            ints.push(x.into());
        }
    }
    let mut texts: Vec<String> = vec![];
    for x in &ints {
        for ctx in ["{}", "-{}", "!{}", "- -{}", "{} + b", "b - {}", "b * -{} - a", "({}) * 2", "{} == b", "b < {} && a > 0"] {
            // Indexing yields a reference in templates, so its comparison with a number has no type.
            if (ctx.contains("==") || ctx.contains('<')) && (x.contains('[') || x.contains(".0") || x.contains(".1")) {
                continue;
            }
            texts.push(ctx.replace("{}", x));
        }
    }
    let lits = [
        "0", "7", "1_000", "0b101", "0o17", "0xff", "0xF_F", "1u8", "1i64", "255u8", "1_0usize", "0x1Fu32", "1.5", "1.5e3", "1e3", "1E-2", "2.0f32", "1.25f64", "1e2f64", "10_0.5_0",
        "\"\"", "\"x\"", "\"a\\\"b\"", "\"a\\\\\"", "\"\\n\\t\\r\\0\"", "\"\\x41\"", "\"\\u{e9}\"", "\"é\"", "\"}}\"", "\"%}\"", "\"a|b\"", "'x'", "'\\''", "'\"'", "'\\n'", "'\\\\'", "'\\x41'", "'\\u{1F600}'", "'é'", "true",
        "false", "-7", "-0x10", "-1.5", "\"a\".len()", "\"ab\".chars().rev().next().unwrap()", "'a'.len_utf8()", "1.max(2)", "(1, 2).0", "[1, 2, 3].len()", "1.5.floor()",
        "format!(\"{}-{}\", 1, 2)", "format!(\"{}\", (1 + 2) * 3)", "format!(\"({}\", 1)", "format!(\"\\\"){}\", 1)", "concat!(\"a\", 1)", "stringify!(a)", "line!() - line!()", "vec![1].len()",
    ];
    for x in lits {
        // Floats need a type for methods, and macros only take parentheses.
        if x != "1.5.floor()" && !x.starts_with("vec!") {
            texts.push(x.into());
        }
    }
    let ranges: Vec<String> = {
        let b = ["a", "1", "a + 1", "-a", "b - 1", "a * 2", "(a)", "u as_i"];
        let mut v = vec![];
        for x in b.iter().take(7) {
            for y in ["b", "9", "b + 2", "b * 2 - 1", "-a + 9", "(b)", "1 << 3", "b | 4"] {
                for op in ["..", "..="] {
                    v.push(format!("{x}{op}{y}"));
                    v.push(format!("{x} {op} {y}"));
                    v.push(format!("({x}{op}{y}).rev()"));
                }
            }
        }
        v
    };
    let mut cases = vec![];
    let fields = [("a", "i32"), ("b", "i32"), ("u", "usize"), ("s", "S")];
    let inits = [("4", "9"), ("-3", "5")];
    let binds = "let a = t.a; let b = t.b; let u = t.u; let s = t.s;";
    let subst = |x: &str| x.replace("self.", "t.").replace("self::cst", "cst").replace("self::dbl", "dbl");
    let mut n_exprs = 0u64;
    for ch in texts.chunks(20) {
        let src: String = ch.iter().map(|x| format!("{{{{ {x} }}}};")).collect();
        let want: String = ch.iter().map(|x| format!("w.push_str(&format!(\"{{}};\", {{ {} }}));", subst(x))).collect();
        let mut c = Case::source(src.clone(), src, "txt");
        c.prelude = PRELUDE.into();
        c.fields = fields.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        for (a, b) in inits {
            let s = "S { n: 6, m: -2, t: (11, (12, 13)), arr: [21, 22, 23], cb: dbl }".to_string();
            c.runs.push(Run {
                init: vec![a.into(), b.into(), "1".into(), s],
                expect: Expect::Out("same".into()),
                trace: None,
                code: Some(format!("{{ {binds} let mut w = String::new(); {want} let g = t.to_string(); Ok(if g == w {{ \"same\".into() }} else {{ format!(\"rendered {{g:?}} Rust says {{w:?}}\") }}) }}")),
            });
            n_exprs += ch.len() as u64;
        }
        cases.push(c);
    }
    for ch in ranges.chunks(12) {
        let src: String = ch.iter().map(|x| format!("{{% for i in {x} %}}{{{{ i }}}},{{% endfor %}};")).collect();
        let want: String = ch.iter().map(|x| format!("for i in {} {{ w.push_str(&format!(\"{{i}},\")); }} w.push(';');", subst(x))).collect();
        let mut c = Case::source(src.clone(), src, "txt");
        c.fields = vec![("a".into(), "i32".into()), ("b".into(), "i32".into())];
        for (a, b) in inits {
            c.runs.push(Run {
                init: vec![a.into(), b.into()],
                expect: Expect::Out("same".into()),
                trace: None,
                code: Some(format!("{{ let a = t.a; let b = t.b; let mut w = String::new(); {want} let g = t.to_string(); Ok(if g == w {{ \"same\".into() }} else {{ format!(\"rendered {{g:?}} Rust says {{w:?}}\") }}) }}")),
            });
            n_exprs += ch.len() as u64;
        }
        cases.push(c);
    }
    // The filters that are operators, in and out of groups, and what they are applied to: (template, Rust, level of references).
    let mut pairs: Vec<(String, String)> = vec![];
    let mut level: Vec<(String, String, usize)> = [("a", "t.a", 0), ("self.a", "t.a", 0), ("r", "t.r", 1), ("q", "t.q", 2), ("s.n", "t.s.n", 0), ("s.me().n", "t.s.me().n", 0), ("(a + b)", "(t.a + t.b)", 0), ("-a", "-t.a", 0), ("(r)", "(t.r)", 1)]
        .iter()
        .map(|(x, y, l)| (x.to_string(), y.to_string(), *l))
        .collect();
    for d in 0..if deep { 5 } else { 4 } {
        let mut next = vec![];
        for (x, y, l) in &level {
            if d > 0 {
                pairs.push((format!("({x}).lv()"), format!("({y}).lv()")));
                pairs.push((format!("(({x})).lv()"), format!("({y}).lv()")));
                pairs.push((x.clone(), y.clone()));
                if *l == 0 {
                    pairs.push((format!("s.add({x})"), format!("t.s.n + {y}")));
                }
                if *l < 2 {
                    pairs.push((format!("{x} + 1"), format!("{y} + 1")));
                    pairs.push((format!("1 - {x}"), format!("1 - {y}")));
                    pairs.push((format!("-({x})"), format!("-({y})")));
                    pairs.push((format!("({x}).pow(2)"), format!("({y}).pow(2)")));
                    pairs.push((format!("[{x}, {x}].len()"), "2".into()));
                    pairs.push((format!("(1, {x}).1.lv()"), format!("({y}).lv()")));
                }
            }
            let g = |x: &str, f: &str| if d % 2 == 1 { format!("({x})|{f}") } else { format!("{x}|{f}") };
            if *l < 3 {
                next.push((g(x, "as_ref"), format!("(&{y})"), l + 1));
                next.push((format!("({x}|as_ref)"), format!("(&{y})"), l + 1));
            }
            if *l > 0 {
                next.push((g(x, "deref"), format!("(*{y})"), l - 1));
                next.push((format!("({x}|deref)"), format!("(*{y})"), l - 1));
            }
        }
        level = next;
    }
    for (x, y) in [("s|as_ref", "(&t.s)"), ("s.me()|deref", "(*t.s.me())"), ("s|as_ref|deref", "(*&t.s)"), ("s|as_ref|as_ref", "(&&t.s)")] {
        for e in [".n", ".get()", ".with(a).n", ".t.1.0", ".arr[1]", ".swap().m", ".opt().unwrap()", ".me().swap().n"] {
            pairs.push((format!("({x}){e}"), format!("{y}{}", e.replace("(a)", "(t.a)"))));
        }
    }
    pairs.push(("(s.arr|as_ref)[2]".into(), "(&t.s.arr)[2]".into()));
    pairs.push(("(s.arr|as_ref|deref)[u]".into(), "(*&t.s.arr)[t.u]".into()));
    pairs.push(("(s.cb|as_ref)(5)".into(), "(&t.s.cb)(5)".into()));
    for ch in pairs.chunks(20) {
        let src: String = ch.iter().map(|x| format!("{{{{ {} }}}};", x.0)).collect();
        let want: String = ch.iter().map(|x| format!("w.push_str(&format!(\"{{}};\", {{ {} }}));", x.1)).collect();
        let mut c = Case::source(src.clone(), src, "txt");
        c.prelude = PRELUDE.into();
        c.fields = fields.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        c.fields.push(("r".into(), "&'static i32".into()));
        c.fields.push(("q".into(), "&'static &'static i32".into()));
        for (a, b) in inits {
            let s = "S { n: 6, m: -2, t: (11, (12, 13)), arr: [21, 22, 23], cb: dbl }".to_string();
            c.runs.push(Run {
                init: vec![a.into(), b.into(), "1".into(), s, "&8".into(), "&&-5".into()],
                expect: Expect::Out("same".into()),
                trace: None,
                code: Some(format!("{{ let mut w = String::new(); {want} let g = t.to_string(); Ok(if g == w {{ \"same\".into() }} else {{ format!(\"rendered {{g:?}} Rust says {{w:?}}\") }}) }}")),
            });
            n_exprs += ch.len() as u64;
        }
        cases.push(c);
    }
    p.add("rust_oracle_expressions", n_exprs);
    p.add("states", n_exprs);
    p.add("transitions", n_exprs);
    check(p, "c05f", &cases, 300);
}
