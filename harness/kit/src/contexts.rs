//! Every construct of the language that can hold other nodes, as a wrapper around a body.
use crate::e2e::Model;
use crate::filters::USER_FILTERS;
use crate::model::*;

/// Nodes in place, nodes that have to stand at the top level of the same file, and other files.
#[derive(Clone, Default)]
pub struct Piece {
    pub nodes: Vec<N>,
    pub top: Vec<N>,
    pub files: Vec<(String, Vec<N>)>,
}

impl Piece {
    pub fn body(nodes: Vec<N>) -> Piece {
        Piece { nodes, ..Piece::default() }
    }
    fn map(mut self, f: impl FnOnce(Vec<N>) -> Vec<N>) -> Piece {
        self.nodes = f(self.nodes);
        self
    }
    /// Moves everything into the file `name`.
    fn into_file(mut self, name: String, end: Vec<N>) -> Piece {
        let mut ns = std::mem::take(&mut self.top);
        ns.append(&mut self.nodes);
        ns.extend(end);
        self.files.push((name, ns));
        self
    }
}

/// Wrappers that can be nested in each other.
pub const INNER: usize = 21;
/// Wrappers that replace the whole template, so they are outermost.
pub const OUTER: usize = 6;

pub fn name(k: usize) -> &'static str {
    [
        "top", "if", "else", "else if", "if let", "for", "for else", "for in for", "match arm", "match else", "block", "nested block",
        "macro", "macro in macro", "imported macro", "include", "include in include", "filter block", "filter block safe", "after let",
        "repeated macro", "child block", "parent layout", "parent block", "super", "grandparent", "child include",
    ][k]
}

/// Wraps a piece that uses the variables `vars` into construct `k`. `id` makes its names unique.
pub fn wrap(k: usize, id: usize, b: Piece, vars: &[&str], ext: &str) -> Piece {
    let tr = || E::Known("true".into(), V::B(true));
    let fa = || E::Known("false".into(), V::B(false));
    let one = || E::Ctor("Some".into(), vec![E::Known("1".into(), i(1))]);
    let some_p = |n: &str| P::Tuple("Some".into(), vec![pn(n)]);
    let args = || vars.iter().map(|v| var(v)).collect::<Vec<_>>();
    let q = format!("q{id}");
    let list = |v: &[i64]| E::Arr(v.iter().map(|x| E::Known(x.to_string(), i(*x))).collect());
    match k {
        0 => b,
        1 => b.map(|b| vec![if_(tr(), b)]),
        2 => b.map(|b| vec![ifelse(fa(), vec![t("no")], b)]),
        3 => b.map(|b| vec![N::If(vec![(N0, Some(Cond::Expr(fa())), vec![t("no")]), (N0, Some(Cond::Expr(tr())), b), (N0, None, vec![t("no")])], N0)]),
        4 => b.map(|b| vec![N::If(vec![(N0, Some(Cond::Let(some_p(&q), one())), b)], N0)]),
        5 => b.map(|b| vec![for_(&q, list(&[1, 2]), b)]),
        6 => b.map(|b| {
            vec![N::For(Box::new(For { ws1: N0, var: pn(&q), iter: list(&[1, 2]), cond: Some(fa()), body: vec![t("no")], els: Some((N0, b)), ws2: N0 }))]
        }),
        7 => b.map(|b| vec![for_(&q, list(&[1]), vec![t("("), for_(&format!("{q}x"), list(&[3, 4]), b), t(")")])]),
        8 => b.map(|b| vec![N::Match(N0, one(), "".into(), vec![(N0, some_p(&q), b), (N0, pn("__else"), vec![t("no")])], N0)]),
        9 => b.map(|b| vec![N::Match(N0, one(), "".into(), vec![(N0, P::Path("None".into()), vec![t("no")]), (N0, pn("__else"), b)], N0)]),
        10 => b.map(|b| vec![block(&format!("b{id}"), b)]),
        11 => b.map(|b| vec![block(&format!("b{id}"), vec![t("{1"), block(&format!("c{id}"), b), t("1}")])]),
        12 | 20 => {
            let m = format!("m{id}");
            let mut p = b.map(|_| vec![]);
            p.nodes = vec![call(&m, args())];
            if k == 20 {
                p.nodes = vec![call(&m, args()), t(","), for_(&q, list(&[1, 2]), vec![call(&m, args())])];
            }
            p
        }
        13 => Piece { nodes: vec![call(&format!("n{id}"), args())], ..b },
        14 => Piece { nodes: vec![N::Call(Some(format!("s{id}")), format!("m{id}"), args().into_iter().map(|a| (None, a)).collect(), N0)], ..b },
        15 => {
            let f = format!("i{id}.{ext}");
            let mut p = b.into_file(f.clone(), vec![]);
            p.nodes = vec![N::Include(f, N0)];
            p
        }
        16 => {
            let (f, g) = (format!("i{id}.{ext}"), format!("j{id}.{ext}"));
            let mut p = b.into_file(f.clone(), vec![]);
            p.nodes = vec![t("<i>"), N::Include(f, N0)];
            let mut p = p.into_file(g.clone(), vec![t("</i>")]);
            p.nodes = vec![N::Include(g, N0)];
            p
        }
        17 => b.map(|b| vec![N::Filter(vec![("wrap".into(), vec![])], N0, b, N0)]),
        18 => b.map(|b| vec![N::Filter(vec![("wrap".into(), vec![]), ("safe".into(), vec![])], N0, b, N0)]),
        19 => b.map(|b| {
            let mut v = vec![let_(&q, E::Known("5".into(), i(5))), outv(&q)];
            v.extend(b);
            v
        }),
        _ => panic!("not an inner wrapper"),
    }
}

/// As `wrap`, with macro definitions put where they belong.
pub fn inner(k: usize, id: usize, b: Piece, vars: &[&str], ext: &str) -> Piece {
    match k {
        12 | 20 => {
            let m = macro_(&format!("m{id}"), vars, b.nodes.clone());
            let mut p = wrap(k, id, b, vars, ext);
            p.top.push(m);
            p
        }
        13 => {
            let m = macro_(&format!("m{id}"), vars, b.nodes.clone());
            let n = macro_(&format!("n{id}"), vars, vec![t("<n>"), call(&format!("m{id}"), vars.iter().map(|v| var(v)).collect()), t("</n>")]);
            let mut p = wrap(k, id, b, vars, ext);
            p.top.extend([m, n]);
            p
        }
        14 => {
            let m = macro_(&format!("m{id}"), vars, b.nodes.clone());
            let f = format!("k{id}.{ext}");
            let mut p = wrap(k, id, Piece { nodes: vec![], ..b }, vars, ext);
            let mut ns = std::mem::take(&mut p.top);
            ns.push(m);
            p.files.push((f.clone(), ns));
            p.top = vec![N::Import(f, format!("s{id}"), N0)];
            p
        }
        k => wrap(k, id, b, vars, ext),
    }
}

/// Whether construct `a` may contain construct `b`.
pub fn nests(a: usize, b: usize) -> bool {
    let blockish = |k: usize| matches!(k, 10 | 11);
    let macroish = |k: usize| matches!(k, 12 | 13 | 14 | 20);
    // Blocks inside macro bodies and filter blocks are outside the language.
    !(blockish(b) && (macroish(a) || matches!(a, 15..=18)))
        // A call inside a macro body needs that macro in the same file's scope.
        && !(macroish(a) && matches!(b, 14))
        && !(matches!(a, 14) && macroish(b))
}

/// The complete model of a piece in outer context `k` (INNER.. or 0).
pub fn outer(k: usize, p: Piece, ext: &str) -> Model {
    let root = format!("t.{ext}");
    let Piece { nodes, mut top, mut files } = p;
    let head = |mut top: Vec<N>, parent: &str, body: Vec<N>| {
        let mut v = vec![N::Extends(format!("{parent}.{ext}"))];
        v.append(&mut top);
        v.extend(body);
        v
    };
    let cat = |a: Vec<N>, b: Vec<N>, c: Vec<N>| a.into_iter().chain(b).chain(c).collect::<Vec<_>>();
    let f = |n: &str| format!("{n}.{ext}");
    match k {
        0 => {
            top.push(t("<0>"));
            files.push((root.clone(), cat(top, nodes, vec![t("</0>")])));
        }
        21 => {
            files.push((root.clone(), head(top, "p", vec![block("main", nodes)])));
            files.push((f("p"), vec![t("<p>"), block("main", vec![t("no")]), t("</p>")]));
        }
        22 => {
            files.push((root.clone(), head(vec![], "p", vec![block("main", vec![t("<c>")])])));
            files.push((f("p"), cat(top, cat(vec![t("<p>"), block("main", vec![t("no")])], nodes, vec![t("</p>")]), vec![])));
        }
        23 => {
            files.push((root.clone(), head(vec![], "p", vec![block("other", vec![t("<c>")])])));
            files.push((f("p"), cat(top, vec![t("<p>"), block("main", nodes), block("other", vec![t("no")]), t("</p>")], vec![])));
        }
        24 => {
            files.push((root.clone(), head(vec![], "p", vec![block("main", vec![t("<c>"), N::Super(N0), t("</c>")])])));
            files.push((f("p"), cat(top, vec![t("<p>"), block("main", nodes), t("</p>")], vec![])));
        }
        25 => {
            files.push((root.clone(), head(vec![], "p", vec![])));
            files.push((f("p"), head(top, "g", vec![block("main", nodes)])));
            files.push((f("g"), vec![t("<g>"), block("main", vec![t("no")]), t("</g>")]));
        }
        26 => {
            let mut v = top;
            v.extend(nodes);
            files.push((f("inc"), v));
            files.push((root.clone(), head(vec![], "p", vec![block("main", vec![t("<c>"), N::Include(f("inc"), N0), t("</c>")])])));
            files.push((f("p"), vec![t("<p>"), block("main", vec![t("no")]), t("</p>")]));
        }
        _ => panic!("not an outer wrapper"),
    }
    let mut m = Model::files(&root, files.iter().map(|(n, x)| (n.as_str(), x.clone())).collect());
    m.prelude = USER_FILTERS.into();
    m.on_disk = true;
    m
}
