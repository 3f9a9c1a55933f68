//! C11: inheritance renders the root layout with every block's most derived body; super() its parent.
//! C12 (with argument `c12`): a block fragment is what the block contributes to the full rendering.
use vkit::e2e::*;
use vkit::model::*;
use vkit::part::*;

/// How a level defines block `n`: what surrounds the calls of super().
fn bodies(level: usize, n: &str, nested: Option<Vec<N>>, top: bool) -> Vec<Vec<N>> {
    let m = |x: &str| t(&format!("{x}{level}{n}"));
    let sup = || N::Super(N0);
    let mut r: Vec<Vec<N>> = vec![vec![m("."), outv("a")]];
    if !top {
        r.push(vec![m("("), sup(), t(")")]);
        r.push(vec![m("("), sup(), t("/"), let_("a", int(40 + level as i64)), sup(), outv("a"), t(")")]);
        r.push(vec![for_("i", E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false), vec![if_(E::Loop("last"), vec![sup()]), m("l")])]);
    }
    if let Some(x) = nested {
        let mut v = vec![m("[")];
        v.extend(x.clone());
        v.push(t("]"));
        r.push(v);
        if !top {
            let mut v = vec![m("["), sup()];
            v.extend(x);
            v.push(t("]"));
            r.push(v);
        }
    }
    r
}

/// Everything a level may say: for blocks x and y (y may sit inside x).
fn level(l: usize, top: bool) -> Vec<(Vec<N>, bool, bool)> {
    // (nodes, defines x, defines y)
    let mut r = vec![];
    let y_in = || vec![block("y", vec![t(&format!("y{l}")), outv("b")])];
    for bx in bodies(l, "x", Some(y_in()), top) {
        let has_y = has_block(&bx);
        r.push((vec![block("x", bx.clone())], true, has_y));
        if !has_y {
            for by in bodies(l, "y", None, top) {
                r.push((vec![block("x", bx.clone()), t(","), block("y", by.clone())], true, true));
                if top {
                    r.push((vec![block("y", by), t(","), block("x", bx.clone())], true, true));
                }
            }
        }
    }
    for by in bodies(l, "y", None, top) {
        r.push((vec![block("y", by)], false, true));
    }
    if !top {
        r.push((vec![], false, false));
    }
    r
}

fn has_block(ns: &[N]) -> bool {
    ns.iter().any(|n| matches!(n, N::Block(..)))
}

/// Uses of super() need a less derived definition.
fn supers(ns: &[N], cur: Option<&str>, o: &mut Vec<String>) {
    for n in ns {
        if let N::Super(_) = n {
            o.push(cur.unwrap().to_string());
        }
        let cur = if let N::Block(n, ..) = n { Some(&n[..]) } else { cur };
        bodies_of(n).iter().for_each(|b| supers(b, cur, o));
    }
}

/// Bodies inside of a node.
fn bodies_of(n: &N) -> Vec<&[N]> {
    match n {
        N::Block(_, _, b, _) | N::Filter(_, _, b, _) => vec![b],
        N::For(f) => std::iter::once(&f.body[..]).chain(f.els.iter().map(|e| &e.1[..])).collect(),
        N::If(br, _) => br.iter().map(|b| &b.2[..]).collect(),
        N::Match(_, _, _, arms, _) => arms.iter().map(|b| &b.2[..]).collect(),
        _ => vec![],
    }
}

fn defs(ns: &[N], o: &mut Vec<String>) {
    for n in ns {
        if let N::Block(n, ..) = n {
            o.push(n.clone());
        }
        bodies_of(n).iter().for_each(|b| defs(b, o));
    }
}

/// A block in a filter block: its fragment is not what it contributes, as that gets filtered.
fn filtered(ns: &[N], within: bool) -> bool {
    ns.iter().any(|n| within && matches!(n, N::Block(..)) || bodies_of(n).iter().any(|b| filtered(b, within || matches!(n, N::Filter(..)))))
}

/// A block whose control structures decide about blocks inside of it: how often they are rendered
/// is not theirs to say if they are rendered by themselves.
fn controls(ns: &[N], block: bool, control: bool) -> bool {
    ns.iter().any(|n| {
        let b = block || matches!(n, N::Block(..));
        let c = control || block && matches!(n, N::For(_) | N::If(..) | N::Match(..));
        c && block && matches!(n, N::Block(..) | N::Super(_)) || bodies_of(n).iter().any(|x| controls(x, b, c))
    })
}

/// Every place a block may sit at.
const HOLDERS: usize = 14;
fn holder(k: usize, b: Vec<N>) -> N {
    let no = || var("no");
    let some = |x: E| E::Ctor("Some".into(), vec![x]);
    let zero = || E::Range(Some(Box::new(int(0))), Some(Box::new(int(0))), false);
    let two = || E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false);
    let els = |f: N, body: Vec<N>| match f {
        N::For(mut f) => {
            f.els = Some((N0, body));
            N::For(f)
        }
        f => f,
    };
    match k {
        0 => if_(un("!", no()), b),
        1 => ifelse(no(), vec![t("n")], b),
        2 => N::If(vec![(N0, Some(Cond::Expr(no())), vec![t("n")]), (N0, Some(Cond::Expr(un("!", no()))), b), (N0, None, vec![t("m")])], N0),
        3 => N::If(vec![(N0, Some(Cond::Let(P::Tuple("Some".into(), vec![pn("b")]), some(int(5)))), b)], N0),
        4 => N::Match(N0, some(int(3)), "".into(), vec![(N0, P::Tuple("Some".into(), vec![pn("b")]), b), (N0, pn("__else"), vec![])], N0),
        5 => N::Match(N0, some(int(3)), "".into(), vec![(N0, P::Path("None".into()), vec![t("n")]), (N0, P::Tuple("Some".into(), vec![pn("b")]), b)], N0),
        6 => N::Match(N0, some(int(3)), "".into(), vec![(N0, P::Path("None".into()), vec![t("n")]), (N0, pn("__else"), b)], N0),
        7 => for_("q", two(), b),
        8 => els(for_("q", zero(), vec![t("n")]), b),
        9 => els(for_("q", two(), b), vec![t("n")]),
        10 => els(for_("q", two(), vec![if_(E::Loop("first"), b), t("q")]), vec![]),
        11 => block("h", b),
        12 => N::Filter(vec![("upper".into(), vec![])], N0, b, N0),
        _ => ifelse(no(), b, vec![t("m")]),
    }
}

/// The layout of the root around its blocks.
fn layouts(blocks: &[N], kind: usize) -> Vec<N> {
    let mut v = vec![t("<"), outv("a"), t(">")];
    match kind {
        0 => v.extend(blocks.iter().cloned()),
        1 => {
            v.push(N::Comment(" c ".into(), N0));
            v.push(let_("a", int(77)));
            v.extend(blocks.iter().cloned());
            v.push(outv("a"));
        }
        2 => v.push(if_(un("!", var("no")), blocks.to_vec())),
        3 => v.push(for_("q", E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false), blocks.to_vec())),
        _ => v.push(N::Match(N0, E::Ctor("Some".into(), vec![int(3)]), "".into(), vec![(N0, P::Tuple("Some".into(), vec![pn("b")]), blocks.to_vec()), (N0, pn("__else"), vec![])], N0)),
    }
    v.extend([t("<"), outv("b"), t(">")]);
    v
}

fn chains(deep: bool) -> Vec<(Vec<Vec<N>>, usize)> {
    let tops = level(0, true);
    let mut r = vec![];
    for (ti, (top, ..)) in tops.iter().enumerate() {
        let kinds: Vec<usize> = (0..5).collect();
        // Chains: levels from the root's child to the leaf.
        let l1 = level(1, false);
        let l2 = level(2, false);
        let l3 = level(3, false);
        for (k1, a) in l1.iter().enumerate() {
            for &k in &kinds {
                if k == 0 || (ti + k1) % 5 == k {
                    r.push((vec![top.clone(), a.0.clone()], k));
                }
            }
            for (k2, b) in l2.iter().enumerate() {
                if deep || (ti + 3 * k1 + 7 * k2) % 2 == 0 || k1 < 3 && k2 < 4 {
                    r.push((vec![top.clone(), a.0.clone(), b.0.clone()], (k1 + k2) % 5));
                }
                for (k3, c) in l3.iter().enumerate() {
                    if (ti * 5 + k1 * 3 + 7 * k2 + 11 * k3) % if deep { 5 } else { 101 } == 0 {
                        r.push((vec![top.clone(), a.0.clone(), b.0.clone(), c.0.clone()], (k1 + k3) % 5));
                    }
                }
            }
        }
        for &k in &kinds {
            r.push((vec![top.clone()], k));
        }
    }
    // A block is known if some less derived level defines it; a level may also introduce one
    // inside of a block it defines.
    r.retain(|(ls, _)| {
        let mut known: Vec<String> = vec![];
        for (k, l) in ls.iter().enumerate() {
            let mut sup = vec![];
            supers(l, None, &mut sup);
            if !sup.iter().all(|s| known.contains(s)) {
                return false;
            }
            let mut d = vec![];
            defs(l, &mut d);
            // Top level blocks of a child must exist in an ancestor to mean anything.
            if k > 0 {
                for n in l {
                    if let N::Block(n, ..) = n {
                        if !known.contains(n) {
                            return false;
                        }
                    }
                }
            }
            known.extend(d);
        }
        true
    });
    r
}

/// Files of a chain: the leaf is `t<n>.txt`.
fn chain_files(ls: &[Vec<N>], kind: usize, junk: bool) -> (String, Vec<(String, Vec<N>)>) {
    let mut f = vec![];
    for (k, l) in ls.iter().enumerate() {
        let name = if k == 0 { "base.txt".to_string() } else { format!("t{k}.txt") };
        if k == 0 {
            f.push((name, layouts(l, kind)));
        } else {
            let parent = if k == 1 { "base.txt".to_string() } else { format!("t{}.txt", k - 1) };
            let mut v = vec![N::Extends(parent)];
            if junk {
                // Content outside of blocks contributes nothing.
                v.push(t(&format!("junk{k}")));
                v.push(outv("a"));
                v.push(let_("b", int(66)));
                v.push(N::Comment("c".into(), N0));
                v.push(if_(lit(V::B(true)), vec![t("junk")]));
            }
            for n in l {
                if junk || !matches!(n, N::Text(_)) {
                    v.push(n.clone());
                }
            }
            if junk {
                v.push(t("\n junk"));
            }
            f.push((name, v));
        }
    }
    (f.last().unwrap().0.clone(), f)
}

fn model(root: &str, files: Vec<(String, Vec<N>)>) -> Model {
    Model::files(root, files.iter().map(|(n, x)| (n.as_str(), x.clone())).collect()).field("a", "i32").field("b", "i32").field("no", "bool")
}

#[derive(Default)]
struct Frags {
    cases: Vec<Case>,
    steps: u64,
    states: u64,
    repeated: u64,
}

impl Frags {
    /// Every block (or one) of a template as a fragment. The last `absent` fields are known to the
    /// model only: the fragment must not need them.
    fn add(&mut self, m: &Model, inp: &[Vec<V>], only: Option<&str>, absent: usize) {
        let (mut c, _, _) = m.case("", inp);
        for _ in 0..absent {
            c.fields.pop();
            c.runs.iter_mut().for_each(|r| { r.init.pop(); });
        }
        let files = Files(m.files.0.iter().map(|(n, x)| (n.clone(), resolve_ws(x, W::Preserve))).collect());
        let vals: Vec<(String, V)> = m.fields.iter().map(|(n, _)| n.clone()).zip(inp[0].iter().cloned()).collect();
        let mut names = vec![];
        for x in m.files.0.values() {
            defs(x, &mut names);
        }
        names.sort();
        names.dedup();
        names.retain(|n| only.is_none() || only == Some(&n[..]));
        for b in names {
            // What the block contributes to the full rendering, in order.
            let mut full = Interp::new(&files, &vals, false);
            full.render(&m.root).unwrap();
            let texts: Vec<&str> = full.block_text.iter().filter(|(n, _)| *n == b).map(|(_, x)| x.as_str()).collect();
            if texts.len() != 1 && m.files.0.values().any(|x| controls(x, false, false)) {
                self.repeated += 1;
                continue;
            }
            let text = texts.concat();
            self.steps += full.steps;
            self.states += full.seen.len() as u64;
            let mut d = c.clone();
            d.key = format!("block {b}: {}", m.files.0.iter().map(|(n, x)| format!("<{n}>{}", m.style.nodes(x))).collect::<String>());
            d.attrs = format!("{}, block = \"{b}\"", c.attrs);
            d.runs[0].expect = Expect::Out(text);
            self.cases.push(d);
        }
    }
}

/// Everything that may stand around a block, and must not be rendered with it.
const JUNK: usize = 17;
fn junk(k: usize, id: &str) -> Vec<N> {
    let two = || E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false);
    let some3 = || E::Ctor("Some".into(), vec![int(3)]);
    let j = || vec![t("J"), outv("absent"), t("j")];
    match k {
        0 => vec![t("junk")],
        1 => vec![outv("absent")],
        2 => j(),
        3 => vec![N::Include("j.txt".into(), N0)],
        4 => vec![N::Filter(vec![("upper".into(), vec![])], N0, j(), N0)],
        5 => vec![if_(un("!", var("no")), j())],
        6 => vec![ifelse(var("no"), j(), j())],
        7 => vec![for_("q", two(), { let mut v = j(); v.push(outv("q")); v })],
        8 => vec![N::Match(N0, some3(), "".into(), vec![(N0, P::Tuple("Some".into(), vec![pn("q")]), j()), (N0, pn("__else"), j())], N0)],
        9 => vec![N::If(vec![(N0, Some(Cond::Let(P::Tuple("Some".into(), vec![pn("q")]), some3())), j())], N0)],
        10 => vec![let_("z", int(5)), outv("z"), outv("absent")],
        11 => vec![N::Comment(" c ".into(), N0), N::Raw("{{ raw }}".into(), N0, N0)],
        12 => vec![block(&format!("s{id}"), { let mut v = j(); v.push(N::Include("j.txt".into(), N0)); v })],
        13 => vec![block(&format!("s{id}"), vec![t("J"), block(&format!("n{id}"), j()), outv("absent")])],
        14 => vec![call("mj", vec![])],
        15 => vec![N::Call(Some("l".into()), "ml".into(), vec![], N0)],
        _ => vec![t("a"), for_("q", two(), vec![if_(E::Loop("first"), vec![N::Continue(N0)]), N::Filter(vec![("upper".into(), vec![])], N0, { let mut v = j(); v.push(N::Include("j.txt".into(), N0)); v }, N0)]), t("b")],
    }
}

/// A block next to, within and behind everything that must not be rendered with it.
fn around(fr: &mut Frags, inp: &[Vec<V>]) {
    let two = || E::Range(Some(Box::new(int(0))), Some(Box::new(int(2))), false);
    // The block has everything, too.
    let rich = || {
        vec![
            t("x1"), outv("a"), N::Include("k.txt".into(), N0), N::Filter(vec![("upper".into(), vec![])], N0, vec![t("f"), outv("b")], N0), for_("q", two(), vec![outv("q"), N::Include("k.txt".into(), N0)]),
            block("xn", vec![t("n"), outv("a"), if_(un("!", var("no")), vec![t("y")])]), call("mk", vec![var("b")]), let_("w", int(6)), outv("w"), t("x2"),
        ]
    };
    let lib = || vec![macro_("ml", &[], vec![t("ML")])];
    let pre = || vec![N::Import("lib.txt".into(), "l".into(), N0), macro_("mj", &[], vec![t("MJ")]), macro_("mk", &["q"], vec![t("<"), outv("q"), t(">")])];
    let inp: Vec<Vec<V>> = inp.iter().map(|v| { let mut v = v.clone(); v.push(i(99)); v }).collect();
    let mut go = |files: Vec<(&str, Vec<N>)>, root: &str| {
        let mut f: Vec<(String, Vec<N>)> = files.into_iter().map(|(n, x)| (n.to_string(), x)).collect();
        f.push(("j.txt".into(), vec![t("inc"), outv("absent"), t(".")]));
        f.push(("k.txt".into(), vec![t("k"), outv("b"), t(".")]));
        f.push(("lib.txt".into(), lib()));
        let m = model(root, f).field("absent", "i32");
        for b in ["x", "xn"] {
            fr.add(&m, &inp, Some(b), 1);
        }
    };
    let cat = |v: Vec<Vec<N>>| v.concat();
    for k in 0..JUNK {
        for k2 in 0..JUNK {
            let (j1, j2) = (|| junk(k, "1"), || junk(k2, "2"));
            // Around the block; around it within another block; around that one.
            go(vec![("r.txt", cat(vec![pre(), j1(), vec![block("x", rich())], j2()]))], "r.txt");
            go(vec![("r.txt", cat(vec![pre(), vec![block("o", cat(vec![j1(), vec![block("x", rich())], j2()]))]]))], "r.txt");
            if k == k2 {
                go(vec![("r.txt", cat(vec![pre(), j1(), vec![block("o", vec![t("("), block("x", rich()), t(")")])], j2()]))], "r.txt");
                go(vec![("r.txt", cat(vec![pre(), vec![if_(un("!", var("no")), cat(vec![j1(), vec![block("x", rich())], j2()]))]]))], "r.txt");
            }
            if (k + k2) % 3 != 0 && k != k2 {
                continue;
            }
            // In the child, in the overridden block of the parent, in the parent.
            let p = |x: Vec<N>| cat(vec![pre(), vec![t("<"), block("o", x), t(">")]]);
            go(vec![("p.txt", p(vec![t("old")])), ("r.txt", cat(vec![vec![N::Extends("p.txt".into())], pre(), vec![block("o", cat(vec![j1(), vec![block("x", rich())], j2()]))]]))], "r.txt");
            go(vec![("p.txt", p(vec![t("("), block("x", vec![t("old")]), t(")")])), ("r.txt", cat(vec![vec![N::Extends("p.txt".into())], pre(), j1(), vec![block("x", rich())], j2()]))], "r.txt");
            go(vec![("p.txt", p(cat(vec![j1(), vec![block("x", rich())], j2()]))), ("r.txt", cat(vec![vec![N::Extends("p.txt".into())], pre(), vec![block("x", vec![t("["), N::Super(N0), t("]")])]]))], "r.txt");
            go(vec![("p.txt", cat(vec![pre(), j1(), vec![block("x", vec![t("old")])], j2()])), ("r.txt", cat(vec![vec![N::Extends("p.txt".into())], pre(), vec![block("x", rich())]]))], "r.txt");
        }
    }
}

fn main() {
    let mut p = Part::from_args();
    let deep = thorough();
    let frag = std::env::args().any(|a| a == "c12");
    let inp = vec![vec![i(1), i(2), V::B(false)]];
    let mut models: Vec<Model> = vec![];
    for (n, (ls, kind)) in chains(deep).into_iter().enumerate() {
        let (root, f) = chain_files(&ls, kind, n % 2 == 0);
        let mut m = model(&root, f);
        m.style.named_end = n % 3 == 0;
        models.push(m);
    }
    let chains = models.len();
    extra(&mut models, &mut p);
    let mut su = Suite::new();
    if !frag {
        for m in &models {
            su.add(m, &inp);
        }
        su.run(&mut p, "c11", 120);
    } else {
        let mut fr = Frags::default();
        for (k, m) in models.iter().enumerate() {
            // Quick: every third chain, all of the special ones.
            if !deep && k % 3 != 0 && k < chains {
                continue;
            }
            if m.files.0.values().any(|x| filtered(x, false)) {
                continue;
            }
            fr.add(m, &inp, None, 0);
        }
        around(&mut fr, &inp);
        let Frags { cases, steps, states, repeated } = fr;
        p.add("repeated_by_control", repeated);
        p.add("states", states);
        p.add("transitions", steps);
        check(&mut p, "c12", &cases, 150);
    }
    p.finish();
}

/// Blocks in and around everything else: macros, imports, includes, filters, whitespace, deep nesting.
fn extra(ms: &mut Vec<Model>, p: &mut Part) {
    let _ = p;
    let sup = || N::Super(N0);
    let mk = |root: &str, f: Vec<(&str, Vec<N>)>| Model::files(root, f).field("a", "i32").field("b", "i32").field("no", "bool");
    let ext = |x: &str| N::Extends(x.into());
    let mac = |n: &str, x: &str| macro_(n, &["q"], vec![t(x), outv("q"), t(x)]);
    let imp = || N::Import("lib.txt".into(), "s".into(), N0);
    let scall = |m: &str| N::Call(Some("s".into()), m.into(), vec![(None, var("a"))], N0);
    let lib = || vec![mac("im", "~")];
    let base = || vec![t("<"), block("x", vec![t("bx")]), t("|"), block("y", vec![t("by"), outv("b")]), t(">")];
    // Macros and imports of each level are usable in its own blocks.
    ms.push(mk("c.txt", vec![("base.txt", base()), ("c.txt", vec![ext("base.txt"), mac("m", "!"), block("x", vec![call("m", vec![var("a")]), sup(), call("m", vec![var("b")])])])]));
    ms.push(mk("c.txt", vec![("base.txt", base()), ("lib.txt", lib()), ("c.txt", vec![ext("base.txt"), imp(), block("x", vec![scall("im"), sup()])])]));
    ms.push(mk("d.txt", vec![
        ("base.txt", { let mut v = vec![mac("m", "0")]; v.extend(base()); v.push(call("m", vec![var("a")])); v.push(block("z", vec![call("m", vec![var("b")])])); v }),
        ("c.txt", vec![ext("base.txt"), mac("n", "1"), block("x", vec![call("n", vec![var("a")]), sup()])]),
        ("d.txt", vec![ext("c.txt"), mac("k", "2"), block("x", vec![call("k", vec![var("a")]), sup()]), block("y", vec![sup(), call("k", vec![var("b")])]), block("z", vec![sup(), t(";")])]),
    ]));
    // Blocks defined after, inside and around other nodes of the child.
    for wrap in 0..6 {
        let body = vec![t("c"), sup(), outv("a")];
        let blk = block("x", body);
        let n = match wrap {
            0 => vec![blk],
            1 => vec![block("y", vec![t("<("), sup(), t(")>")]), blk],
            2 => vec![blk, block("y", vec![])],
            3 => vec![block("y", vec![block("inner", vec![t("in"), outv("a")])]), blk],
            4 => vec![N::Comment(" x ".into(), N0), blk, N::Comment("y".into(), N0)],
            _ => vec![t("\n\n"), blk, t("\n")],
        };
        let mut c = vec![ext("base.txt")];
        c.extend(n);
        ms.push(mk("c.txt", vec![("base.txt", base()), ("c.txt", c.clone())]));
        let e = vec![ext("c.txt"), block("x", vec![t("e"), sup(), sup()])];
        ms.push(mk("e.txt", vec![("base.txt", base()), ("c.txt", c.clone()), ("e.txt", e)]));
        if wrap == 3 {
            let e = vec![ext("c.txt"), block("inner", vec![t("E"), sup()])];
            ms.push(mk("e.txt", vec![("base.txt", base()), ("c.txt", c.clone()), ("e.txt", e)]));
            let e = vec![ext("c.txt"), block("y", vec![t("Y"), sup(), t("Y")])];
            ms.push(mk("e.txt", vec![("base.txt", base()), ("c.txt", c), ("e.txt", e)]));
        }
    }
    // Blocks hold includes, loops, filters and branches.
    let inner: Vec<Vec<N>> = vec![
        vec![N::Include("i.txt".into(), N0)],
        vec![for_("i", E::Range(Some(Box::new(int(0))), Some(Box::new(int(3))), false), vec![outv("i"), E_last()])],
        vec![N::Filter(vec![("upper".into(), vec![])], N0, vec![t("f"), outv("a")], N0)],
        vec![ifelse(var("no"), vec![t("n")], vec![t("else"), outv("b")])],
        vec![let_("a", int(9)), outv("a"), block("z", vec![outv("a")]), outv("a")],
        vec![block("z", vec![block("w", vec![t("w"), outv("b")]), t("z")])],
        vec![N::Raw("{{ raw }}".into(), N0, N0)],
        vec![],
    ];
    for (k, b) in inner.iter().enumerate() {
        let bs = vec![t("<"), block("x", b.clone()), t("-"), outv("a"), t(">")];
        let inc = ("i.txt", vec![t("inc"), outv("a"), let_("b", int(8)), outv("b")]);
        ms.push(mk("base.txt", vec![("base.txt", bs.clone()), inc.clone()]));
        for o in [vec![sup()], vec![t("o"), sup(), t("o"), sup()], inner[(k + 1) % inner.len()].clone()] {
            if defs_of(&o).iter().any(|d| defs_of(b).contains(d)) {
                continue;
            }
            ms.push(mk("c.txt", vec![("base.txt", bs.clone()), inc.clone(), ("c.txt", vec![ext("base.txt"), block("x", o)])]));
        }
        // The nested blocks are overridden on their own.
        for d in defs_of(b) {
            ms.push(mk("c.txt", vec![("base.txt", bs.clone()), inc.clone(), ("c.txt", vec![ext("base.txt"), block(&d, vec![t("O"), sup(), t("O")])])]));
            ms.push(mk("d.txt", vec![("base.txt", bs.clone()), inc.clone(), ("c.txt", vec![ext("base.txt"), block(&d, vec![t("O"), sup(), t("O")])]), ("d.txt", vec![ext("c.txt"), block("x", vec![t("X"), sup(), t("X")])])]));
        }
    }
    // Blocks at every place, in the root and in a block of the child, overridden or not.
    for h in 0..HOLDERS {
        for g in 0..=HOLDERS {
            if h == g && h == 11 || !thorough() && g > 1 && (h + g) % 3 != 0 {
                continue;
            }
            let put = |b: Vec<N>| {
                let b = vec![t("("), holder(h, b), t(")")];
                if g == 0 { b } else { vec![t("["), holder(g - 1, b), outv("a"), t("]")] }
            };
            let root = vec![t("<"), outv("a"), block("y", vec![t("by")]), t("|")].into_iter().chain(put(vec![t("p"), block("x", vec![t("bx"), outv("a")]), t("s")])).chain([outv("b"), t(">")]).collect::<Vec<_>>();
            ms.push(mk("base.txt", vec![("base.txt", root.clone())]));
            ms.push(mk("c.txt", vec![("base.txt", root.clone()), ("c.txt", vec![ext("base.txt"), block("x", vec![t("C"), sup(), outv("b"), sup()])])]));
            let mid = put(vec![t("q"), sup(), block("z", vec![t("bz"), outv("b")])]);
            let c = ("c.txt", vec![ext("base.txt"), block("y", mid)]);
            // Where the holder is a block of its own, `super()` would be that one's.
            if h != 11 && g != 12 {
                ms.push(mk("c.txt", vec![("base.txt", root.clone()), c.clone()]));
                ms.push(mk("d.txt", vec![("base.txt", root.clone()), c.clone(), ("d.txt", vec![ext("c.txt"), block("z", vec![t("D"), sup(), outv("a")]), block("x", vec![sup(), t("!")])])]));
            }
        }
    }
    // Names that are similar are different ones.
    for (x, y) in vkit::model::SIMILAR {
        for (x, y) in [(x, y), (y, x)] {
            let base = vec![t("<"), block(x, vec![t("bx"), outv("a")]), t("|"), block(y, vec![t("by"), outv("b")]), t(">")];
            ms.push(mk("base.txt", vec![("base.txt", base.clone())]));
            ms.push(mk("c.txt", vec![("base.txt", base.clone()), ("c.txt", vec![ext("base.txt"), block(y, vec![t("C"), sup()])])]));
            ms.push(mk("c.txt", vec![("base.txt", base.clone()), ("c.txt", vec![ext("base.txt"), block(y, vec![t("C"), sup()]), block(x, vec![sup(), t("D"), sup()])])]));
            let nested = vec![t("<"), block(x, vec![t("("), block(y, vec![t("in"), outv("a")]), t(")")]), t(">")];
            ms.push(mk("base.txt", vec![("base.txt", nested.clone())]));
            ms.push(mk("c.txt", vec![("base.txt", nested.clone()), ("c.txt", vec![ext("base.txt"), block(y, vec![t("C"), sup()])])]));
            ms.push(mk("d.txt", vec![("base.txt", nested.clone()), ("c.txt", vec![ext("base.txt"), block(x, vec![t("C"), sup()])]), ("d.txt", vec![ext("c.txt"), block(y, vec![t("D"), sup()])])]));
        }
    }
    // Whitespace control at the edges of blocks belongs to the file that holds the tag.
    let flags = [None, Some(W::Suppress), Some(W::Minimize)];
    for w1 in flags {
        for w2 in flags {
            let bs = vec![t("a \n"), N::Block("x".into(), Ws(w1, w2), vec![t(" \n in \n ")], Ws(w2, w1)), t(" \nz")];
            let c = vec![ext("base.txt"), t(" \n"), N::Block("x".into(), Ws(w2, w1), vec![t(" \n c"), N::Super(Ws(w1, w2)), t("\n ")], Ws(w1, w2)), t("\n ")];
            ms.push(mk("base.txt", vec![("base.txt", bs.clone())]));
            ms.push(mk("c.txt", vec![("base.txt", bs), ("c.txt", c)]));
        }
    }
    // Depth: chains of up to 8 levels with super() everywhere, blocks nested up to 6 deep.
    for d in [5usize, 8] {
        let mut f: Vec<(String, Vec<N>)> = vec![("base.txt".into(), vec![t("<"), block("x", vec![t("0")]), t(">")])];
        for k in 1..d {
            let parent = f.last().unwrap().0.clone();
            f.push((format!("l{k}.txt"), vec![N::Extends(parent), block("x", vec![t(&format!("{k}(")), sup(), t(")")])]));
        }
        let root = f.last().unwrap().0.clone();
        ms.push(model(&root, f));
    }
    let mut b = vec![t("core"), outv("a")];
    let mut ns = vec![];
    for k in 0..6 {
        let n = format!("b{k}");
        b = vec![t(&format!("{k}[")), block(&n, b), t("]")];
        ns.push(n);
    }
    ms.push(mk("base.txt", vec![("base.txt", b.clone())]));
    for n in &ns {
        ms.push(mk("c.txt", vec![("base.txt", b.clone()), ("c.txt", vec![ext("base.txt"), block(n, vec![t("<"), sup(), t("|"), sup(), t(">")])])]));
        for m in &ns {
            if m != n {
                ms.push(mk("c.txt", vec![("base.txt", b.clone()), ("c.txt", vec![ext("base.txt"), block(n, vec![t("<"), sup(), t(">")]), block(m, vec![t("("), outv("b"), sup(), t(")")])])]));
            }
        }
    }
}

#[allow(non_snake_case)]
fn E_last() -> N {
    if_(E::Loop("last"), vec![t("L")])
}

fn defs_of(b: &[N]) -> Vec<String> {
    let mut d = vec![];
    defs(b, &mut d);
    d
}
