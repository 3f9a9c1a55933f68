//! Reference model of the template language: syntax tree, pretty printer, whitespace resolution
//! and a direct interpreter. Deliberately boring: it follows the user documentation, not the code.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- values

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    B(bool),
    I(i64),
    S(String),
    C(char),
    L(Vec<V>),
    T(Vec<V>),
    None_,
    Some_(Box<V>),
    Ok_(Box<V>),
    Err_(Box<V>),
    /// Enum or struct value: path text, positional parts, named parts.
    Ctor(String, Vec<V>, Vec<(String, V)>),
    /// A value whose Display fails after writing this text.
    Bad(String),
    /// Rust text of a value and what its Display writes.
    Show(String, String),
}

pub fn s(x: &str) -> V {
    V::S(x.to_string())
}
pub fn i(x: i64) -> V {
    V::I(x)
}
pub fn some(v: V) -> V {
    V::Some_(Box::new(v))
}

impl V {
    pub fn text(&self) -> Result<String, String> {
        Ok(match self {
            V::B(b) => b.to_string(),
            V::I(i) => i.to_string(),
            V::S(s) => s.clone(),
            V::C(c) => c.to_string(),
            V::Bad(s) => return Err(s.clone()),
            V::Show(_, s) => s.clone(),
            v => panic!("model: value has no Display: {v:?}"),
        })
    }
    pub fn truthy(&self) -> bool {
        match self {
            V::B(b) => *b,
            v => panic!("model: not a bool: {v:?}"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            V::I(i) => *i,
            v => panic!("model: not an int: {v:?}"),
        }
    }
    pub fn items(&self) -> Vec<V> {
        match self {
            V::L(v) => v.clone(),
            v => panic!("model: not a list: {v:?}"),
        }
    }
    /// Rust literal of this value, strings as &'static str, lists as slices.
    pub fn rust(&self) -> String {
        match self {
            V::B(b) => b.to_string(),
            V::I(i) => i.to_string(),
            V::S(s) => format!("{s:?}"),
            V::C(c) => format!("{c:?}"),
            V::L(v) => format!("&[{}]", v.iter().map(V::rust).collect::<Vec<_>>().join(", ")),
            V::T(v) => format!("({},)", v.iter().map(V::rust).collect::<Vec<_>>().join(", ")),
            V::None_ => "None".into(),
            V::Some_(v) => format!("Some({})", v.rust()),
            V::Ok_(v) => format!("Ok({})", v.rust()),
            V::Err_(v) => format!("Err({})", v.rust()),
            V::Ctor(p, pos, named) => {
                if !named.is_empty() {
                    format!(
                        "{p} {{ {} }}",
                        named.iter().map(|(n, v)| format!("{n}: {}", v.rust())).collect::<Vec<_>>().join(", ")
                    )
                } else if !pos.is_empty() {
                    format!("{p}({})", pos.iter().map(V::rust).collect::<Vec<_>>().join(", "))
                } else {
                    p.clone()
                }
            }
            V::Bad(s) => format!("Bad({s:?})"),
            V::Show(r, _) => r.clone(),
        }
    }
}

// ---------------------------------------------------------------- syntax tree

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(V),
    Var(String),
    SelfF(String),
    Attr(Box<E>, String),
    Index(Box<E>, Box<E>),
    Un(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Group(Box<E>),
    Filter(Box<E>, String, Vec<E>),
    Range(Option<Box<E>>, Option<Box<E>>, bool),
    Arr(Vec<E>),
    Tup(Vec<E>),
    /// loop.index etc.
    Loop(&'static str),
    Cycle(Vec<E>),
    /// Call of a known traced function: `tr(1)` logs 1 and yields it, `tb(1, true)`.
    Call(String, Vec<E>),
    Ctor(String, Vec<E>),
    /// Rust text with a known value (calls, paths, macros).
    Known(String, V),
    Try(Box<E>),
    /// Rust text after an expression that does not change its value, such as `.clone()`.
    Via(Box<E>, String),
}

pub fn cl(n: &str) -> E {
    E::Via(Box::new(var(n)), ".abs()".into())
}

pub fn var(n: &str) -> E {
    E::Var(n.to_string())
}
pub fn lit(v: V) -> E {
    E::Lit(v)
}
pub fn int(n: i64) -> E {
    E::Lit(V::I(n))
}
pub fn st(x: &str) -> E {
    E::Lit(s(x))
}
pub fn bin(op: &'static str, a: E, b: E) -> E {
    E::Bin(op, Box::new(a), Box::new(b))
}
pub fn un(op: &'static str, a: E) -> E {
    E::Un(op, Box::new(a))
}
pub fn filt(a: E, name: &str, args: Vec<E>) -> E {
    E::Filter(Box::new(a), name.to_string(), args)
}
pub fn attr(a: E, name: &str) -> E {
    E::Attr(Box::new(a), name.to_string())
}

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Wild,
    Name(String),
    Lit(V),
    /// Path, parts
    Tuple(String, Vec<P>),
    /// Path, named parts (None = shorthand)
    Struct(String, Vec<(String, Option<P>)>),
    Path(String),
    Or(Vec<P>),
    /// Another spelling of the pattern.
    As(String, Box<P>),
}

pub fn pn(n: &str) -> P {
    P::Name(n.to_string())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum W {
    Suppress,
    Preserve,
    Minimize,
}

pub const FLAGS: [Option<W>; 4] = [None, Some(W::Suppress), Some(W::Preserve), Some(W::Minimize)];

/// Markers at the left and right edge of one tag.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Ws(pub Option<W>, pub Option<W>);

pub const N0: Ws = Ws(None, None);

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Expr(E),
    Let(P, E),
}

#[derive(Clone, Debug, PartialEq)]
pub struct MacroDef {
    pub name: String,
    pub params: Vec<String>,
    pub ws1: Ws,
    pub body: Vec<N>,
    pub ws2: Ws,
}

#[derive(Clone, Debug, PartialEq)]
pub struct For {
    pub ws1: Ws,
    pub var: P,
    pub iter: E,
    pub cond: Option<E>,
    pub body: Vec<N>,
    pub els: Option<(Ws, Vec<N>)>,
    pub ws2: Ws,
}

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Text(String),
    Comment(String, Ws),
    Expr(E, Ws),
    Raw(String, Ws, Ws),
    Let(P, Option<E>, Ws),
    If(Vec<(Ws, Option<Cond>, Vec<N>)>, Ws),
    /// tag, scrutinee, filler text before the first arm, arms, end tag
    Match(Ws, E, String, Vec<(Ws, P, Vec<N>)>, Ws),
    For(Box<For>),
    Break(Ws),
    Continue(Ws),
    Block(String, Ws, Vec<N>, Ws),
    Super(Ws),
    Macro(MacroDef),
    Call(Option<String>, String, Vec<(Option<String>, E)>, Ws),
    Include(String, Ws),
    Import(String, String, Ws),
    Extends(String),
    Filter(Vec<(String, Vec<E>)>, Ws, Vec<N>, Ws),
}

/// Pairs of names that could be mixed up.
pub const SIMILAR: &[(&str, &str)] = &[
    ("x", "X"),
    ("_m", "m"),
    ("m_", "m"),
    ("__m", "_m"),
    ("mm", "m"),
    ("m1", "m"),
    ("m1", "m10"),
    ("\u{e4}", "a"),
    ("\u{e9}t\u{e9}", "et\u{e9}"),
    ("x_1", "x1"),
    ("blockm", "m"),
    ("type", "typ"),
    ("fn", "r"),
    ("self_", "sel"),
    ("superb", "supe"),
    ("\u{540d}", "\u{540d}\u{524d}"),
    ("abcdefghijklmnopqrstuvwxyz_1", "abcdefghijklmnopqrstuvwxyz_2"),
];

pub fn t(x: &str) -> N {
    N::Text(x.to_string())
}
pub fn out(e: E) -> N {
    N::Expr(e, N0)
}
pub fn outv(n: &str) -> N {
    N::Expr(var(n), N0)
}
pub fn let_(n: &str, e: E) -> N {
    N::Let(pn(n), Some(e), N0)
}
pub fn if_(c: E, body: Vec<N>) -> N {
    N::If(vec![(N0, Some(Cond::Expr(c)), body)], N0)
}
pub fn ifelse(c: E, a: Vec<N>, b: Vec<N>) -> N {
    N::If(vec![(N0, Some(Cond::Expr(c)), a), (N0, None, b)], N0)
}
pub fn for_(v: &str, iter: E, body: Vec<N>) -> N {
    N::For(Box::new(For { ws1: N0, var: pn(v), iter, cond: None, body, els: None, ws2: N0 }))
}
pub fn block(n: &str, body: Vec<N>) -> N {
    N::Block(n.into(), N0, body, N0)
}
pub fn macro_(n: &str, params: &[&str], body: Vec<N>) -> N {
    N::Macro(MacroDef { name: n.into(), params: params.iter().map(|x| x.to_string()).collect(), ws1: N0, body, ws2: N0 })
}
pub fn call(n: &str, args: Vec<E>) -> N {
    N::Call(None, n.into(), args.into_iter().map(|a| (None, a)).collect(), N0)
}

// ---------------------------------------------------------------- printer

#[derive(Clone, Debug)]
pub struct Syntax {
    pub bs: String,
    pub be: String,
    pub es: String,
    pub ee: String,
    pub cs: String,
    pub ce: String,
}

impl Default for Syntax {
    fn default() -> Self {
        Syntax { bs: "{%".into(), be: "%}".into(), es: "{{".into(), ee: "}}".into(), cs: "{#".into(), ce: "#}".into() }
    }
}

#[derive(Clone, Debug)]
pub struct Style {
    pub syntax: Syntax,
    /// Filler inside tags where it is optional.
    pub sp: String,
    /// Filler inside tags where some whitespace is required.
    pub req: String,
    pub else_if: &'static str,
    pub set: bool,
    pub named_end: bool,
}

impl Default for Style {
    fn default() -> Self {
        Style { syntax: Syntax::default(), sp: " ".into(), req: " ".into(), else_if: "else if", set: false, named_end: false }
    }
}

fn flag(w: Option<W>) -> &'static str {
    match w {
        None => "",
        Some(W::Suppress) => "-",
        Some(W::Preserve) => "+",
        Some(W::Minimize) => "~",
    }
}

pub fn prec(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 3,
        "|" => 4,
        "^" => 5,
        "&" => 6,
        "<<" | ">>" => 7,
        "+" | "-" => 8,
        "*" | "/" | "%" => 9,
        _ => panic!("op {op}"),
    }
}

pub fn lit_text(v: &V) -> String {
    match v {
        V::S(x) => {
            let mut o = String::from("\"");
            for c in x.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        V::L(x) => format!("[{}]", x.iter().map(lit_text).collect::<Vec<_>>().join(", ")),
        v => v.rust(),
    }
}

impl Style {
    pub fn tight() -> Self {
        Style { sp: String::new(), ..Default::default() }
    }
    pub fn loose() -> Self {
        Style { sp: "\n\t ".into(), req: " \n ".into(), ..Default::default() }
    }

    fn args(&self, a: &[E]) -> String {
        a.iter().map(|e| self.expr(e)).collect::<Vec<_>>().join(&format!(",{}", self.sp))
    }

    /// Prints with the minimal parentheses: operands are put in a Group by the builder if needed.
    pub fn expr(&self, e: &E) -> String {
        match e {
            E::Lit(v) => lit_text(v),
            E::Var(n) => n.clone(),
            E::SelfF(n) => format!("self.{n}"),
            E::Attr(a, n) => format!("{}.{n}", self.expr(a)),
            E::Index(a, b) => format!("{}[{}]", self.expr(a), self.expr(b)),
            E::Un(op, a) => format!("{op}{}", self.expr(a)),
            E::Bin(op, a, b) => {
                // `a |b` and `a - b`: keep a blank around `|` so it is not a filter.
                if *op == "|" {
                    format!("{} | {}", self.expr(a), self.expr(b))
                } else {
                    format!("{}{}{op}{}{}", self.expr(a), self.sp, self.sp, self.expr(b))
                }
            }
            E::Group(a) => format!("({})", self.expr(a)),
            E::Filter(a, n, args) => {
                if args.is_empty() {
                    format!("{}|{n}", self.expr(a))
                } else {
                    format!("{}|{n}({})", self.expr(a), self.args(args))
                }
            }
            E::Range(a, b, incl) => format!(
                "{}{}{}",
                a.as_ref().map(|a| self.expr(a)).unwrap_or_default(),
                if *incl { "..=" } else { ".." },
                b.as_ref().map(|a| self.expr(a)).unwrap_or_default()
            ),
            E::Arr(a) => format!("[{}]", self.args(a)),
            E::Tup(a) if a.len() == 1 => format!("({},)", self.expr(&a[0])),
            E::Tup(a) => format!("({})", self.args(a)),
            E::Loop(x) => format!("loop.{x}"),
            E::Cycle(a) => format!("loop.cycle([{}])", self.args(a)),
            E::Call(n, a) => format!("{n}({})", self.args(a)),
            E::Ctor(n, a) => format!("{n}({})", self.args(a)),
            E::Known(x, _) => x.clone(),
            E::Try(a) => format!("{}?", self.expr(a)),
            E::Via(a, x) => format!("{}{x}", self.expr(a)),
        }
    }

    pub fn pat(&self, p: &P) -> String {
        match p {
            P::Wild => "_".into(),
            P::Name(n) => n.clone(),
            P::Lit(v) => lit_text(v),
            P::Tuple(path, ps) if path.is_empty() && ps.len() == 1 => format!("({},)", self.pat(&ps[0])),
            P::Tuple(path, ps) => {
                let parts = ps.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(&format!(",{}", self.sp));
                if path.is_empty() {
                    format!("({parts})")
                } else {
                    format!("{path}{}({parts})", self.sp)
                }
            }
            P::Struct(path, ps) => format!(
                "{path} {{{}{}{}}}",
                self.sp,
                ps.iter()
                    .map(|(n, p)| match p {
                        Some(p) => format!("{n}:{}{}", self.sp, self.pat(p)),
                        None => n.clone(),
                    })
                    .collect::<Vec<_>>()
                    .join(&format!(",{}", self.sp)),
                self.sp
            ),
            P::Path(x) | P::As(x, _) => x.clone(),
            P::Or(ps) => ps.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(&format!("{}or{}", self.req, self.req)),
        }
    }

    fn tag(&self, ws: Ws, body: &str) -> String {
        let pre = match body.starts_with(['-', '+', '~']) && self.sp.is_empty() && ws.0.is_none() {
            true => " ",
            false => &self.sp,
        };
        format!("{}{}{pre}{body}{}{}{}", self.syntax.bs, flag(ws.0), self.sp, flag(ws.1), self.syntax.be)
    }

    fn cond(&self, c: &Cond) -> String {
        match c {
            Cond::Expr(e) => self.expr(e),
            Cond::Let(p, e) => format!("let{}{}{}={}{}", self.req, self.pat(p), self.sp, self.sp, self.expr(e)),
        }
    }

    pub fn nodes(&self, ns: &[N]) -> String {
        let mut o = String::new();
        for n in ns {
            self.node(n, &mut o);
        }
        o
    }

    fn node(&self, n: &N, o: &mut String) {
        let r = &self.req;
        let sp = &self.sp;
        match n {
            N::Text(x) => o.push_str(x),
            N::Comment(x, ws) => {
                o.push_str(&self.syntax.cs);
                o.push_str(flag(ws.0));
                if x.is_empty() {
                    o.push(' ');
                }
                o.push_str(x);
                o.push_str(flag(ws.1));
                o.push_str(&self.syntax.ce);
            }
            N::Expr(e, ws) => {
                let b = self.expr(e);
                let pre = match b.starts_with(['-', '+', '~']) && sp.is_empty() { true => " ", false => sp };
                o.push_str(&format!("{}{}{pre}{b}{sp}{}{}", self.syntax.es, flag(ws.0), flag(ws.1), self.syntax.ee));
            }
            N::Raw(x, w1, w2) => {
                o.push_str(&self.tag(*w1, "raw"));
                o.push_str(x);
                o.push_str(&self.tag(*w2, "endraw"));
            }
            N::Let(p, e, ws) => {
                let kw = if self.set { "set" } else { "let" };
                let b = match e {
                    Some(e) => format!("{kw}{r}{}{sp}={sp}{}", self.pat(p), self.expr(e)),
                    None => format!("{kw}{r}{}", self.pat(p)),
                };
                o.push_str(&self.tag(*ws, &b));
            }
            N::If(br, end) => {
                for (k, (ws, c, body)) in br.iter().enumerate() {
                    let b = match (k, c) {
                        (0, Some(c)) => format!("if{r}{}", self.cond(c)),
                        (_, Some(c)) => format!("{}{r}{}", self.else_if, self.cond(c)),
                        (_, None) => "else".to_string(),
                    };
                    o.push_str(&self.tag(*ws, &b));
                    o.push_str(&self.nodes(body));
                }
                o.push_str(&self.tag(*end, "endif"));
            }
            N::Match(ws, e, fill, arms, end) => {
                o.push_str(&self.tag(*ws, &format!("match{r}{}", self.expr(e))));
                o.push_str(fill);
                for (ws, p, body) in arms {
                    let b = match p {
                        P::Name(n) if n == "__else" => "else".to_string(),
                        p => format!("when{r}{}", self.pat(p)),
                    };
                    o.push_str(&self.tag(*ws, &b));
                    o.push_str(&self.nodes(body));
                }
                o.push_str(&self.tag(*end, "endmatch"));
            }
            N::For(f) => {
                let mut b = format!("for{r}{}{r}in{r}{}", self.pat(&f.var), self.expr(&f.iter));
                if let Some(c) = &f.cond {
                    b.push_str(&format!("{r}if{r}{}", self.expr(c)));
                }
                o.push_str(&self.tag(f.ws1, &b));
                o.push_str(&self.nodes(&f.body));
                if let Some((ws, els)) = &f.els {
                    o.push_str(&self.tag(*ws, "else"));
                    o.push_str(&self.nodes(els));
                }
                o.push_str(&self.tag(f.ws2, "endfor"));
            }
            N::Break(ws) => o.push_str(&self.tag(*ws, "break")),
            N::Continue(ws) => o.push_str(&self.tag(*ws, "continue")),
            N::Block(n, w1, body, w2) => {
                o.push_str(&self.tag(*w1, &format!("block{r}{n}")));
                o.push_str(&self.nodes(body));
                let e = if self.named_end { format!("endblock{r}{n}") } else { "endblock".into() };
                o.push_str(&self.tag(*w2, &e));
            }
            N::Super(ws) => o.push_str(&self.tag(*ws, &format!("call{r}super()"))),
            N::Macro(m) => {
                let ps = if m.params.is_empty() { String::from("()") } else { format!("({})", m.params.join(&format!(",{sp}"))) };
                o.push_str(&self.tag(m.ws1, &format!("macro{r}{}{ps}", m.name)));
                o.push_str(&self.nodes(&m.body));
                let e = if self.named_end { format!("endmacro{r}{}", m.name) } else { "endmacro".into() };
                o.push_str(&self.tag(m.ws2, &e));
            }
            N::Call(scope, n, args, ws) => {
                let a = args
                    .iter()
                    .map(|(n, e)| match n {
                        Some(n) => format!("{n}{sp}={sp}{}", self.expr(e)),
                        None => self.expr(e),
                    })
                    .collect::<Vec<_>>()
                    .join(&format!(",{sp}"));
                let f = match scope {
                    Some(s) => format!("{s}::{n}"),
                    None => n.clone(),
                };
                o.push_str(&self.tag(*ws, &format!("call{r}{f}({a})")));
            }
            N::Include(p, ws) => o.push_str(&self.tag(*ws, &format!("include{r}\"{p}\""))),
            N::Import(p, s, ws) => o.push_str(&self.tag(*ws, &format!("import{r}\"{p}\"{r}as{r}{s}"))),
            N::Extends(p) => o.push_str(&self.tag(N0, &format!("extends{r}\"{p}\""))),
            N::Filter(fs, w1, body, w2) => {
                let f = fs
                    .iter()
                    .map(|(n, a)| if a.is_empty() { n.clone() } else { format!("{n}({})", self.args(a)) })
                    .collect::<Vec<_>>()
                    .join("|");
                o.push_str(&self.tag(*w1, &format!("filter{r}{f}")));
                o.push_str(&self.nodes(body));
                o.push_str(&self.tag(*w2, "endfilter"));
            }
        }
    }
}

// ---------------------------------------------------------------- whitespace resolution

enum Item {
    Text(String),
    Tag(Ws),
}

fn collect(ns: &[N], o: &mut Vec<Item>) {
    for n in ns {
        match n {
            N::Text(x) => o.push(Item::Text(x.clone())),
            N::Comment(_, w) | N::Expr(_, w) | N::Let(_, _, w) | N::Break(w) | N::Continue(w) | N::Super(w) => o.push(Item::Tag(*w)),
            N::Call(_, _, _, w) | N::Include(_, w) | N::Import(_, _, w) => o.push(Item::Tag(*w)),
            N::Raw(x, a, b) => {
                o.push(Item::Tag(*a));
                o.push(Item::Text(x.clone()));
                o.push(Item::Tag(*b));
            }
            N::If(br, end) => {
                for (w, _, body) in br {
                    o.push(Item::Tag(*w));
                    collect(body, o);
                }
                o.push(Item::Tag(*end));
            }
            N::Match(w, _, _, arms, end) => {
                o.push(Item::Tag(*w));
                for (w, _, body) in arms {
                    o.push(Item::Tag(*w));
                    collect(body, o);
                }
                o.push(Item::Tag(*end));
            }
            N::For(f) => {
                o.push(Item::Tag(f.ws1));
                collect(&f.body, o);
                if let Some((w, b)) = &f.els {
                    o.push(Item::Tag(*w));
                    collect(b, o);
                }
                o.push(Item::Tag(f.ws2));
            }
            N::Block(_, a, body, b) | N::Filter(_, a, body, b) => {
                o.push(Item::Tag(*a));
                collect(body, o);
                o.push(Item::Tag(*b));
            }
            N::Macro(m) => {
                o.push(Item::Tag(m.ws1));
                collect(&m.body, o);
                o.push(Item::Tag(m.ws2));
            }
            N::Extends(_) => o.push(Item::Tag(Ws(Some(W::Preserve), Some(W::Preserve)))),
        }
    }
}

fn assign(ns: &mut [N], it: &mut std::vec::IntoIter<String>) {
    for n in ns {
        match n {
            N::Text(x) | N::Raw(x, _, _) => *x = it.next().unwrap(),
            N::If(br, _) => br.iter_mut().for_each(|b| assign(&mut b.2, it)),
            N::Match(_, _, _, arms, _) => arms.iter_mut().for_each(|b| assign(&mut b.2, it)),
            N::For(f) => {
                assign(&mut f.body, it);
                if let Some((_, b)) = &mut f.els {
                    assign(b, it);
                }
            }
            N::Block(_, _, b, _) | N::Filter(_, _, b, _) => assign(b, it),
            N::Macro(m) => assign(&mut m.body, it),
            _ => {}
        }
    }
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

fn reduce(x: &str, w: W) -> String {
    match w {
        _ if x.is_empty() => String::new(),
        W::Preserve => x.to_string(),
        W::Suppress => String::new(),
        W::Minimize => if x.contains('\n') { "\n" } else { " " }.to_string(),
    }
}

/// Joins texts that follow each other.
pub fn merge_texts(ns: &[N]) -> Vec<N> {
    let mut o: Vec<N> = vec![];
    for n in ns {
        let mut n = n.clone();
        match &mut n {
            N::If(br, _) => br.iter_mut().for_each(|b| b.2 = merge_texts(&b.2)),
            N::Match(_, _, _, arms, _) => arms.iter_mut().for_each(|b| b.2 = merge_texts(&b.2)),
            N::For(f) => {
                f.body = merge_texts(&f.body);
                if let Some((_, b)) = &mut f.els {
                    *b = merge_texts(b);
                }
            }
            N::Block(_, _, b, _) | N::Filter(_, _, b, _) => *b = merge_texts(b),
            N::Macro(m) => m.body = merge_texts(&m.body),
            N::Text(x) => {
                if let Some(N::Text(y)) = o.last_mut() {
                    y.push_str(x);
                    continue;
                }
                if x.is_empty() {
                    continue;
                }
            }
            _ => {}
        }
        o.push(n);
    }
    o
}

/// Resolves all whitespace markers of one template source: texts are trimmed in place.
pub fn resolve_ws(ns: &[N], default: W) -> Vec<N> {
    let ns = &merge_texts(ns);
    let mut items = vec![];
    collect(ns, &mut items);
    let mut texts = vec![];
    for k in 0..items.len() {
        let Item::Text(x) = &items[k] else { continue };
        let l = match k.checked_sub(1).map(|j| &items[j]) {
            None => W::Preserve,
            Some(Item::Tag(w)) => w.1.unwrap_or(default),
            Some(Item::Text(_)) => panic!("model: adjacent texts"),
        };
        let r = match items.get(k + 1) {
            None => W::Preserve,
            Some(Item::Tag(w)) => w.0.unwrap_or(default),
            Some(Item::Text(_)) => panic!("model: adjacent texts"),
        };
        let core = x.trim_matches(is_ws);
        if core.is_empty() {
            let w = if l == W::Suppress || r == W::Suppress {
                W::Suppress
            } else if l == W::Minimize || r == W::Minimize {
                W::Minimize
            } else {
                W::Preserve
            };
            texts.push(reduce(x, w));
        } else {
            let ls = &x[..x.len() - x.trim_start_matches(is_ws).len()];
            let rs = &x[x.trim_end_matches(is_ws).len()..];
            texts.push(format!("{}{core}{}", reduce(ls, l), reduce(rs, r)));
        }
    }
    let mut out = ns.to_vec();
    let mut it = texts.into_iter();
    assign(&mut out, &mut it);
    out
}

// ---------------------------------------------------------------- interpreter

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Break,
    Continue,
    Err(String),
}

type R<T> = Result<T, Stop>;

#[derive(Clone, Debug, Default)]
pub struct Files(pub BTreeMap<String, Vec<N>>);

#[derive(Clone, Default)]
struct Ctx<'a> {
    macros: HashMap<&'a str, (&'a str, &'a MacroDef)>,
    imports: HashMap<&'a str, &'a str>,
}

#[derive(Clone, Debug)]
struct LoopState {
    idx: usize,
    last: bool,
}

#[derive(Clone)]
struct Heritage<'a> {
    root: &'a str,
    /// block name -> definitions from the most derived on: (file, body)
    blocks: HashMap<&'a str, Vec<(&'a str, &'a Vec<N>)>>,
}

pub struct Interp<'a> {
    files: &'a Files,
    fields: HashMap<String, V>,
    scopes: Vec<HashMap<String, Option<V>>>,
    loops: Vec<LoopState>,
    pub out: String,
    pub trace: Vec<i64>,
    /// The escaper of the template, and the escapers known by name.
    pub esc: Escaper,
    pub named: fn(&str) -> Escaper,
    pub steps: u64,
    heritage: Option<Heritage<'a>>,
    cur_block: Option<(&'a str, usize)>,
    cur_file: &'a str,
    /// Record the text each block contributes: block name -> text.
    pub block_text: Vec<(String, String)>,
    /// When rendering a fragment: render only this block.
    pub resolve: fn(&str, &str, &Files) -> String,
    pub filter: fn(&str, &str, &[V]) -> Option<Result<String, String>>,
    /// Hashes of the configurations (program point, bindings, loops, output) visited.
    pub seen: HashSet<u64>,
}

/// Default path resolution of the model: file names are used as they are.
fn plain(_from: &str, to: &str, _f: &Files) -> String {
    to.to_string()
}

pub fn escape_html(x: &str) -> String {
    let mut o = String::new();
    for c in x.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#x27;"),
            c => o.push(c),
        }
    }
    o
}

pub type Escaper = fn(&str) -> String;

pub fn escape_text(x: &str) -> String {
    x.to_string()
}

/// The default escapers by name.
pub fn escaper(name: &str) -> Escaper {
    match name {
        "html" | "htm" | "svg" | "xml" | "j2" | "jinja" | "jinja2" => escape_html,
        "md" | "none" | "txt" | "typ" | "yml" | "" => escape_text,
        n => panic!("model: escaper {n}"),
    }
}

fn find_blocks<'a>(ns: &'a [N], o: &mut Vec<(&'a str, &'a Vec<N>)>) {
    for n in ns {
        match n {
            N::Block(name, _, body, _) => {
                o.push((name, body));
                find_blocks(body, o);
            }
            N::If(br, _) => br.iter().for_each(|b| find_blocks(&b.2, o)),
            N::Match(_, _, _, arms, _) => arms.iter().for_each(|b| find_blocks(&b.2, o)),
            N::For(f) => {
                find_blocks(&f.body, o);
                if let Some((_, b)) = &f.els {
                    find_blocks(b, o);
                }
            }
            N::Filter(_, _, b, _) => find_blocks(b, o),
            _ => {}
        }
    }
}

impl<'a> Interp<'a> {
    pub fn new(files: &'a Files, fields: &[(String, V)], html: bool) -> Self {
        Interp {
            files,
            fields: fields.iter().cloned().collect(),
            scopes: vec![HashMap::new()],
            loops: vec![],
            out: String::new(),
            trace: vec![],
            esc: if html { escape_html } else { escape_text },
            named: escaper,
            steps: 0,
            heritage: None,
            cur_block: None,
            cur_file: "",
            block_text: vec![],
            resolve: plain,
            filter: crate::filters::apply,
            seen: HashSet::new(),
        }
    }

    fn nodes_of(&self, f: &str) -> &'a Vec<N> {
        self.files.0.get(f).unwrap_or_else(|| panic!("model: no file {f}"))
    }

    fn key(&self, f: &str) -> &'a str {
        self.files.0.get_key_value(f).unwrap_or_else(|| panic!("model: no file {f}")).0
    }

    fn ctx_of(&self, f: &'a str) -> Ctx<'a> {
        let mut c = Ctx::default();
        for n in self.nodes_of(f) {
            match n {
                N::Macro(m) => {
                    c.macros.insert(&m.name, (f, m));
                }
                N::Import(p, s, _) => {
                    let p = (self.resolve)(f, p, self.files);
                    c.imports.insert(s, self.key(&p));
                }
                _ => {}
            }
        }
        c
    }

    fn merge(mut a: Ctx<'a>, b: &Ctx<'a>) -> Ctx<'a> {
        for (k, v) in &b.macros {
            a.macros.entry(k).or_insert(*v);
        }
        for (k, v) in &b.imports {
            a.imports.entry(k).or_insert(*v);
        }
        a
    }

    fn heritage_of(&self, f: &'a str) -> Heritage<'a> {
        let mut h = Heritage { root: f, blocks: HashMap::new() };
        let mut cur = f;
        loop {
            let ns = self.nodes_of(cur);
            let mut bs = vec![];
            find_blocks(ns, &mut bs);
            for (n, b) in bs {
                h.blocks.entry(n).or_default().push((cur, b));
            }
            h.root = cur;
            match ns.iter().find_map(|n| if let N::Extends(p) = n { Some(p) } else { None }) {
                Some(p) => {
                    let p = (self.resolve)(cur, p, self.files);
                    cur = self.key(&p);
                }
                None => return h,
            }
        }
    }

    /// Renders the full template.
    pub fn render(&mut self, f: &str) -> R<()> {
        let f = self.key(f);
        let h = self.heritage_of(f);
        let root = h.root;
        self.heritage = Some(h);
        self.cur_file = root;
        let ctx = self.ctx_of(root);
        // Macros and imports of the leaf are usable in its own blocks only (see merge in block()).
        let ns = self.nodes_of(root);
        self.run(ns, &ctx)
    }

    fn lookup(&self, n: &str) -> V {
        for s in self.scopes.iter().rev() {
            if let Some(v) = s.get(n) {
                return v.clone().unwrap_or_else(|| panic!("model: {n} read before assignment"));
            }
        }
        self.fields.get(n).cloned().unwrap_or_else(|| panic!("model: unbound {n}"))
    }

    fn bind(&mut self, n: &str, v: V) {
        self.scopes.last_mut().unwrap().insert(n.to_string(), Some(v));
    }

    pub fn matches(&self, p: &P, v: &V, b: &mut Vec<(String, V)>) -> bool {
        match (p, v) {
            (P::Wild, _) => true,
            (P::Name(n), _) if n == "__else" => true,
            (P::Name(n), v) => {
                b.push((n.clone(), v.clone()));
                true
            }
            (P::Lit(x), v) => x == v,
            (P::As(_, p), v) => self.matches(p, v, b),
            (P::Or(ps), v) => ps.iter().any(|p| {
                let mut bb = vec![];
                let ok = self.matches(p, v, &mut bb);
                if ok {
                    b.extend(bb);
                }
                ok
            }),
            (P::Tuple(path, ps), V::T(vs)) if path.is_empty() => {
                ps.len() == vs.len() && ps.iter().zip(vs).all(|(p, v)| self.matches(p, v, b))
            }
            (P::Tuple(path, ps), V::Some_(v)) => path.ends_with("Some") && self.matches(&ps[0], v, b),
            (P::Tuple(path, ps), V::Ok_(v)) => path.ends_with("Ok") && self.matches(&ps[0], v, b),
            (P::Tuple(path, ps), V::Err_(v)) => path.ends_with("Err") && self.matches(&ps[0], v, b),
            (P::Tuple(path, ps), V::Ctor(n, vs, _)) => {
                path == n && ps.len() == vs.len() && ps.iter().zip(vs).all(|(p, v)| self.matches(p, v, b))
            }
            (P::Struct(path, ps), V::Ctor(n, _, named)) => {
                path == n
                    && ps.iter().all(|(f, p)| {
                        let Some((_, v)) = named.iter().find(|(k, _)| k == f) else { panic!("model: no part {f}") };
                        match p {
                            Some(p) => self.matches(p, v, b),
                            None => {
                                b.push((f.clone(), v.clone()));
                                true
                            }
                        }
                    })
            }
            (P::Path(x), V::None_) => x.ends_with("None"),
            (P::Path(x), V::Ctor(n, vs, named)) => x == n && vs.is_empty() && named.is_empty(),
            _ => false,
        }
    }

    pub fn eval(&mut self, e: &E) -> R<V> {
        self.steps += 1;
        Ok(match e {
            E::Lit(v) => v.clone(),
            E::Var(n) => self.lookup(n),
            E::SelfF(n) => self.fields.get(n).cloned().unwrap_or_else(|| panic!("model: no field {n}")),
            E::Attr(a, n) => match self.eval(a)? {
                V::Ctor(_, _, named) => named.into_iter().find(|(k, _)| k == n).unwrap_or_else(|| panic!("model: no attr {n}")).1,
                V::T(v) => v[n.parse::<usize>().unwrap()].clone(),
                v => panic!("model: attr of {v:?}"),
            },
            E::Index(a, b) => {
                let l = self.eval(a)?.items();
                match self.eval(b)? {
                    V::I(k) => l[k as usize].clone(),
                    v => panic!("model: index {v:?}"),
                }
            }
            E::Un(op, a) => match (*op, self.eval(a)?) {
                ("!", V::B(b)) => V::B(!b),
                ("!", V::I(b)) => V::I(!(b as i32) as i64),
                ("-", V::I(b)) => V::I(-b),
                (op, v) => panic!("model: {op}{v:?}"),
            },
            E::Bin(op, a, b) => {
                let x = self.eval(a)?;
                match (*op, &x) {
                    ("&&", V::B(false)) => return Ok(V::B(false)),
                    ("||", V::B(true)) => return Ok(V::B(true)),
                    _ => {}
                }
                let y = self.eval(b)?;
                binop(op, &x, &y).ok_or_else(|| Stop::Err(format!("overflow in {op}")))?
            }
            E::Group(a) => self.eval(a)?,
            E::Filter(a, n, args) => {
                let x = self.eval(a)?;
                let mut av = vec![];
                for a in args {
                    av.push(self.eval(a)?);
                }
                self.apply(n, &x, &av)?
            }
            E::Range(a, b, incl) => {
                let (Some(a), Some(b)) = (a, b) else { panic!("model: open range") };
                let (a, b) = (self.eval(a)?.int(), self.eval(b)?.int());
                V::L(if *incl { (a..=b).map(V::I).collect() } else { (a..b).map(V::I).collect() })
            }
            E::Arr(a) => {
                let mut v = vec![];
                for a in a {
                    v.push(self.eval(a)?);
                }
                V::L(v)
            }
            E::Tup(a) => {
                let mut v = vec![];
                for a in a {
                    v.push(self.eval(a)?);
                }
                V::T(v)
            }
            E::Loop(x) => {
                let l = self.loops.last().expect("model: loop outside for").clone();
                match *x {
                    "index" => V::I(l.idx as i64 + 1),
                    "index0" => V::I(l.idx as i64),
                    "first" => V::B(l.idx == 0),
                    "last" => V::B(l.last),
                    _ => panic!(),
                }
            }
            E::Cycle(a) => {
                let idx = self.loops.last().expect("model: loop outside for").idx;
                let mut v = vec![];
                for a in a {
                    v.push(self.eval(a)?);
                }
                v[idx % v.len()].clone()
            }
            E::Call(n, args) => {
                let mut av = vec![];
                for a in args {
                    av.push(self.eval(a)?);
                }
                match n.as_str() {
                    "crate::tr" => {
                        self.trace.push(av[0].int());
                        av[0].clone()
                    }
                    "crate::tb" => {
                        self.trace.push(av[0].int());
                        av[1].clone()
                    }
                    // Counts the evaluations.
                    "crate::nx" | "crate::nxm!" | "ob.nx" | "crate::rnx" => {
                        self.trace.push(-1);
                        let v = V::I(self.trace.len() as i64);
                        if n == "crate::rnx" { V::Ok_(Box::new(v)) } else { v }
                    }
                    _ => panic!("model: fn {n}"),
                }
            }
            E::Ctor(n, args) => {
                let mut av = vec![];
                for a in args {
                    av.push(self.eval(a)?);
                }
                match n.as_str() {
                    "Some" => some(av.remove(0)),
                    "Ok" => V::Ok_(Box::new(av.remove(0))),
                    "Err" => V::Err_(Box::new(av.remove(0))),
                    n => V::Ctor(n.to_string(), av, vec![]),
                }
            }
            E::Known(_, v) => v.clone(),
            E::Via(a, _) => self.eval(a)?,
            E::Try(a) => match self.eval(a)? {
                V::Ok_(v) => *v,
                V::Err_(e) => return Err(Stop::Err(e.text().unwrap())),
                v => panic!("model: ? on {v:?}"),
            },
        })
    }

    fn apply(&mut self, n: &str, x: &V, args: &[V]) -> R<V> {
        match (n, x) {
            ("join", V::L(l)) => {
                let sep = args[0].text().map_err(Stop::Err)?;
                let mut o = vec![];
                for v in l {
                    o.push(v.text().map_err(Stop::Err)?);
                }
                return Ok(V::S(o.join(&sep)));
            }
            ("abs" | "mag", V::I(k)) => return Ok(V::I(k.abs())),
            ("inc", V::I(k)) => return Ok(V::I(k + args.first().map(|a| a.int()).unwrap_or(100))),
            ("not", V::B(k)) => return Ok(V::B(!k)),
            ("as_ref" | "deref", v) => return Ok(v.clone()),
            _ => {}
        }
        let text = x.text().map_err(Stop::Err)?;
        if n == "wordcount" {
            return Ok(V::I(crate::filters::wordcount(&text) as i64));
        }
        let text = match n {
            "safe" => text,
            "escape" | "e" => {
                let esc = match args.first() {
                    Some(V::S(x)) => (self.named)(x),
                    _ => self.esc,
                };
                esc(&text)
            }
            n => match (self.filter)(n, &text, args) {
                Some(r) => r.map_err(Stop::Err)?,
                None => panic!("model: filter {n}"),
            },
        };
        Ok(V::S(text))
    }

    fn emit(&mut self, e: &E) -> R<()> {
        let v = self.eval(e)?;
        // A failing Display still writes the text before the failure.
        let (text, failed) = match v.text() {
            Ok(t) => (t, false),
            Err(t) => (t, true),
        };
        let wrapped = matches!(e, E::Filter(_, n, _) if n == "safe" || n == "escape" || n == "e");
        if !wrapped {
            self.out.push_str(&(self.esc)(&text));
        } else {
            self.out.push_str(&text);
        }
        if failed { Err(Stop::Err(text)) } else { Ok(()) }
    }

    fn visit(&mut self, n: &N) {
        let mut h = DefaultHasher::new();
        (n as *const N as usize).hash(&mut h);
        self.out.hash(&mut h);
        for l in &self.loops {
            (l.idx, l.last).hash(&mut h);
        }
        let mut sum = 0u64;
        for (d, s) in self.scopes.iter().enumerate() {
            for (k, v) in s {
                let mut g = DefaultHasher::new();
                (d, k, format!("{v:?}")).hash(&mut g);
                sum = sum.wrapping_add(g.finish());
            }
        }
        sum.hash(&mut h);
        for (k, v) in &self.fields {
            let mut g = DefaultHasher::new();
            (k, format!("{v:?}")).hash(&mut g);
            sum = sum.wrapping_add(g.finish());
        }
        sum.hash(&mut h);
        self.seen.insert(h.finish());
    }

    fn scoped<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.scopes.push(HashMap::new());
        let r = f(self);
        self.scopes.pop();
        r
    }

    fn run(&mut self, ns: &'a [N], ctx: &Ctx<'a>) -> R<()> {
        for n in ns {
            self.steps += 1;
            self.visit(n);
            match n {
                N::Text(x) | N::Raw(x, _, _) => self.out.push_str(x),
                N::Comment(..) | N::Macro(_) | N::Import(..) | N::Extends(_) => {}
                N::Expr(e, _) => self.emit(e)?,
                N::Let(p, None, _) => {
                    let P::Name(n) = p else { panic!() };
                    self.scopes.last_mut().unwrap().insert(n.clone(), None);
                }
                N::Let(P::Name(n), Some(e), _) => {
                    let v = self.eval(e)?;
                    // A declared but unassigned variable of an enclosing scope is initialised.
                    let decl = self.scopes.iter().rposition(|s| s.contains_key(n)).filter(|k| self.scopes[*k][n].is_none());
                    match decl {
                        Some(k) => {
                            self.scopes[k].insert(n.clone(), Some(v));
                        }
                        None => self.bind(n, v),
                    }
                }
                N::Let(p, Some(e), _) => {
                    let v = self.eval(e)?;
                    let mut b = vec![];
                    assert!(self.matches(p, &v, &mut b));
                    for (n, v) in b {
                        self.bind(&n, v);
                    }
                }
                N::If(br, _) => {
                    for (_, c, body) in br {
                        let mut b = vec![];
                        let hit = match c {
                            None => true,
                            Some(Cond::Expr(e)) => self.eval(e)?.truthy(),
                            Some(Cond::Let(p, e)) => {
                                let v = self.eval(e)?;
                                self.matches(p, &v, &mut b)
                            }
                        };
                        if hit {
                            self.scoped(|s| {
                                for (n, v) in b {
                                    s.bind(&n, v);
                                }
                                s.run(body, ctx)
                            })?;
                            break;
                        }
                    }
                }
                N::Match(_, e, _, arms, _) => {
                    let v = self.eval(e)?;
                    for (_, p, body) in arms {
                        let mut b = vec![];
                        if self.matches(p, &v, &mut b) {
                            self.scoped(|s| {
                                for (n, v) in b {
                                    s.bind(&n, v);
                                }
                                s.run(body, ctx)
                            })?;
                            break;
                        }
                    }
                }
                N::For(f) => self.run_for(f, ctx)?,
                N::Break(_) => return Err(Stop::Break),
                N::Continue(_) => return Err(Stop::Continue),
                N::Block(name, _, _, _) => self.run_block(name, 0, ctx)?,
                N::Super(_) => {
                    let (name, g) = self.cur_block.expect("model: super outside block");
                    self.run_block(name, g + 1, ctx)?
                }
                N::Call(scope, name, args, _) => {
                    let (file, def) = match scope {
                        None => *ctx.macros.get(name.as_str()).unwrap_or_else(|| panic!("model: no macro {name}")),
                        Some(s) => {
                            let f = ctx.imports.get(s.as_str()).unwrap_or_else(|| panic!("model: no import {s}"));
                            *self.ctx_of(f).macros.get(name.as_str()).unwrap_or_else(|| panic!("model: no macro {s}::{name}"))
                        }
                    };
                    let mctx = if scope.is_some() { self.ctx_of(file) } else { ctx.clone() };
                    let mut frame = HashMap::new();
                    assert_eq!(args.len(), def.params.len());
                    let mut vals: Vec<(usize, V)> = vec![];
                    for (k, (n, e)) in args.iter().enumerate() {
                        let v = self.eval(e)?;
                        let pos = match n {
                            Some(n) => def.params.iter().position(|p| p == n).expect("model: no such param"),
                            None => k,
                        };
                        vals.push((pos, v));
                    }
                    for (k, p) in def.params.iter().enumerate() {
                        let v = vals.iter().find(|(q, _)| *q == k).expect("model: missing arg").1.clone();
                        frame.insert(p.clone(), Some(v));
                    }
                    let saved = (std::mem::replace(&mut self.scopes, vec![frame]), self.cur_file);
                    self.cur_file = file;
                    let r = self.run(&def.body, &mctx);
                    (self.scopes, self.cur_file) = saved;
                    r?
                }
                N::Include(p, _) => {
                    let p = (self.resolve)(self.cur_file, p, self.files);
                    let f = self.key(&p);
                    let h = self.heritage_of(f);
                    let root = h.root;
                    let cctx = Self::merge(self.ctx_of(f), ctx);
                    let saved = (self.heritage.replace(h), self.cur_block.take(), self.cur_file);
                    self.cur_file = root;
                    // An including template's macros are visible; so are those of the included root.
                    let rctx = if root == f { cctx } else { self.ctx_of(root) };
                    let r = self.scoped(|s| {
                        let ns = s.nodes_of(root);
                        s.run(ns, &rctx)
                    });
                    (self.heritage, self.cur_block, self.cur_file) = saved;
                    r?
                }
                N::Filter(fs, _, body, _) => {
                    let saved = std::mem::take(&mut self.out);
                    let r = self.scoped(|s| s.run(body, ctx));
                    let text = std::mem::replace(&mut self.out, saved);
                    // A break or continue keeps what the block contains so far.
                    if !matches!(r, Ok(()) | Err(Stop::Break | Stop::Continue)) {
                        r?;
                        unreachable!()
                    }
                    let mut v = V::S(text);
                    for (n, args) in fs {
                        let mut av = vec![];
                        for a in args {
                            av.push(self.eval(a)?);
                        }
                        v = self.apply(n, &v, &av)?;
                    }
                    let text = v.text().map_err(Stop::Err)?;
                    let last = &fs.last().unwrap().0;
                    let wrapped = last == "safe" || last == "escape" || last == "e";
                    if !wrapped {
                        self.out.push_str(&(self.esc)(&text));
                    } else {
                        self.out.push_str(&text);
                    }
                    r?;
                }
            }
        }
        Ok(())
    }

    fn run_for(&mut self, f: &'a For, ctx: &Ctx<'a>) -> R<()> {
        let items = self.eval(&f.iter)?.items();
        let mut sel = vec![];
        // The condition is evaluated lazily, one item ahead of the body; without effects in the
        // condition this equals selecting first.
        for v in items {
            let mut b = vec![];
            assert!(self.matches(&f.var, &v, &mut b), "model: loop target");
            let keep = match &f.cond {
                None => true,
                Some(c) => self
                    .scoped(|s| {
                        for (n, v) in &b {
                            s.bind(n, v.clone());
                        }
                        s.eval(c)
                    })?
                    .truthy(),
            };
            if keep {
                sel.push(b);
            }
        }
        if sel.is_empty() {
            if let Some((_, els)) = &f.els {
                self.scoped(|s| s.run(els, ctx))?;
            }
            return Ok(());
        }
        let n = sel.len();
        for (k, b) in sel.into_iter().enumerate() {
            self.loops.push(LoopState { idx: k, last: k + 1 == n });
            let r = self.scoped(|s| {
                for (n, v) in b {
                    s.bind(&n, v);
                }
                s.run(&f.body, ctx)
            });
            self.loops.pop();
            match r {
                Err(Stop::Break) => break,
                Err(Stop::Continue) | Ok(()) => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }

    fn run_block(&mut self, name: &str, gen: usize, ctx: &Ctx<'a>) -> R<()> {
        let h = self.heritage.clone().unwrap();
        let (key, defs) = h.blocks.get_key_value(name).unwrap_or_else(|| panic!("model: no block {name}"));
        let (file, body) = *defs.get(gen).unwrap_or_else(|| panic!("model: no super for {name}"));
        let bctx = Self::merge(self.ctx_of(file), ctx);
        let saved_scopes = std::mem::replace(&mut self.scopes, vec![HashMap::new()]);
        let saved = (self.cur_block.replace((key, gen)), self.cur_file);
        self.cur_file = file;
        let start = self.out.len();
        let r = self.run(body, &bctx);
        (self.cur_block, self.cur_file) = saved;
        self.scopes = saved_scopes;
        if gen == 0 {
            let text = self.out.get(start..).unwrap_or("").to_string();
            self.block_text.push((name.to_string(), text));
        }
        r
    }

    /// Renders only block `name` of template `f`.
    pub fn render_block(&mut self, f: &str, name: &str) -> R<()> {
        let f = self.key(f);
        let h = self.heritage_of(f);
        self.cur_file = h.root;
        let ctx = self.ctx_of(h.root);
        self.heritage = Some(h);
        self.run_block(name, 0, &ctx)
    }
}

pub fn binop(op: &str, x: &V, y: &V) -> Option<V> {
    let i32ck = |v: i64| -> Option<V> {
        if i32::try_from(v).is_ok() {
            Some(V::I(v))
        } else {
            None
        }
    };
    Some(match (op, x, y) {
        ("==", a, b) => V::B(a == b),
        ("!=", a, b) => V::B(a != b),
        ("<", V::I(a), V::I(b)) => V::B(a < b),
        (">", V::I(a), V::I(b)) => V::B(a > b),
        ("<=", V::I(a), V::I(b)) => V::B(a <= b),
        (">=", V::I(a), V::I(b)) => V::B(a >= b),
        ("<", V::B(a), V::B(b)) => V::B(!a & b),
        (">", V::B(a), V::B(b)) => V::B(a & !b),
        ("<=", V::B(a), V::B(b)) => V::B(a <= b),
        (">=", V::B(a), V::B(b)) => V::B(a >= b),
        ("&&", V::B(a), V::B(b)) => V::B(*a && *b),
        ("||", V::B(a), V::B(b)) => V::B(*a || *b),
        ("|", V::B(a), V::B(b)) => V::B(a | b),
        ("^", V::B(a), V::B(b)) => V::B(a ^ b),
        ("&", V::B(a), V::B(b)) => V::B(a & b),
        ("|", V::I(a), V::I(b)) => V::I(a | b),
        ("^", V::I(a), V::I(b)) => V::I(a ^ b),
        ("&", V::I(a), V::I(b)) => V::I(a & b),
        ("<<", V::I(a), V::I(b)) => {
            if !(0..32).contains(b) {
                return None;
            }
            V::I(((*a as i32) << *b) as i64)
        }
        (">>", V::I(a), V::I(b)) => {
            if !(0..32).contains(b) {
                return None;
            }
            V::I(((*a as i32) >> *b) as i64)
        }
        ("+", V::I(a), V::I(b)) => i32ck(a + b)?,
        ("-", V::I(a), V::I(b)) => i32ck(a - b)?,
        ("*", V::I(a), V::I(b)) => i32ck(a * b)?,
        ("/", V::I(a), V::I(b)) => {
            if *b == 0 {
                return None;
            }
            i32ck(a / b)?
        }
        ("%", V::I(a), V::I(b)) => {
            if *b == 0 {
                return None;
            }
            i32ck(a % b)?
        }
        _ => panic!("model: {x:?} {op} {y:?}"),
    })
}
