//! Sets of template files that refer to each other, from every construct.

/// How a file refers to the next one.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Link {
    Ext,
    Imp,
    Inc,
}
use Link::*;

/// What is around a reference.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Holder {
    Plain,
    If,
    Else,
    ElseIf,
    IfLet,
    For,
    ForElse,
    When,
    WhenElse,
    Filter,
    Ws,
    /// In a macro that is called, and in a macro that another macro calls.
    Macro,
    Macros,
    Block,
    Blocks,
}
use Holder::*;
pub const HOLDERS: [Holder; 15] = [Plain, If, Else, ElseIf, IfLet, For, ForElse, When, WhenElse, Filter, Ws, Macro, Macros, Block, Blocks];

/// How the root is given.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Root {
    Path,
    Inline,
    PathBlock,
    InlineBlock,
}
pub const ROOTS: [Root; 4] = [Root::Path, Root::Inline, Root::PathBlock, Root::InlineBlock];

pub const FIELDS: &str = "b: bool, o: Option<i32>, v: Vec<i32>";

/// `@/` in texts and attributes stands for the directory of the set.
#[derive(Clone, Debug)]
pub struct Set {
    pub name: String,
    pub files: Vec<(String, String)>,
    pub attrs: String,
    /// The files that the template prints something of.
    pub uses: Vec<usize>,
}

fn hold(h: Holder, x: &str, defs: &mut String) -> String {
    match h {
        Plain => x.into(),
        If => format!("{{% if b %}}{x}{{% endif %}}"),
        Else => format!("{{% if b %}}a{{% else %}}{x}{{% endif %}}"),
        ElseIf => format!("{{% if b %}}a{{% else if !b %}}{x}{{% else %}}c{{% endif %}}"),
        IfLet => format!("{{% if let Some(k) = o %}}{x}{{% endif %}}"),
        For => format!("{{% for k in v %}}{x}{{% endfor %}}"),
        ForElse => format!("{{% for k in v %}}a{{% else %}}{x}{{% endfor %}}"),
        When => format!("{{% match o %}}{{% when Some with (k) %}}{x}{{% when None %}}c{{% endmatch %}}"),
        WhenElse => format!("{{% match o %}}{{% when None %}}a{{% else %}}{x}{{% endmatch %}}"),
        Filter => format!("{{% filter upper %}}{x}{{% endfilter %}}"),
        Ws => format!("{{%- if b -%}} {x} {{%- endif -%}}"),
        Macro => {
            defs.push_str(&format!("{{% macro p() %}}{x}{{% endmacro %}}"));
            "{% call p() %}".into()
        }
        Macros => {
            defs.push_str(&format!("{{% macro p() %}}{x}{{% endmacro %}}{{% macro q() %}}{{% call p() %}}{{% endmacro %}}"));
            "{% call q() %}".into()
        }
        Block => format!("{{% block i %}}{x}{{% endblock %}}"),
        Blocks => format!("{{% block i %}}{{% if b %}}{{% block j %}}{x}{{% endblock %}}{{% endif %}}{{% endblock %}}"),
    }
}

/// Where file number `i` lies and how the previous one calls it.
fn place(style: usize, i: usize) -> (String, String) {
    match style {
        0 => (format!("f{i}.html"), format!("f{i}.html")),
        1 => (format!("{}f{i}.html", "s/".repeat(i)), format!("s/f{i}.html")),
        2 => (format!("d{}/f{i}.html", i % 2), format!("../d{}/f{i}.html", i % 2)),
        // Named like the struct, in one directory after the other.
        3 => (format!("{}T.html", "s/".repeat(i)), "s/T.html".into()),
        _ => {
            let n = ["a b", "é", "q'x", "100%", "#x", "$x", "{y}", "z\u{1F600}"][i % 8];
            (format!("{n}{i}.html"), format!("./{n}{i}.html"))
        }
    }
}

/// One file per element of `links` plus the last one; `holders[i]` is around the reference of file i
/// (or around its text).
pub fn set(root: Root, links: &[Link], holders: &[Holder], style: usize) -> Option<Set> {
    let n = links.len() + 1;
    let blocked = matches!(root, Root::PathBlock | Root::InlineBlock);
    let inline = matches!(root, Root::Inline | Root::InlineBlock);
    let mut files = vec![];
    for i in 0..n {
        let by = if i == 0 { None } else { Some(links[i - 1]) };
        let next = links.get(i).copied();
        if next == Some(Ext) && matches!(by, Some(Imp | Inc)) {
            return None;
        }
        let h = holders[i];
        if matches!(h, Block | Blocks) && matches!(by, Some(Imp | Inc)) {
            return None;
        }
        let to = if inline && i == 0 { format!("@/{}", place(style, 1).0) } else { place(style, i + 1).1 };
        let (mut head, mut defs) = (String::new(), String::new());
        let inner = match next {
            Some(Inc) => format!("{{% include \"{to}\" %}}"),
            Some(Imp) => {
                head = format!("{{% import \"{to}\" as s %}}");
                "{% call s::m() %}".into()
            }
            _ => "t".into(),
        };
        let body = format!("m{i}{}", hold(h, &inner, &mut defs));
        let blk = format!("{{% block b %}}{body}{{% endblock %}}");
        let text = match (by, next) {
            (_, Some(Ext)) => format!("{{% extends \"{to}\" %}}{defs}{blk}"),
            (Some(Imp), _) => format!("{head}{defs}{{% macro m() %}}{body}{{% endmacro %}}"),
            (Some(Ext), _) => format!("{head}{defs}<{{% block b %}}{{% endblock %}}>{body}"),
            _ if i == 0 && blocked => format!("{head}{defs}u{blk}w"),
            _ => format!("{head}{defs}{body}"),
        };
        files.push((place(style, i).0, text));
    }
    let mut uses: Vec<usize> = (0..n).collect();
    // Of what a fragment's ancestors are, nothing has to be printed.
    if blocked {
        if let Some(k) = links.iter().position(|l| *l == Ext) {
            uses.truncate(k + 1);
        }
    }
    // A block that its heir replaces prints nothing.
    let mut attrs = if inline {
        uses.retain(|u| *u != 0);
        format!("source = {:?}, ext = \"html\"", files[0].1)
    } else {
        format!("path = {:?}", format!("@/{}", files[0].0))
    };
    if blocked {
        attrs.push_str(", block = \"b\"");
    }
    let name = format!("{root:?} {links:?} {:?} {style}", &holders[..n]);
    Some(Set { name, files, attrs, uses })
}

/// All sets of `n` links.
pub fn all(n: usize, styles: &[usize], holders: &[Holder]) -> Vec<Set> {
    let kinds = [Ext, Imp, Inc];
    let mut v = vec![];
    for l in 0..3usize.pow(n as u32) {
        let links: Vec<Link> = (0..n).map(|k| kinds[l / 3usize.pow(k as u32) % 3]).collect();
        let m = holders.len();
        for h in 0..m.pow(n as u32 + 1) {
            let hs: Vec<Holder> = (0..=n).map(|k| holders[h / m.pow(k as u32) % m]).collect();
            // Files at the end only hold text.
            if !matches!(hs[n], Plain | If) && n > 1 {
                continue;
            }
            for root in ROOTS {
                for s in styles {
                    v.extend(set(root, &links, &hs, *s));
                }
            }
        }
    }
    v
}

/// Long rows of files, each referring to the next one in the same way.
pub fn rows(lens: &[usize]) -> Vec<Set> {
    let mut v = vec![];
    for &n in lens {
        for link in [Ext, Imp, Inc] {
            for h in [Plain, Else, WhenElse, Macros] {
                for root in ROOTS {
                    let mut s = set(root, &vec![link; n], &vec![h; n + 1], 2).unwrap();
                    s.name = format!("{root:?} {n} x {link:?} {h:?}");
                    v.push(s);
                }
            }
        }
    }
    v
}
