//! Template files that refer to each other.
#![allow(dead_code)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    /// `extends`
    Ext,
    /// `import` without a call; with a call at the top, in the macro, in the block
    Imp,
    ImpTop,
    ImpMac,
    ImpBlk,
    /// `include` at the top, in the macro, in the block
    IncTop,
    IncMac,
    IncBlk,
    /// calls the own macro: at the top, in the macro
    OwnTop,
    OwnMac,
}
use K::*;
pub const KINDS: [K; 10] = [Ext, Imp, ImpTop, ImpMac, ImpBlk, IncTop, IncMac, IncBlk, OwnTop, OwnMac];

pub type Edge = (usize, K, usize);

#[derive(Clone)]
pub struct Graph {
    pub n: usize,
    pub edges: Vec<Edge>,
    /// How file names are spelled.
    pub style: usize,
}

#[derive(PartialEq, Debug)]
pub enum Want {
    Code,
    Error,
    Any,
}

impl Graph {
    pub fn from(&self, i: usize) -> impl Iterator<Item = &Edge> {
        self.edges.iter().filter(move |e| e.0 == i)
    }
    /// Directory and name.
    pub fn path(&self, i: usize) -> String {
        match self.style {
            0 => format!("f{i}.html"),
            1 => format!("d{}/f{i}.html", i % 2),
            2 => format!("d{i}/f.html"),
            // The order of the names is not the one of the edges.
            3 => format!("f{:03}.html", 999 - i),
            _ if i == 0 => "m.html".to_string(),
            _ => format!("{}{}.html", if i % 2 == 0 { "z" } else { "b" }, "a".repeat(i % 50) + &"0".repeat(i / 50)),
        }
    }
    pub fn link(&self, from: usize, to: usize) -> String {
        match self.style {
            0 | 3.. => self.path(to),
            1 if from % 2 == to % 2 => format!("f{to}.html"),
            _ => format!("../{}", self.path(to)),
        }
    }
    pub fn has_block(&self, i: usize) -> bool {
        self.edges.iter().any(|e| (e.0 == i && matches!(e.1, Ext | ImpBlk | IncBlk)) || (e.2 == i && e.1 == Ext))
    }
    pub fn text(&self, i: usize) -> String {
        let mut o = String::new();
        let (mut top, mut mac, mut blk) = (String::new(), String::new(), String::new());
        for (_, k, j) in self.from(i) {
            let l = self.link(i, *j);
            match k {
                Ext => {
                    o = format!("{{% extends \"{l}\" %}}{o}");
                    blk.push_str("{% call super() %}");
                }
                Imp | ImpTop | ImpMac | ImpBlk => {
                    let imp = format!("{{% import \"{l}\" as s{j} %}}");
                    if !o.contains(&imp) {
                        o.push_str(&imp);
                    }
                    let c = format!("{{% call s{j}::m() %}}");
                    match k {
                        ImpTop => top.push_str(&c),
                        ImpMac => mac.push_str(&c),
                        ImpBlk => blk.push_str(&c),
                        _ => {}
                    }
                }
                IncTop => top.push_str(&format!("{{% include \"{l}\" %}}")),
                IncMac => mac.push_str(&format!("{{% if true %}}{{% include \"{l}\" %}}{{% endif %}}")),
                IncBlk => blk.push_str(&format!("{{% for i in 0..2 %}}{{% include \"{l}\" %}}{{% endfor %}}")),
                OwnTop => top.push_str("{% call m() %}"),
                OwnMac => mac.push_str("{% call m() %}"),
            }
        }
        o.push_str(&format!("{{% macro m() %}}m{i}{mac}{{% endmacro %}}"));
        if self.has_block(i) {
            o.push_str(&format!("{{% block b %}}b{i}{blk}{{% endblock %}}"));
        }
        o.push_str(&format!("t{i}{top}"));
        o
    }

    pub fn want(&self) -> Want {
        // The chain of ancestors of the root.
        let mut chain = vec![0];
        loop {
            let l = *chain.last().unwrap();
            match self.from(l).find(|e| e.1 == Ext) {
                None => break,
                Some(e) if chain.contains(&e.2) => return Want::Error,
                Some(e) => chain.push(e.2),
            }
        }
        // Including or importing templates that extend others is not specified.
        let ext = |i: usize| self.has_block(i);
        if self.edges.iter().any(|e| matches!(e.1, IncTop | IncMac | IncBlk) && (ext(e.2) || self.has_block(e.2))) {
            return Want::Any;
        }
        if self.edges.iter().any(|e| matches!(e.1, Imp | ImpTop | ImpMac | ImpBlk) && self.from(e.2).any(|f| f.1 == Ext)) {
            return Want::Any;
        }
        // Expansion: (file, 0 = top, 1 = macro, 2 = block).
        let next = |(i, p): (usize, usize)| -> Vec<(usize, usize)> {
            let mut v = vec![];
            for e in self.from(i) {
                match (e.1, p) {
                    (ImpTop, 0) | (ImpMac, 1) | (ImpBlk, 2) => v.push((e.2, 1)),
                    (IncTop, 0) | (IncMac, 1) | (IncBlk, 2) => v.push((e.2, 0)),
                    (OwnTop, 0) | (OwnMac, 1) => v.push((i, 1)),
                    _ => {}
                }
            }
            v
        };
        let mut todo: Vec<(usize, usize)> = chain.iter().map(|c| (*c, 2)).collect();
        todo.extend(chain.iter().map(|c| (*c, 0)));
        let mut seen = vec![];
        while let Some(x) = todo.pop() {
            if !seen.contains(&x) {
                seen.push(x);
                todo.extend(next(x));
            }
        }
        // A cycle among what is expanded?
        for s in &seen {
            let mut todo = next(*s);
            let mut r = vec![];
            while let Some(x) = todo.pop() {
                if x == *s {
                    return Want::Any;
                }
                if !r.contains(&x) {
                    r.push(x);
                    todo.extend(next(x));
                }
            }
        }
        Want::Code
    }

    pub fn describe(&self) -> String {
        (0..self.n).map(|i| format!("<{}>{}", self.path(i), self.text(i))).collect::<Vec<_>>().join("")
    }
}

/// All sets of at most `k` edges over `n` files.
pub fn graphs(n: usize, k: usize) -> Vec<Vec<Edge>> {
    let mut all = vec![];
    for i in 0..n {
        for kind in KINDS {
            for j in 0..n {
                if !matches!(kind, OwnTop | OwnMac) || i == j {
                    all.push((i, kind, j));
                }
            }
        }
    }
    let mut r: Vec<Vec<Edge>> = vec![vec![]];
    let mut level: Vec<(usize, Vec<Edge>)> = vec![(0, vec![])];
    for _ in 0..k {
        let mut nl = vec![];
        for (from, v) in &level {
            for (x, e) in all.iter().enumerate().skip(*from) {
                // One extends per file.
                if e.1 == Ext && v.iter().any(|f| f.0 == e.0 && f.1 == Ext) {
                    continue;
                }
                let mut w = v.clone();
                w.push(*e);
                r.push(w.clone());
                nl.push((x + 1, w));
            }
        }
        level = nl;
    }
    // Only graphs whose edges can be reached from file 0.
    r.retain(|v| {
        let mut seen = vec![0];
        let mut k = 0;
        while k < seen.len() {
            for e in v {
                if e.0 == seen[k] && !seen.contains(&e.2) {
                    seen.push(e.2);
                }
            }
            k += 1;
        }
        v.iter().all(|e| seen.contains(&e.0)) && (0..n).all(|f| seen.contains(&f))
    });
    r
}

pub fn files_of(g: &Graph) -> Vec<(String, String)> {
    (0..g.n).map(|i| (g.path(i), g.text(i))).collect()
}

