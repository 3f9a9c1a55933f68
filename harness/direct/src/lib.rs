//! Values that print themselves in every possible way.
use std::collections::BTreeMap;
use std::fmt::{self, Display, Write};
pub use vkit::iso::{catch, hook};
pub use vkit::part::{thorough, Part};
pub use vkit::pool;

/// How a piece reaches the formatter.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Str,
    /// write_char for pieces of one character, character by character for others.
    Char,
    /// Nested write! of two halves.
    Fmt,
    /// Empty writes around every piece.
    Empty,
}
pub const MODES: [Mode; 4] = [Mode::Str, Mode::Char, Mode::Fmt, Mode::Empty];

/// Prints `pieces` one after the other.
pub struct Pieces<'a> {
    pub pieces: &'a [&'a str],
    pub mode: Mode,
}

impl Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in self.pieces {
            match self.mode {
                Mode::Str => f.write_str(p)?,
                Mode::Char => {
                    for c in p.chars() {
                        f.write_char(c)?
                    }
                }
                Mode::Fmt => {
                    let m = p.char_indices().nth(p.chars().count() / 2).map_or(0, |x| x.0);
                    write!(f, "{}{:}", &p[..m], &p[m..])?
                }
                Mode::Empty => {
                    f.write_str("")?;
                    f.write_str(p)?;
                    f.write_str("")?
                }
            }
        }
        Ok(())
    }
}

/// Splits `s` after the characters whose bit is set in `mask`.
pub fn split<'a>(s: &'a str, mask: u32, out: &mut Vec<&'a str>) {
    out.clear();
    let mut a = 0;
    for (k, (i, c)) in s.char_indices().enumerate() {
        if mask >> k & 1 == 1 {
            out.push(&s[a..i + c.len_utf8()]);
            a = i + c.len_utf8();
        }
    }
    out.push(&s[a..]);
}

/// Digits of `i` in base `b`, `n` of them.
pub fn digits(mut i: usize, b: usize, n: usize) -> Vec<usize> {
    let mut v = vec![0; n];
    for d in v.iter_mut().rev() {
        *d = i % b;
        i /= b;
    }
    v
}

#[derive(Default)]
pub struct Log {
    pub counts: BTreeMap<&'static str, u64>,
    pub violations: Vec<(String, String)>,
    pub samples: Vec<String>,
}

impl Log {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        if self.violations.len() < 20 {
            self.violations.push((key.into(), detail.into()));
        }
    }
}

/// Runs `f` over blocks 0..n on all cores and merges the logs.
pub fn run(p: &mut Part, name: &str, n: usize, f: impl Fn(usize, &mut Log) + Sync) {
    let t = std::time::Instant::now();
    let block = (n / 512).max(1);
    let nb = n.div_ceil(block);
    let logs = pool::map(nb, |b| {
        let mut log = Log::default();
        for i in b * block..((b + 1) * block).min(n) {
            f(i, &mut log);
        }
        log
    });
    let mut viol: Vec<(String, String)> = vec![];
    let mut k = 0;
    for l in logs {
        for (c, v) in l.counts {
            p.add(c, v);
        }
        for s in l.samples {
            if k < 2 {
                p.sample(s);
                k += 1;
            }
        }
        viol.extend(l.violations);
    }
    viol.sort_by_key(|(k, _)| (k.len(), k.clone()));
    for (k, d) in viol {
        p.violation(k, d);
    }
    eprintln!("{name}: {n} items, {:.1}s", t.elapsed().as_secs_f64());
}
