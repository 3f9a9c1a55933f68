//! One part of a check: collects counts, samples and violations and writes them as JSON for run.py.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

pub fn thorough() -> bool {
    tier() == Tier::Thorough
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Result of one part. Counts are whatever the part measured on this run.
pub struct Part {
    pub out: PathBuf,
    pub counts: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, String>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub suppressed: u64,
    pub exhaustive: bool,
    pub start: Instant,
}

pub const MAX_VIOLATIONS: usize = 40;

impl Part {
    /// `--out FILE` names the JSON result.
    pub fn from_args() -> Part {
        let args: Vec<String> = std::env::args().collect();
        let i = args.iter().position(|a| a == "--out").expect("--out FILE");
        Part::new(PathBuf::from(&args[i + 1]))
    }

    pub fn new(out: PathBuf) -> Part {
        Part {
            out,
            counts: BTreeMap::new(),
            notes: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            suppressed: 0,
            exhaustive: true,
            start: Instant::now(),
        }
    }

    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }

    pub fn note(&mut self, k: &str, v: impl Into<String>) {
        self.notes.insert(k.to_string(), v.into());
    }

    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 12 {
            self.samples.push(s.into());
        }
    }

    /// Reports a violation. `key` identifies the failing input for the known-findings file.
    pub fn violation(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        if self.violations.len() < self.max() {
            self.violations.push((key.into(), detail.into()));
        } else {
            self.suppressed += 1;
        }
    }

    /// How many violations are reported.
    pub fn max(&self) -> usize {
        std::env::var("VK_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(MAX_VIOLATIONS)
    }

    pub fn full(&self) -> bool {
        self.violations.len() >= MAX_VIOLATIONS
    }

    pub fn finish(self) {
        let mut o = String::from("{\"counts\":{");
        let mut first = true;
        for (k, v) in &self.counts {
            if !first {
                o.push(',');
            }
            first = false;
            let _ = write!(o, "{}:{}", json_str(k), v);
        }
        o.push_str("},\"notes\":{");
        first = true;
        for (k, v) in &self.notes {
            if !first {
                o.push(',');
            }
            first = false;
            let _ = write!(o, "{}:{}", json_str(k), json_str(v));
        }
        o.push_str("},\"samples\":[");
        for (i, s) in self.samples.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&json_str(s));
        }
        o.push_str("],\"violations\":[");
        for (i, (k, d)) in self.violations.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"key\":{},\"detail\":{}}}", json_str(k), json_str(d));
        }
        let _ = write!(
            o,
            "],\"suppressed\":{},\"exhaustive\":{},\"wall_s\":{:.3}}}\n",
            self.suppressed,
            self.exhaustive,
            self.start.elapsed().as_secs_f64()
        );
        if let Some(p) = self.out.parent() {
            std::fs::create_dir_all(p).unwrap();
        }
        std::fs::write(&self.out, o).unwrap();
        eprintln!(
            "part {}: {} violations, {:?}, {:.1}s",
            self.out.display(),
            self.violations.len(),
            self.counts,
            self.start.elapsed().as_secs_f64()
        );
    }
}
