//! Runs cases end to end: real derive, rustc, execution; compares with the expected text.
use crate::model::*;
use crate::part::Part;
use crate::pool;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Out(String),
    /// Rendering fails, and what was written is a prefix of this text.
    Err(String),
}

#[derive(Clone, Debug)]
pub struct Run {
    /// Field values as Rust expressions, in the order of `Case::fields`.
    pub init: Vec<String>,
    pub expect: Expect,
    pub trace: Option<Vec<i64>>,
    /// Expression of type Result<String, String> over `t` (default: Display of `t`).
    pub code: Option<String>,
}

#[derive(Clone, Debug)]
pub enum Root {
    /// Path below the case's own directory.
    Path(String),
    Source(String, String),
}

#[derive(Clone, Debug)]
pub struct Case {
    pub key: String,
    pub files: Vec<(String, String)>,
    pub root: Root,
    pub attrs: String,
    pub fields: Vec<(String, String)>,
    pub generics: String,
    pub prelude: String,
    pub config: Option<String>,
    pub runs: Vec<Run>,
    /// The text of a module of its own (`#D` is where the derive is written), and how to make the
    /// value of run time (`@0` is the first field's value).
    pub item: Option<(String, String)>,
}

impl Case {
    pub fn source(key: impl Into<String>, src: impl Into<String>, ext: &str) -> Case {
        Case {
            key: key.into(),
            files: vec![],
            root: Root::Source(src.into(), ext.into()),
            attrs: String::new(),
            fields: vec![],
            generics: String::new(),
            prelude: String::new(),
            config: None,
            runs: vec![],
            item: None,
        }
    }
    pub fn files(key: impl Into<String>, root: &str, files: Vec<(String, String)>) -> Case {
        Case { root: Root::Path(root.into()), files, ..Case::source(key, "", "") }
    }
    pub fn field(mut self, n: &str, ty: &str) -> Case {
        self.fields.push((n.into(), ty.into()));
        self
    }
    pub fn run(mut self, init: Vec<String>, expect: Expect) -> Case {
        self.runs.push(Run { init, expect, trace: None, code: None });
        self
    }
    pub fn out(self, expect: &str) -> Case {
        self.run(vec![], Expect::Out(expect.into()))
    }

    fn attr(&self, n: usize) -> String {
        let mut a = match &self.root {
            Root::Path(p) => format!("path = {:?}", format!("c{n}/{p}")),
            Root::Source(s, e) => format!("source = {}, ext = {e:?}", rust_str(s)),
        };
        if self.config.is_some() {
            if let Root::Path(p) = &self.root {
                a = format!("path = {p:?}");
            }
            a.push_str(&format!(", config = \"c{n}.toml\""));
        }
        a.push_str(&self.attrs.replace("@/", &format!("c{n}/")));
        a
    }

    /// Rust text of this case as module `cN`.
    pub fn rust(&self, n: usize) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "pub mod c{n} {{ use super::*; {}", self.prelude);
        let g = &self.generics;
        if let Some((text, make)) = &self.item {
            let d = format!("#[derive(::askama::Template)] #[template({})]", self.attr(n));
            let _ = writeln!(o, "pub mod inner {{ {} }}\npub fn run(s: &mut Sink) {{", text.replace("#D", &d));
            for r in &self.runs {
                let mut m = make.clone();
                for (k, v) in r.init.iter().enumerate() {
                    m = m.replace(&format!("@{k}"), v);
                }
                let _ = writeln!(o, "s.go(&{m});");
            }
            o.push_str("} }\n");
            return o;
        }
        let _ = writeln!(
            o,
            "#[derive(askama::Template)] #[template({})] pub struct T{g} {{ {} }}",
            self.attr(n),
            self.fields.iter().map(|(n, t)| format!("pub {n}: {t}")).collect::<Vec<_>>().join(", ")
        );
        o.push_str("pub fn run(s: &mut Sink) {\n");
        for r in &self.runs {
            let init = self.fields.iter().zip(&r.init).map(|((n, _), v)| format!("{n}: {v}")).collect::<Vec<_>>().join(", ");
            match &r.code {
                None => {
                    let _ = writeln!(o, "s.go(&T {{ {init} }});");
                }
                Some(c) => {
                    let _ = writeln!(o, "{{ let t = T {{ {init} }}; s.put(|| {c}); }}");
                }
            }
        }
        o.push_str("} }\n");
        o
    }

    pub fn describe(&self) -> String {
        let mut o = String::new();
        match &self.root {
            Root::Path(p) => {
                for (n, s) in &self.files {
                    let _ = writeln!(o, "file {n}{}: {s:?}", if n == p { " (template)" } else { "" });
                }
            }
            Root::Source(s, e) => {
                let _ = writeln!(o, "source: {s:?} ext: {e}");
                for (n, s) in &self.files {
                    let _ = writeln!(o, "file {n}: {s:?}");
                }
            }
        }
        if !self.attrs.is_empty() {
            let _ = writeln!(o, "attributes: {}", self.attrs);
        }
        if let Some(c) = &self.config {
            let _ = writeln!(o, "config: {c:?}");
        }
        if !self.fields.is_empty() {
            let _ = writeln!(o, "fields: {}", self.fields.iter().map(|(n, t)| format!("{n}: {t}")).collect::<Vec<_>>().join(", "));
        }
        o
    }
}

/// String literal the Rust compiler reads back exactly.
pub fn rust_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let _ = write!(o, "\\u{{{:x}}}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const ROOT: &str = r#"#![allow(warnings, arithmetic_overflow, unconditional_panic, overflowing_literals)]
use std::cell::RefCell;
use std::fmt::{self, Write as _};
thread_local!(static TR: RefCell<Vec<i64>> = RefCell::new(Vec::new()));
pub fn tr<A: std::borrow::Borrow<i32>>(i: A) -> i32 { let i = *i.borrow(); TR.with(|t| t.borrow_mut().push(i as i64)); i }
pub fn tb<A: std::borrow::Borrow<bool>>(i: i32, b: A) -> bool { TR.with(|t| t.borrow_mut().push(i as i64)); *b.borrow() }
/// An iterator that does not know its length.
pub fn evens(n: i32) -> impl Iterator<Item = i32> { (0..n).filter(|x| x % 2 == 0) }
/// Yields another number each time.
pub fn nx() -> i32 { TR.with(|t| { let mut t = t.borrow_mut(); t.push(-1); t.len() as i32 }) }
pub fn rnx() -> Result<i32, fmt::Error> { Ok(nx()) }
#[allow(unused)] macro_rules! nxm { ($($x:tt)*) => { crate::nx() } }
#[allow(unused)] pub(crate) use nxm;
/// Values of every kind of expression.
pub const MK: &str = "<m&>";
pub struct Ob2 { pub f: &'static str, pub t: (i32, &'static str) }
pub static OB: Ob2 = Ob2 { f: "<o'>", t: (1, "<t\">") };
pub fn mk() -> &'static str { MK }
pub fn okm() -> Result<String, fmt::Error> { Ok(MK.into()) }
#[allow(unused)] macro_rules! mkm { ($($x:tt)*) => { crate::mk() } }
#[allow(unused)] pub(crate) use mkm;
pub struct Bad(pub &'static str);
impl fmt::Display for Bad { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0)?; Err(fmt::Error) } }
/// Display in single characters.
#[derive(Clone, Copy)]
pub struct Chars(pub &'static str);
impl fmt::Display for Chars { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for c in self.0.chars() { f.write_char(c)?; } Ok(()) } }
/// Display in pieces of text and format arguments.
#[derive(Clone, Copy)]
pub struct Parts(pub &'static [&'static str]);
impl fmt::Display for Parts { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for (k, c) in self.0.iter().enumerate() { if k % 2 == 0 { f.write_str(c)?; } else { write!(f, "{}", c)?; } } Ok(()) } }
/// Escapers of test configurations.
pub struct Star;
impl askama_escape::Escaper for Star { fn write_escaped<W: fmt::Write>(&self, mut w: W, s: &str) -> fmt::Result { for c in s.chars() { match c { '<' => w.write_str("(*)")?, '&' => w.write_str("(+)")?, c => w.write_char(c)? } } Ok(()) } }
pub struct Dash;
impl askama_escape::Escaper for Dash { fn write_escaped<W: fmt::Write>(&self, mut w: W, s: &str) -> fmt::Result { w.write_str(&s.replace('<', "-").replace('-', "--")) } }
/// Every way to render a template.
pub trait Entry {
    fn sw(&self, k: usize) -> Result<String, Option<askama::Error>>;
    fn fw(&self, k: usize, w: &mut dyn fmt::Write) -> Result<(), Option<askama::Error>>;
    fn iw(&self, k: usize, w: &mut dyn std::io::Write) -> std::io::Result<()>;
    fn same(&self) -> bool;
}
pub const SW: usize = 5;
pub const FW: usize = 6;
pub const IW: usize = 5;
impl<T: askama::Template + 'static> Entry for T {
    fn sw(&self, k: usize) -> Result<String, Option<askama::Error>> {
        use askama::DynTemplate as D;
        let d: &dyn D = self;
        match k {
            0 => T::render(self).map_err(Some),
            1 => <&T as askama::Template>::render(&self).map_err(Some),
            2 => d.dyn_render().map_err(Some),
            3 => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.to_string())).map_err(|_| None),
            _ => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.to_string())).map_err(|_| None),
        }
    }
    fn fw(&self, k: usize, mut w: &mut dyn fmt::Write) -> Result<(), Option<askama::Error>> {
        use askama::DynTemplate as D;
        let d: &dyn D = self;
        match k {
            0 => T::render_into(self, w).map_err(Some),
            1 => <&T as askama::Template>::render_into(&self, w).map_err(Some),
            2 => d.dyn_render_into(w).map_err(Some),
            3 => write!(w, "{}", self).map_err(|_| None),
            4 => write!(w, "{}", d).map_err(|_| None),
            _ => T::render_into(self, &mut w).map_err(Some),
        }
    }
    fn iw(&self, k: usize, mut w: &mut dyn std::io::Write) -> std::io::Result<()> {
        use askama::DynTemplate as D;
        let d: &dyn D = self;
        match k {
            0 => T::write_into(self, w),
            1 => <&T as askama::Template>::write_into(&self, w),
            2 => d.dyn_write_into(w),
            3 => write!(w, "{}", self),
            _ => T::write_into(self, &mut w),
        }
    }
    fn same(&self) -> bool {
        use askama::DynTemplate as D;
        let d: &dyn D = self;
        d.extension() == T::EXTENSION && d.mime_type() == T::MIME_TYPE && d.size_hint() == T::SIZE_HINT
            && <&T as askama::Template>::EXTENSION == T::EXTENSION && <&T as askama::Template>::MIME_TYPE == T::MIME_TYPE && <&T as askama::Template>::SIZE_HINT == T::SIZE_HINT
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Boom(pub i32);
impl fmt::Display for Boom { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "boom {}", self.0) } }
impl std::error::Error for Boom {}
/// Display that fails after its text, or not.
#[derive(Clone, Copy)]
pub struct MB(pub &'static str, pub bool);
impl fmt::Display for MB { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0)?; if self.1 { Err(fmt::Error) } else { Ok(()) } } }
fn cause(e: &askama::Error) -> String {
    match e {
        askama::Error::Fmt(_) => "fmt".into(),
        askama::Error::Json(_) => "json".into(),
        askama::Error::Custom(c) => match c.downcast_ref::<Boom>() {
            Some(b) => {
                // The cause is found by its source, too, and is told.
                let mut s = std::error::Error::source(e);
                while let Some(x) = s { if x.is::<Boom>() { break; } s = x.source(); }
                format!("boom {}{}{}", b.0, if s.is_some() { "" } else { ", which source() does not lead to" }, if e.to_string().contains(&b.to_string()) { "" } else { ", which is not told" })
            }
            None => format!("custom {c}"),
        },
        e => format!("{e:?}"),
    }
}
/// Fails at a write or at a byte.
struct FSink { out: String, writes: usize, at: usize, byte: usize }
impl fmt::Write for FSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.writes;
        self.writes += 1;
        if n == self.at { return Err(fmt::Error); }
        if self.out.len() + s.len() > self.byte {
            let mut k = self.byte.saturating_sub(self.out.len());
            while !s.is_char_boundary(k) { k -= 1; }
            self.out.push_str(&s[..k]);
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}
/// kind: 0 all at once, 1 single bytes, 2 every other call is interrupted; stop: 0 error, 1 accepts nothing; once: the failure passes.
struct ISink { out: Vec<u8>, calls: usize, kind: usize, byte: usize, stop: usize, once: bool, stopped: bool }
impl std::io::Write for ISink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        if self.kind == 2 && self.calls % 2 == 1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let mut n = if self.kind == 1 { 1 } else { b.len() };
        if !(self.once && self.stopped) {
            n = n.min(self.byte.saturating_sub(self.out.len()));
            if n == 0 { self.stopped = true; return if self.stop == 0 { Err(std::io::ErrorKind::BrokenPipe.into()) } else { Ok(0) }; }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// Renders in every way into every failing sink. Like `Sink::go`, or the text of what is wrong.
pub fn probe(t: &dyn Entry, want: &str) -> Result<String, String> {
    let mut n = 0;
    let r = probe_all(t, want, &mut n);
    TR.with(|t| *t.borrow_mut() = vec![n]);
    match r { Ok(r) => r, Err(x) => Ok(format!("PROBE: {x}")) }
}
fn probe_all(t: &dyn Entry, want: &str, n: &mut i64) -> Result<Result<String, String>, String> {
    let base = t.sw(0);
    if !t.same() { return Err("the constants differ".into()); }
    let check = |what: &str, e: &Option<askama::Error>| match e {
        Some(e) if !want.is_empty() && cause(e) != want => Err(format!("{what}: the error is {:?} instead of {want:?}", cause(e))),
        _ => Ok(()),
    };
    for k in 0..SW {
        *n += 1;
        match (&base, &t.sw(k)) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(e)) => check(&format!("text {k}"), e)?,
            (a, b) => return Err(format!("text {k}: {b:?} instead of {a:?}")),
        }
    }
    const NO: usize = usize::MAX;
    let mut full = base.as_ref().map(|x| x.clone()).unwrap_or_default();
    let mut parts = vec![];
    let mut counts = vec![];
    for k in 0..FW {
        *n += 1;
        let mut s = FSink { out: String::new(), writes: 0, at: NO, byte: NO };
        let r = t.fw(k, &mut s);
        match (&base, &r) {
            (Ok(a), Ok(())) if *a == s.out => {}
            (Err(_), Err(e)) => check(&format!("fmt {k}"), e)?,
            _ => return Err(format!("fmt {k}: {r:?} {:?} instead of {base:?}", s.out)),
        }
        counts.push(s.writes);
        parts.push(s.out);
    }
    // Formatting something that fails for a writer that does not is a panic of the standard library.
    let std_only = |k: usize| k == 3 && base.is_err();
    for k in (0..IW).filter(|k| !std_only(*k)) {
        for kind in 0..3 {
            *n += 1;
            let mut s = ISink { out: vec![], calls: 0, kind, byte: NO, stop: 0, once: false, stopped: false };
            let r = t.iw(k, &mut s);
            let out = String::from_utf8(s.out).map_err(|e| format!("io {k} {kind}: {e:?}"))?;
            match (&base, &r) {
                (Ok(a), Ok(())) if *a == out => {}
                (Err(_), Err(_)) => {}
                _ => return Err(format!("io {k} {kind}: {r:?} {out:?} instead of {base:?}")),
            }
            parts.push(out);
        }
    }
    for p in &parts {
        if base.is_err() && p.len() > full.len() { full = p.clone(); }
    }
    if let Some(p) = parts.iter().find(|p| !full.starts_with(p.as_str())) { return Err(format!("{p:?} is not the start of {full:?}")); }
    let pre = |what: String, bad: bool, out: &[u8]| {
        if !bad { return Err(format!("{what}: the failure of the sink is lost, with {:?} written", String::from_utf8_lossy(out))); }
        if !full.as_bytes().starts_with(out) { return Err(format!("{what}: {:?} was written, not the start of {full:?}", String::from_utf8_lossy(out))); }
        Ok(())
    };
    for k in 0..FW {
        for at in 0..counts[k] {
            *n += 1;
            let mut s = FSink { out: String::new(), writes: 0, at, byte: NO };
            let r = t.fw(k, &mut s);
            pre(format!("fmt {k}, write {at} fails"), r.is_err(), s.out.as_bytes())?;
        }
        for byte in 0..full.len() {
            *n += 1;
            let mut s = FSink { out: String::new(), writes: 0, at: NO, byte };
            let r = t.fw(k, &mut s);
            pre(format!("fmt {k}, byte {byte} fails"), r.is_err(), s.out.as_bytes())?;
        }
    }
    for k in (0..IW).filter(|k| !std_only(*k)) {
        for byte in 0..full.len() {
            for (kind, stop, once) in [(0, 0, false), (0, 1, false), (0, 0, true), (1, 0, false), (1, 1, true), (2, 0, true)] {
                *n += 1;
                let mut s = ISink { out: vec![], calls: 0, kind, byte, stop, once, stopped: false };
                let r = t.iw(k, &mut s);
                pre(format!("io {k}, byte {byte} fails ({kind} {stop} {once})"), r.is_err(), &s.out)?;
            }
        }
    }
    Ok(match base { Ok(x) => Ok(x), Err(_) => Err(full) })
}
pub struct Sink { case: usize, run: usize, out: std::io::Stdout }
impl Sink {
    pub fn put(&mut self, f: impl FnOnce() -> Result<String, String>) {
        use std::io::Write;
        TR.with(|t| t.borrow_mut().clear());
        let _ = writeln!(self.out, "S {} {}", self.case, self.run);
        let _ = self.out.flush();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let (k, x) = match r { Ok(Ok(x)) => ("O", x), Ok(Err(x)) => ("E", x), Err(_) => ("P", String::new()) };
        let mut h = String::with_capacity(x.len() + 2);
        for c in x.chars() { match c { '\\' => h.push_str("\\\\"), '\n' => h.push_str("\\n"), '\r' => h.push_str("\\r"), c => h.push(c) } }
        let tr = TR.with(|t| t.borrow().iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        let _ = writeln!(self.out, "R {} {} {} [{}] {}", self.case, self.run, k, tr, h);
        self.run += 1;
    }
    pub fn go(&mut self, t: &dyn fmt::Display) {
        self.put(|| { let mut s = String::new(); match write!(s, "{}", t) { Ok(()) => Ok(s), Err(_) => Err(s) } });
    }
}
"#;

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Out(String, Vec<i64>),
    Err(String, Vec<i64>),
    Panic,
    /// Compile error, crash or timeout.
    Fail(String),
}

struct Ctx {
    dir: PathBuf,
    rlib: String,
    escape: String,
    deps: String,
    deadline: Instant,
}

static EDITION: std::sync::Mutex<&str> = std::sync::Mutex::new("2021");

/// The Rust edition of the programs that are built from now on.
pub fn set_edition(e: &'static str) {
    *EDITION.lock().unwrap() = e;
}

static LINTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Are lints that a case asks for in force from now on?
pub fn set_lints(on: bool) {
    LINTS.store(on, std::sync::atomic::Ordering::SeqCst);
}

fn edition() -> String {
    EDITION.lock().unwrap().to_string()
}

fn rustc() -> String {
    std::env::var("VK_RUSTC").unwrap_or_else(|_| "rustc".into())
}

/// Runs a command with a time and memory limit, its output going to files in `dir`.
fn limited(cmd: &str, args: &[String], envs: &[(&str, &str)], dir: &Path, tag: &str, limit: Duration) -> (Option<i32>, String, String) {
    let so = dir.join(format!("{tag}.stdout"));
    let se = dir.join(format!("{tag}.stderr"));
    let mut c = Command::new("bash");
    c.arg("-c").arg("ulimit -c 0; ulimit -v 8000000; exec timeout -s KILL \"$0\" \"$@\"").arg(format!("{}", limit.as_secs().max(1))).arg(cmd).args(args);
    for (k, v) in envs {
        c.env(k, v);
    }
    c.stdin(Stdio::null());
    c.stdout(std::fs::File::create(&so).unwrap());
    c.stderr(std::fs::File::create(&se).unwrap());
    let st = c.status().expect("spawn");
    let read = |p: &Path| {
        let mut b = vec![];
        let _ = std::fs::File::open(p).and_then(|f| f.take(64 << 20).read_to_end(&mut b));
        String::from_utf8_lossy(&b).into_owned()
    };
    (st.code(), read(&so), read(&se))
}

impl Ctx {
    /// Compiles and runs the cases `idx`; records what each run produced.
    fn batch(&self, cases: &[Case], idx: &[usize], name: &str, hangs: u32, got: &mut Vec<Option<Vec<Got>>>) {
        let dir = self.dir.join(name);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("templates")).unwrap();
        for &k in idx {
            let c = &cases[k];
            for (n, s) in &c.files {
                let p = match &c.config {
                    // With its own configuration the case lays out the directory `cN` itself.
                    Some(_) => dir.join(format!("c{k}")).join(n),
                    None => dir.join("templates").join(format!("c{k}")).join(n),
                };
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, s.replace("@/", &format!("c{k}/"))).unwrap();
            }
            if let Some(t) = &c.config {
                std::fs::write(dir.join(format!("c{k}.toml")), t.replace("@/", &format!("c{k}/"))).unwrap();
            }
        }
        let mut live: Vec<usize> = idx.to_vec();
        for _round in 0..12 {
            if live.is_empty() {
                return;
            }
            let mut src = String::from(ROOT);
            let mut starts = vec![];
            for &k in &live {
                starts.push(src.matches('\n').count() + 1);
                src.push_str(&cases[k].rust(k));
            }
            src.push_str("fn main() { std::panic::set_hook(Box::new(|_| {})); let from: usize = std::env::args().nth(1).map(|x| x.parse().unwrap()).unwrap_or(0);\nlet fs: &[(usize, fn(&mut Sink))] = &[");
            for &k in &live {
                let _ = write!(src, "({k}, c{k}::run), ");
            }
            src.push_str("];\nfor (k, f) in fs { if *k >= from { f(&mut Sink { case: *k, run: 0, out: std::io::stdout() }); } }\n}\n");
            let main = dir.join("main.rs");
            std::fs::write(&main, &src).unwrap();
            let bin = dir.join("main.bin");
            let d = dir.to_str().unwrap();
            let args: Vec<String> = [
                "--edition", &edition(), "-C", "debuginfo=0", "-C", "codegen-units=4", "--error-format=json", "--cap-lints", if LINTS.load(std::sync::atomic::Ordering::SeqCst) { "forbid" } else { "allow" }, "--extern",
                &format!("askama={}", self.rlib), "--extern", &format!("askama_escape={}", self.escape), "-L", &format!("dependency={}", self.deps), main.to_str().unwrap(), "-o", bin.to_str().unwrap(),
            ]
            .iter()
            .map(|x| x.to_string())
            .collect();
            // Far above what a batch takes. What did not end gets less time when it is split.
            let full = Duration::from_secs(if hangs == 0 { 150 } else { 50 });
            let limit = full.min(self.deadline.saturating_duration_since(Instant::now()));
            let (rc, _, err) = limited(&rustc(), &args, &[("CARGO_MANIFEST_DIR", d)], &dir, "rustc", limit);
            if rc == Some(0) {
                self.execute(&bin, &dir, &live, got);
                break;
            }
            // Which cases do the errors belong to?
            let mut bad: BTreeSet<usize> = BTreeSet::new();
            let mut msgs: std::collections::BTreeMap<usize, String> = Default::default();
            for line in err.lines().filter(|l| l.contains("\"level\":\"error\"")) {
                let ls = lines_of(line);
                for l in ls {
                    let p = starts.partition_point(|s| *s <= l);
                    if p > 0 && l < starts[p - 1] + cases[live[p - 1]].rust(live[p - 1]).matches('\n').count() {
                        let k = live[p - 1];
                        bad.insert(k);
                        let m = msgs.entry(k).or_default();
                        if m.len() < 3000 {
                            m.push_str(&rendered(line));
                        }
                    }
                }
            }
            if rc == Some(1) && !bad.is_empty() {
                for k in &bad {
                    got[*k] = Some(vec![Got::Fail(format!("does not compile:\n{}", msgs[k]))]);
                }
                live.retain(|k| !bad.contains(k));
                continue;
            }
            // Crash, timeout or an error without a place: bisect.
            let killed = matches!(rc, Some(137) | None);
            let why = match rc {
                _ if killed => format!("rustc was killed after {limit:?} or crashed"),
                rc => format!("rustc ended with {rc:?}: {}", err.chars().take(2000).collect::<String>()),
            };
            if Instant::now() > self.deadline {
                // There is no time to find out which case it is, or whether it is one at all.
                if hangs > 0 || !killed {
                    for k in &live {
                        got[*k] = Some(vec![Got::Fail(format!("(not isolated, batch {name} of {} cases) {why}", live.len()))]);
                    }
                }
                return;
            }
            if live.len() == 1 {
                got[live[0]] = Some(vec![Got::Fail(why)]);
                return;
            }
            let (a, b) = live.split_at(live.len() / 2);
            self.batch(cases, a, &format!("{name}a"), hangs + killed as u32, got);
            self.batch(cases, b, &format!("{name}b"), hangs + killed as u32, got);
            return;
        }
        let _ = std::fs::remove_dir_all(&dir);
    }

    fn execute(&self, bin: &Path, dir: &Path, live: &[usize], got: &mut Vec<Option<Vec<Got>>>) {
        let mut from = 0usize;
        for &k in live {
            got[k] = Some(vec![]);
        }
        for _ in 0..20 {
            let (rc, so, _) = limited(bin.to_str().unwrap(), &[from.to_string()], &[], dir, "run", Duration::from_secs(100));
            let mut last = None;
            for l in so.lines() {
                let mut w = l.splitn(3, ' ');
                match w.next() {
                    Some("S") => last = w.next().and_then(|x| x.parse::<usize>().ok()),
                    Some("R") => {
                        let k: usize = w.next().unwrap().parse().unwrap();
                        let rest = w.next().unwrap();
                        let mut w = rest.splitn(4, ' ');
                        let _run = w.next();
                        let kind = w.next().unwrap();
                        let tr = w.next().unwrap();
                        let text = unhex(w.next().unwrap_or(""));
                        let tr: Vec<i64> = tr.trim_matches(['[', ']']).split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                        got[k].as_mut().unwrap().push(match kind {
                            "O" => Got::Out(text, tr),
                            "E" => Got::Err(text, tr),
                            _ => Got::Panic,
                        });
                    }
                    _ => {}
                }
            }
            if rc == Some(0) {
                return;
            }
            let Some(l) = last else { return };
            got[l].as_mut().unwrap().push(Got::Fail(format!("the rendering program crashed or was killed ({rc:?})")));
            from = l + 1;
        }
    }
}

fn unhex(x: &str) -> String {
    let mut o = String::new();
    let mut it = x.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Lines of main.rs the spans of a diagnostic start at.
fn lines_of(j: &str) -> Vec<usize> {
    let mut v = vec![];
    let a = j.find("\"spans\":").unwrap_or(0);
    let b = j.find("\"children\":").unwrap_or(j.len()).max(a);
    let mut rest = &j[a..b];
    while let Some(p) = rest.find("\"line_start\":") {
        let here = match rest[..p].rfind("\"file_name\":\"") {
            Some(q) => rest[q + 13..p].split('"').next().unwrap_or("").ends_with("main.rs"),
            None => false,
        };
        rest = &rest[p + 13..];
        let n: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let (true, Ok(n)) = (here, n.parse()) {
            v.push(n);
        }
    }
    v
}

fn rendered(j: &str) -> String {
    match j.rfind("\"rendered\":\"") {
        Some(p) => {
            let r = &j[p + 12..];
            let mut o = String::new();
            let mut it = r.chars();
            while let Some(c) = it.next() {
                match c {
                    '"' => break,
                    '\\' => match it.next() {
                        Some('n') => o.push('\n'),
                        Some(c) => o.push(c),
                        None => {}
                    },
                    c => o.push(c),
                }
            }
            o
        }
        None => j.chars().take(500).collect(),
    }
}

/// When this part has to come to an end.
fn deadline() -> Instant {
    let left = std::env::var("VK_DEADLINE").ok().and_then(|x| x.parse::<f64>().ok()).map(|d| {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs_f64();
        (d - now).max(0.0)
    });
    Instant::now() + Duration::from_secs_f64(left.unwrap_or(if crate::part::thorough() { 20_000.0 } else { 700.0 }))
}

fn failures(c: &Case, got: &[Got]) -> bool {
    matches!(got.first(), Some(Got::Fail(_))) || c.runs.iter().enumerate().any(|(j, r)| judge(r, got.get(j)).is_err())
}

/// The files that a crate with this text depends on, as rustc tells Cargo. The directory is the root
/// of the package.
pub fn dep_info(dir: &Path, src: &str) -> Result<BTreeSet<PathBuf>, String> {
    let get = |n: &str| std::env::var(n).unwrap_or_else(|_| panic!("{n}"));
    let main = dir.join("main.rs");
    std::fs::write(&main, src).unwrap();
    let args: Vec<String> = [
        "--edition", "2021", "--crate-type", "lib", "--emit=dep-info", "--cap-lints", "allow", "--extern", &format!("askama={}", get("VK_ASKAMA_RLIB")),
        "-L", &format!("dependency={}", get("VK_DEPS")), main.to_str().unwrap(), "--out-dir", dir.to_str().unwrap(),
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    let limit = Duration::from_secs(150).min(deadline().saturating_duration_since(Instant::now()));
    let (rc, _, err) = limited(&rustc(), &args, &[("CARGO_MANIFEST_DIR", dir.to_str().unwrap())], dir, "rustc", limit);
    if rc != Some(0) {
        return Err(format!("rustc ended with {rc:?}: {}", err.chars().take(3000).collect::<String>()));
    }
    let d = std::fs::read_to_string(dir.join("main.d")).map_err(|e| e.to_string())?;
    let mut v = BTreeSet::new();
    for l in d.lines() {
        let Some((_, deps)) = l.split_once(": ") else { continue };
        // Spaces in names are escaped.
        for f in deps.replace("\\ ", "\0").split(' ').filter(|x| !x.is_empty()) {
            if let Ok(p) = dir.join(f.replace('\0', " ")).canonicalize() {
                v.insert(p);
            }
        }
    }
    Ok(v)
}

/// Compiles and runs all cases; returns what each run produced. Ends early when there is
/// nothing to gain: enough cases failed, or the time is over. Cases that were left out are `None`.
fn execute(name: &str, cases: &[Case], per_batch: usize, enough: usize) -> Vec<Option<Vec<Got>>> {
    let out = std::env::var("VK_OUT").unwrap_or_else(|_| "/verif/out".into());
    let ctx = Ctx {
        dir: PathBuf::from(out).join("e2e").join(name),
        rlib: std::env::var("VK_ASKAMA_RLIB").expect("VK_ASKAMA_RLIB"),
        escape: std::env::var("VK_ESCAPE_RLIB").expect("VK_ESCAPE_RLIB"),
        deps: std::env::var("VK_DEPS").expect("VK_DEPS"),
        deadline: deadline(),
    };
    let _ = std::fs::remove_dir_all(&ctx.dir);
    std::fs::create_dir_all(&ctx.dir).unwrap();
    let nb = cases.len().div_ceil(per_batch.max(1));
    // Interleaved, so that batches take about the same time.
    let parts: Vec<Vec<usize>> = (0..nb).map(|b| (b..cases.len()).step_by(nb).collect()).collect();
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let res = pool::map(nb, |b| {
        if bad.load(std::sync::atomic::Ordering::SeqCst) >= enough || Instant::now() > ctx.deadline {
            return vec![];
        }
        let mut got: Vec<Option<Vec<Got>>> = vec![None; cases.len()];
        ctx.batch(cases, &parts[b], &format!("b{b}"), 0, &mut got);
        let got: Vec<_> = parts[b].iter().filter_map(|k| Some((*k, got[*k].take()?))).collect();
        bad.fetch_add(got.iter().filter(|(k, g)| failures(&cases[*k], g)).count(), std::sync::atomic::Ordering::SeqCst);
        got
    });
    let _ = std::fs::remove_dir_all(&ctx.dir);
    let mut all = vec![None; cases.len()];
    for (k, g) in res.into_iter().flatten() {
        all[k] = Some(g);
    }
    all
}

fn judge(r: &Run, g: Option<&Got>) -> Result<(), String> {
    let want_tr = |t: &Vec<i64>| match &r.trace {
        Some(w) if w != t => Err(format!("evaluated {t:?} instead of {w:?}")),
        _ => Ok(()),
    };
    match (g, &r.expect) {
        (Some(Got::Out(x, t)), Expect::Out(w)) if x == w => want_tr(t),
        (Some(Got::Err(x, t)), Expect::Err(w)) if w.starts_with(x.as_str()) => want_tr(t),
        (Some(g), w) => Err(format!("expected {w:?}\n     got {}", match g {
            Got::Out(x, _) => format!("Out({x:?})"),
            Got::Err(x, _) => format!("Err({x:?})"),
            Got::Panic => "a panic".into(),
            Got::Fail(x) => x.clone(),
        })),
        (None, _) => Err("no result".into()),
    }
}

/// Compiles, runs and judges all cases, adding counts and violations to the part.
pub fn check(p: &mut Part, name: &str, cases: &[Case], per_batch: usize) {
    let t0 = Instant::now();
    let nb = cases.len().div_ceil(per_batch.max(1)).max(1);
    // Fill all cores even when there are few cases.
    let per = per_batch.min(cases.len().div_ceil(pool::cores()).max(1));
    let enough = p.max().saturating_sub(p.violations.len());
    let res = execute(name, cases, per, enough);
    let mut outs = BTreeSet::new();
    let mut skipped = 0;
    for (k, (c, got)) in cases.iter().zip(&res).enumerate() {
        let Some(got) = got else {
            skipped += 1;
            continue;
        };
        if let Some(Got::Fail(m)) = got.first() {
            p.violation(c.key.clone(), format!("{}{m}\nRust:\n{}", c.describe(), c.rust(k)));
            continue;
        }
        for (j, r) in c.runs.iter().enumerate() {
            p.add("traces", 1);
            if let (true, Some(Got::Out(_, t) | Got::Err(_, t))) = (r.code.as_ref().is_some_and(|c| c.contains("crate::probe(")), got.get(j)) {
                p.add("sink_runs", t.iter().sum::<i64>() as u64);
            }
            if let Some(Got::Out(x, _)) = got.get(j) {
                outs.insert(x.clone());
            }
            if let Err(m) = judge(r, got.get(j)) {
                let vals = c.fields.iter().zip(&r.init).map(|((n, _), v)| format!("{n}={v}")).collect::<Vec<_>>().join(" ");
                p.violation(format!("{} #{j}", c.key), format!("{}values: {vals}\n{m}\n", c.describe()));
                break;
            }
        }
    }
    if skipped > 0 {
        p.exhaustive = false;
        p.note(&format!("{name}: left out"), format!("{skipped} of {} templates", cases.len()));
    }
    p.add("templates", cases.len() as u64 - skipped);
    p.add("distinct_outputs", outs.len() as u64);
    if let Some(c) = cases.get(cases.len() / 2) {
        p.sample(format!("{} -> {:?}", c.describe().trim(), c.runs.last().map(|r| &r.expect)));
    }
    eprintln!("e2e {name}: {} cases, {nb} batches, {:.1}s", cases.len(), t0.elapsed().as_secs_f64());
}

// ---------------------------------------------------------------- cases from the model

/// A model template set with everything needed to run it for real.
#[derive(Clone)]
pub struct Model {
    pub files: Files,
    pub root: String,
    pub style: Style,
    pub ws: W,
    pub fields: Vec<(String, String)>,
    pub attrs: String,
    pub prelude: String,
    pub trace: bool,
    pub html: bool,
    /// Escaper and named escapers, if configured.
    pub esc: Option<Escaper>,
    pub named: Option<fn(&str) -> Escaper>,
    pub config: Option<String>,
    /// A single file is read from the disk instead of being an inline source.
    pub on_disk: bool,
    pub resolve: Option<fn(&str, &str, &Files) -> String>,
    /// The `path` attribute, if it is not the name of the root file.
    pub path: Option<String>,
}

impl Model {
    /// A single inline template. `ext` is html or txt.
    pub fn inline(nodes: Vec<N>, html: bool) -> Model {
        let mut f = Files::default();
        f.0.insert(if html { "t.html".into() } else { "t.txt".into() }, nodes);
        Model {
            root: f.0.keys().next().unwrap().clone(),
            files: f,
            style: Style::default(),
            ws: W::Preserve,
            fields: vec![],
            attrs: String::new(),
            prelude: String::new(),
            trace: false,
            html,
            esc: None,
            named: None,
            config: None,
            on_disk: false,
            resolve: None,
            path: None,
        }
    }
    pub fn files(root: &str, files: Vec<(&str, Vec<N>)>) -> Model {
        let html = root.ends_with(".html");
        Model {
            root: root.into(),
            files: Files(files.into_iter().map(|(n, x)| (n.to_string(), x)).collect()),
            ..Model::inline(vec![], html)
        }
    }
    pub fn field(mut self, n: &str, ty: &str) -> Model {
        self.fields.push((n.into(), ty.into()));
        self
    }
    /// The same single inline template with another extension.
    pub fn rooted(mut self, ext: &str) -> Model {
        let ns = self.files.0.remove(&self.root).unwrap();
        self.root = format!("t.{ext}");
        self.files.0.insert(self.root.clone(), ns);
        self
    }
    pub fn text(&self) -> String {
        self.style.nodes(&self.files.0[&self.root])
    }

    /// Drops one trailing newline of a file and resolves whitespace control.
    fn resolved(&self, inline: bool) -> Files {
        Files(
            self.files
                .0
                .iter()
                .map(|(n, x)| {
                    let mut x = x.clone();
                    if !inline {
                        if let Some(N::Text(t)) = x.last_mut() {
                            if t.ends_with('\n') {
                                t.pop();
                            }
                            if t.is_empty() {
                                x.pop();
                            }
                        }
                    }
                    (n.clone(), resolve_ws(&x, self.ws))
                })
                .collect(),
        )
    }

    /// Builds the case: runs the model for each input. Returns the number of model steps too.
    pub fn case(&self, key: &str, inputs: &[Vec<V>]) -> (Case, u64, u64) {
        let inline = self.files.0.len() == 1 && !self.on_disk;
        let files = self.resolved(inline);
        let mut c = if inline {
            let ext = self.root.split_once('.').map(|x| x.1).unwrap_or("");
            Case::source(key, self.text(), ext)
        } else {
            Case::files(key, self.path.as_ref().unwrap_or(&self.root), self.files.0.iter().map(|(n, x)| (n.clone(), self.style.nodes(x))).collect())
        };
        c.fields = self.fields.clone();
        c.attrs = self.attrs.clone();
        c.prelude = self.prelude.clone();
        c.config = self.config.clone();
        let mut steps = 0;
        let mut seen = std::collections::HashSet::new();
        for inp in inputs {
            assert_eq!(inp.len(), self.fields.len(), "model: inputs of {key}");
            let vals: Vec<(String, V)> = self.fields.iter().map(|(n, _)| n.trim_start_matches("r#").to_string()).zip(inp.iter().cloned()).collect();
            let mut m = Interp::new(&files, &vals, self.html);
            if let Some(e) = self.esc {
                m.esc = e;
            }
            if let Some(e) = self.named {
                m.named = e;
            }
            if let Some(e) = self.resolve {
                m.resolve = e;
            }
            let r = m.render(&self.root);
            steps += m.steps;
            seen.extend(m.seen.iter().copied());
            let expect = match r {
                Ok(()) => Expect::Out(m.out.clone()),
                Err(Stop::Err(_)) => Expect::Err(m.out.clone()),
                Err(e) => panic!("model: {e:?} escaped in {key}"),
            };
            c.runs.push(Run { init: inp.iter().map(V::rust).collect(), expect, trace: self.trace.then(|| m.trace.clone()), code: None });
        }
        (c, steps, seen.len() as u64)
    }
}

/// Collects model cases and runs them.
pub struct Suite {
    pub cases: Vec<Case>,
    pub steps: u64,
    pub states: u64,
}

impl Suite {
    pub fn new() -> Suite {
        Suite { cases: vec![], steps: 0, states: 0 }
    }
    pub fn add(&mut self, m: &Model, inputs: &[Vec<V>]) {
        let key = m.files.0.iter().map(|(n, x)| if m.files.0.len() == 1 { m.style.nodes(x) } else { format!("<{n}>{}", m.style.nodes(x)) }).collect::<String>();
        let (c, s, n) = m.case(&key, inputs);
        self.cases.push(c);
        self.steps += s;
        self.states += n;
    }
    pub fn run(self, p: &mut Part, name: &str, per_batch: usize) {
        p.add("transitions", self.steps);
        p.add("states", self.states);
        check(p, name, &self.cases, per_batch);
    }
}

impl Default for Suite {
    fn default() -> Self {
        Self::new()
    }
}
