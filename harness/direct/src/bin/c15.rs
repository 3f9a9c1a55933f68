//! C15: built-in filters compute their documented function for every input.
use askama::{filters as f, Template};
use serde_json::{json, Value};
use std::fmt::{Display, Write};
use vdirect::*;
use vkit::filters as m;

macro_rules! tmpl {
    ($($t:ident $src:literal),* $(,)?) => { $(
        #[derive(Template)]
        #[template(source = $src, ext = "txt")]
        #[allow(dead_code)]
        struct $t<'a> { v: &'a dyn Display, n: usize }
    )* };
}
tmpl! {
    TUpper "{{ v|upper }}",
    TLower "{{ v|lower }}",
    TUppercase "{{ v|uppercase }}",
    TLowercase "{{ v|lowercase }}",
    TTrim "{{ v|trim }}",
    TTitle "{{ v|title }}",
    TCapitalize "{{ v|capitalize }}",
    TWordcount "{{ v|wordcount }}",
    TLinebreaks "{{ v|linebreaks }}",
    TLinebreaksbr "{{ v|linebreaksbr }}",
    TParagraphbreaks "{{ v|paragraphbreaks }}",
    TUrlencode "{{ v|urlencode }}",
    TUrlencodeStrict "{{ v|urlencode_strict }}",
    TCenter "{{ v|center(n.clone()) }}",
    TIndent "{{ v|indent(n.clone()) }}",
    TTruncate "{{ v|truncate(n.clone()) }}",
}

type Real = Box<dyn Fn(&dyn Display, usize, &mut String) -> bool + Sync>;
type Model = fn(&str, usize) -> String;
struct Filter {
    name: &'static str,
    real: Real,
    model: Model,
    /// Takes an argument.
    arg: bool,
    template: bool,
}

fn out<T: Display, E>(r: Result<T, E>, o: &mut String) -> bool {
    match r {
        Ok(v) => write!(o, "{v}").is_ok(),
        Err(_) => false,
    }
}

fn filters() -> Vec<Filter> {
    let mut v: Vec<Filter> = vec![];
    macro_rules! add {
        ($name:literal, $arg:expr, $model:expr, $t:ident, |$x:ident, $n:ident| $call:expr) => {
            v.push(Filter { name: $name, arg: $arg, template: false, model: $model, real: Box::new(|$x, $n, o| { let _ = $n; out($call, o) }) });
            v.push(Filter { name: concat!("template ", $name), arg: $arg, template: true, model: $model, real: Box::new(|v, n, o| $t { v, n }.render_into(o).is_ok()) });
        };
    }
    add!("upper", false, |x, _| m::upper(x), TUpper, |x, n| f::upper(x));
    add!("lower", false, |x, _| m::lower(x), TLower, |x, n| f::lower(x));
    add!("uppercase", false, |x, _| m::upper(x), TUppercase, |x, n| f::uppercase(x));
    add!("lowercase", false, |x, _| m::lower(x), TLowercase, |x, n| f::lowercase(x));
    add!("trim", false, |x, _| m::trim(x), TTrim, |x, n| f::trim(x));
    add!("title", false, |x, _| m::title(x), TTitle, |x, n| f::title(x));
    add!("capitalize", false, |x, _| m::capitalize(x), TCapitalize, |x, n| f::capitalize(x));
    add!("wordcount", false, |x, _| m::wordcount(x).to_string(), TWordcount, |x, n| f::wordcount(x));
    add!("linebreaks", false, |x, _| m::linebreaks(x), TLinebreaks, |x, n| f::linebreaks(x));
    add!("linebreaksbr", false, |x, _| m::linebreaksbr(x), TLinebreaksbr, |x, n| f::linebreaksbr(x));
    add!("paragraphbreaks", false, |x, _| m::paragraphbreaks(x), TParagraphbreaks, |x, n| f::paragraphbreaks(x));
    add!("urlencode", false, |x, _| m::urlencode(x, false), TUrlencode, |x, n| f::urlencode(x));
    add!("urlencode_strict", false, |x, _| m::urlencode(x, true), TUrlencodeStrict, |x, n| f::urlencode_strict(x));
    add!("center", true, m::center, TCenter, |x, n| f::center(x, n));
    add!("indent", true, m::indent, TIndent, |x, n| f::indent(x, n));
    add!("truncate", true, m::truncate, TTruncate, |x, n| f::truncate(x, n));
    v
}

fn one(log: &mut Log, fl: &Filter, pieces: &[&str], mode: Mode, n: usize, want: &str, buf: &mut String) {
    log.add("traces", 1);
    log.add("transitions", pieces.len() as u64);
    buf.clear();
    let v = Pieces { pieces, mode };
    let r = catch(|| (fl.real)(&v, n, buf));
    if r != Ok(true) || buf != want {
        let arg = if fl.arg { format!("({n})") } else { String::new() };
        log.violation(
            format!("{}{arg} {mode:?} {pieces:?}", fl.name),
            format!("value printed as {pieces:?} ({mode:?})\nexpected {want:?}\ngot      {buf:?}{}", match r {
                Ok(true) => String::new(),
                Ok(false) => " and an error".into(),
                Err(e) => format!(" and a panic: {e}"),
            }),
        );
    }
}

fn strings(p: &mut Part, fs: &[Filter], name: &str, alphabet: &[&str], n: usize, modes: &[Mode], args: &[usize], pick: impl Fn(&Filter) -> bool + Sync) {
    let total = alphabet.len().pow(n as u32);
    run(p, &format!("{name}, length {n}"), total, |i, log| {
        let s: String = digits(i, alphabet.len(), n).into_iter().map(|d| alphabet[d]).collect();
        let len = s.chars().count();
        let masks = if len > 1 { 1u32 << (len - 1) } else { 1 };
        let (mut buf, mut pieces) = (String::new(), vec![]);
        for fl in fs.iter().filter(|f| pick(f)) {
            for a in if fl.arg { args } else { &[0] } {
                let want = (fl.model)(&s, *a);
                for mask in 0..masks {
                    split(&s, mask, &mut pieces);
                    for mode in modes {
                        log.add("states", 1);
                        one(log, fl, &pieces, *mode, *a, &want, &mut buf);
                    }
                }
            }
        }
        if i == total / 2 {
            log.samples.push(format!("{name}: {s:?} in every split through every filter"));
        }
    });
}

#[derive(Template)]
#[template(source = "{{ v|json }}", ext = "txt")]
struct TJson<'a> {
    v: &'a Value,
}
#[derive(Template)]
#[template(source = "{{ v|tojson|safe }}<{{ v|json }}", ext = "html")]
struct TJsonHtml<'a> {
    v: &'a Value,
}

fn check_json(log: &mut Log, v: &Value) {
    log.add("states", 1);
    let mut o = String::new();
    let mut outs = vec![];
    for k in 0..3 {
        o.clear();
        let r = catch(|| match k {
            0 => out(f::json(v), &mut o),
            1 => TJson { v }.render_into(&mut o).is_ok(),
            _ => TJsonHtml { v }.render_into(&mut o).is_ok(),
        });
        log.add("traces", 1);
        log.add("transitions", 1);
        if r != Ok(true) {
            log.violation(format!("json {v}"), format!("json filter of {v}: {r:?}"));
            return;
        }
        outs.push(o.clone());
    }
    let j = outs[0].clone();
    if outs[1] != j || outs[2] != format!("{j}<{}", j.replace('"', "&quot;")) {
        log.violation(format!("json template {v}"), format!("json filter {j:?}, templates {:?} and {:?}", outs[1], outs[2]));
    }
    if j.contains(['&', '<', '>', '\'']) {
        log.violation(format!("json special {v}"), format!("{j:?} contains a special character"));
    }
    match serde_json::from_str::<Value>(&j) {
        Ok(w) if w == *v => {}
        w => log.violation(format!("json value {v}"), format!("{j:?} denotes {w:?}")),
    }
    let pretty = serde_json::to_string_pretty(v).unwrap();
    let want = pretty.replace('&', "\\u0026").replace('<', "\\u003c").replace('>', "\\u003e").replace('\'', "\\u0027");
    if j != want {
        log.violation(format!("json text {v}"), format!("expected {want:?}\ngot {j:?}"));
    }
}

fn json_values(p: &mut Part) {
    let al = ["<", ">", "&", "'", "\"", "\\", "a", "\u{e9}", "\u{2028}", "\n", "\0", "\u{1d11e}", "\u{7f}", "u", "/"];
    for n in 0..=if thorough() { 5 } else { 4 } {
        run(p, &format!("json strings of {n}"), al.len().pow(n), |i, log| {
            let s: String = digits(i, al.len(), n as usize).into_iter().map(|d| al[d]).collect();
            check_json(log, &Value::String(s.clone()));
            if n < 4 {
                check_json(log, &json!({ s.clone(): [s] }));
            }
        });
    }
    run(p, "json every character", 0x110000, |i, log| {
        if let Some(c) = char::from_u32(i as u32) {
            check_json(log, &json!(c.to_string()));
            if i < 0x3000 {
                check_json(log, &json!({ c.to_string(): format!("<{c}&{c}{c}'") }));
            }
        }
    });
    // All values of depth 2 over a set of leaves.
    let leaves = vec![
        json!(null), json!(true), json!(0), json!(-1), json!(1.5), json!(-1e300), json!(u64::MAX), json!(i64::MIN), json!(""), json!("<"), json!("a'&"), json!([]), json!({}),
    ];
    let mut one: Vec<Value> = leaves.clone();
    for a in &leaves {
        one.push(json!([a]));
        one.push(json!({ "<&'>": a }));
        for b in &leaves {
            one.push(json!([a, b]));
            one.push(json!({ "k": a, "'": b }));
        }
    }
    run(p, "json nested", one.len() * one.len(), |i, log| {
        let (a, b) = (&one[i / one.len()], &one[i % one.len()]);
        check_json(log, &json!([a, b]));
        check_json(log, &json!({ "x": a, "y>": b }));
    });
    run(p, "json long", 300, |i, log| {
        for c in ["<", "&", "'", ">", "x\u{e9}"] {
            check_json(log, &json!("x".repeat(i) + c + &"\u{e9}".repeat(i % 7) + c));
        }
    });
}

#[derive(Template)]
#[template(source = "{{ v|join(sep) }}", ext = "txt")]
struct TJoin<'a> {
    v: &'a [Pieces<'a>],
    sep: &'a dyn Display,
}
#[derive(Template)]
#[template(source = "{{ v|join(sep) }}|{{ v|join(sep) }}|{{ v|join(sep)|upper }}", ext = "html")]
struct TJoins<'a> {
    v: &'a [Pieces<'a>],
    sep: &'a dyn Display,
}

fn join(p: &mut Part) {
    let items: [&[&str]; 6] = [&["a"], &[""], &["<", "\u{e9}"], &["b", "", "c"], &[], &[", "]];
    let seps: [&[&str]; 5] = [&[""], &[", "], &["<", "\u{e9}"], &[], &["a", "b"]];
    for n in 0..=if thorough() { 6 } else { 4 } {
        run(p, &format!("join of {n}"), items.len().pow(n as u32) * seps.len(), |i, log| {
            let (s, i) = (i % seps.len(), i / seps.len());
            let d = digits(i, items.len(), n);
            for mode in MODES {
                log.add("states", 1);
                let v: Vec<Pieces<'_>> = d.iter().map(|k| Pieces { pieces: items[*k], mode }).collect();
                let sep = Pieces { pieces: seps[s], mode };
                let want = d.iter().map(|k| items[*k].concat()).collect::<Vec<_>>().join(&seps[s].concat());
                let html = vkit::model::escape_html(&want);
                let up = vkit::model::escape_html(&want.to_uppercase());
                let mut o = String::new();
                for k in 0..5 {
                    o.clear();
                    let ok = match k {
                        0 => out(f::join(&v, &sep), &mut o),
                        1 => out(f::join(v.iter(), &sep), &mut o),
                        2 => out(f::join(v.iter().filter(|_| true), seps[s].concat()), &mut o),
                        3 => TJoin { v: &v, sep: &sep }.render_into(&mut o).is_ok(),
                        _ => TJoins { v: &v, sep: &sep }.render_into(&mut o).is_ok(),
                    };
                    log.add("traces", 1);
                    log.add("transitions", n as u64);
                    let want = if k == 4 { format!("{html}|{html}|{up}") } else { want.clone() };
                    if !ok || o != want {
                        log.violation(format!("join {k} {mode:?} {:?} {:?}", d.iter().map(|k| items[*k]).collect::<Vec<_>>(), seps[s]), format!("expected {want:?}\ngot {o:?} ({ok})"));
                    }
                }
            }
        });
    }
}

#[derive(Template)]
#[template(source = "{{ v|filesizeformat }}", ext = "txt")]
struct TSize {
    v: f64,
}
#[derive(Template)]
#[template(source = "{{ v|filesizeformat }}", ext = "txt")]
struct TSizeU {
    v: u64,
}

/// Decimal units; as many units of a thousand as keep the number below a thousand; two decimals unless whole.
fn size(v: f64) -> String {
    let units = ["B", "kB", "MB", "GB", "TB", "PB", "EB", "ZB", "YB"];
    let mut k = 0;
    let mut x = v.abs();
    while x >= 1000.0 && k < units.len() - 1 {
        x /= 1000.0;
        k += 1;
    }
    // (whole up to the precision of the number)
    let d = if x.fract() <= f64::EPSILON { 0 } else { 2 };
    format!("{}{:.*} {}", if v < 0.0 { "-" } else { "" }, d, x, units[k])
}

fn sizes(p: &mut Part) {
    let mut vs: Vec<i64> = (0..if thorough() { 3_000_000 } else { 300_000 }).collect();
    for k in 0..19 {
        for d in 1..10 {
            for e in -60..60 {
                vs.push((10i64.pow(k).saturating_mul(d)).saturating_add(e));
            }
        }
    }
    for k in 0..63 {
        for e in -3..3 {
            vs.push((1i64 << k) + e);
        }
    }
    let n = vs.len();
    run(p, "sizes", n, |i, log| {
        let v = vs[i];
        log.add("states", 1);
        let mut o = String::new();
        for k in 0..8 {
            let (ok, want) = match k {
                0 => (out(f::filesizeformat(&v), &mut o), size(v as f64)),
                1 => (out(f::filesizeformat(&(v as u64)), &mut o), size(v as u64 as f64)),
                2 => (out(f::filesizeformat(&(-v)), &mut o), size(-v as f64)),
                3 => (out(f::filesizeformat(&(v as f64 / 4.0)), &mut o), size(v as f64 / 4.0)),
                4 => (TSize { v: v as f64 }.render_into(&mut o).is_ok(), size(v as f64)),
                5 => (out(f::filesizeformat(&(v as u16)), &mut o), size((v as u16).into())),
                6 => (TSizeU { v: v as u64 }.render_into(&mut o).is_ok(), size(v as u64 as f64)),
                _ => (out(f::filesizeformat(&(v as usize)), &mut o), size(v as usize as f64)),
            };
            log.add("traces", 1);
            log.add("transitions", 1);
            if !ok || o != want {
                log.violation(format!("filesizeformat {k} {v}"), format!("expected {want:?}\ngot {o:?}"));
            }
            o.clear();
        }
    });
}

#[derive(Template)]
#[template(source = "{{ v.clone()|abs }} {{ v.clone()|into_f64 }} {{ v.clone()|into_isize }}", ext = "txt")]
struct TNum<T: Copy + Display + askama_num::Num> {
    v: T,
}
mod askama_num {
    pub trait Num: num_traits::Signed + num_traits::NumCast {}
    impl<T: num_traits::Signed + num_traits::NumCast> Num for T {}
}

fn numbers(p: &mut Part) {
    macro_rules! int {
        ($log:ident, $v:expr, $t:ty) => {{
            let v: $t = $v;
            let f = f::into_f64(v).ok();
            if f != Some(v as f64) {
                $log.violation(format!("into_f64 {v}{}", stringify!($t)), format!("got {f:?}"));
            }
            let i = f::into_isize(v).ok();
            if i != isize::try_from(v).ok() {
                $log.violation(format!("into_isize {v}{}", stringify!($t)), format!("got {i:?}"));
            }
            $log.add("states", 1);
            $log.add("transitions", 2);
            $log.add("traces", 2);
        }};
    }
    macro_rules! signed {
        ($log:ident, $v:expr, $t:ty) => {{
            let v: $t = $v;
            int!($log, v, $t);
            if v != <$t>::MIN {
                let a = f::abs(v).ok();
                if a != Some(if v < 0 { -v } else { v }) {
                    $log.violation(format!("abs {v}{}", stringify!($t)), format!("got {a:?}"));
                }
                $log.add("transitions", 1);
                $log.add("traces", 1);
            }
        }};
    }
    run(p, "16 bit numbers", 65536, |i, log| {
        let i = i as u16;
        int!(log, i, u16);
        signed!(log, i as i16, i16);
        int!(log, i as u8, u8);
        signed!(log, i as i8, i8);
        // The same bits at either end of wider types.
        for sh in [0, 16, 32, 48] {
            let w = (i as u64) << sh;
            for x in [w, !w] {
                int!(log, x, u64);
                int!(log, x as usize, usize);
                signed!(log, x as i64, i64);
                signed!(log, x as isize, isize);
                int!(log, x as u32, u32);
                signed!(log, x as i32, i32);
                int!(log, x as u128 * 3, u128);
                signed!(log, x as i128 * 5, i128);
            }
        }
        // Floats: all high halves, so every exponent with several mantissas.
        for low in [0u64, 1, 0x0000_ffff_ffff_ffff, 0x0000_8000_0000_0000] {
            let v = f64::from_bits((i as u64) << 48 | low);
            let a = f::abs(v).unwrap();
            if a.to_bits() != v.to_bits() & !(1 << 63) && !v.is_nan() {
                log.violation(format!("abs {v}"), format!("got {a}"));
            }
            let c = f::into_f64(v).unwrap();
            if c.to_bits() != v.to_bits() {
                log.violation(format!("into_f64 {v}"), format!("got {c}"));
            }
            let n = f::into_isize(v).ok();
            let t = v.trunc();
            let want = (t >= -(2f64.powi(63)) && t < 2f64.powi(63)).then_some(t as isize);
            if n != want {
                log.violation(format!("into_isize {v}"), format!("got {n:?}, expected {want:?}"));
            }
            let s = v as f32;
            if !s.is_nan() && (f::abs(s).unwrap() != s.abs() || f::into_f64(s).unwrap() != s as f64) {
                log.violation(format!("abs/into_f64 {s}f32"), "differs");
            }
            log.add("states", 2);
            log.add("transitions", 5);
            log.add("traces", 5);
        }
        // Through a template.
        let v = i as i16;
        if v != i16::MIN {
            let got = TNum { v: v as i32 * 1001 }.render();
            let w = v as i64 * 1001;
            let want = format!("{} {} {}", w.abs(), w, w);
            log.add("traces", 1);
            if got.as_deref().ok() != Some(&want[..]) {
                log.violation(format!("template numbers {w}"), format!("expected {want:?}\ngot {got:?}"));
            }
        }
    });
}

fn main() {
    hook();
    let mut p = Part::from_args();
    let t = thorough();
    let fs = filters();
    // Whitespace of all sorts, line breaks, cased letters (final sigma, title case, one-to-many), combining, digits.
    let al = [
        " ", "\n", "\t", "\r", "a", "B", "\u{e9}", "\u{df}", "\u{130}", "\u{1c5}", "\u{3000}", "/", "1", "\u{1f600}", "<", "%", "\u{301}", ".", "-", "\u{85}",
    ];
    let args = [0usize, 1, 2, 3, 4, 5, 6, 7, 9, 12];
    for n in 0..=3 {
        strings(&mut p, &fs, "strings", &al, n, &MODES, &args, |_| true);
    }
    strings(&mut p, &fs, "strings", &al[..if t { 20 } else { 8 }], 4, &MODES, &args, |f| t || !f.template);
    let small = [" ", "\n", "a", "B", "\u{e9}"];
    strings(&mut p, &fs, "mixed strings", &small, 5, &MODES[..2], &args[..8], |f| !f.template);
    strings(&mut p, &fs, "mixed strings", &small, if t { 8 } else { 6 }, &MODES[..1], &args[..6], |f| !f.template);
    for n in 4..=if t { 12 } else { 8 } {
        strings(&mut p, &fs, "lines", &["\n", "a", "\r\n"][..if n > 9 { 2 } else { 3 }], n, &MODES[..1], &[0, 3], |f| !f.template && (f.name.contains("breaks") || f.name == "indent"));
    }
    for n in 4..=if t { 11 } else { 7 } {
        strings(&mut p, &fs, "widths", &["a", "\u{e9}", "\u{20ac}", "\u{1f600}"][..if n > 8 { 2 } else { 4 }], n, &MODES[..1], &(0..30).collect::<Vec<_>>(), |f| !f.template && (f.name == "truncate" || f.name == "center"));
    }
    for n in 4..=if t { 9 } else { 6 } {
        strings(&mut p, &fs, "words", &[" ", "\u{3000}", "aB", "\u{e9}", "\t"], n, &MODES[..1], &[0], |f| !f.template && ["title", "trim", "wordcount", "capitalize", "lower", "upper"].contains(&f.name));
    }
    // Every character in several contexts.
    run(&mut p, "every character", 0x110000, |i, log| {
        let Some(c) = char::from_u32(i as u32) else { return };
        let mut buf = String::new();
        for pat in ["_", "a_", "_b _c", " _ ", "_\n_"] {
            let s = pat.replace('_', c.encode_utf8(&mut [0; 4]));
            for fl in fs.iter().filter(|f| !f.template && !["uppercase", "lowercase"].contains(&f.name)) {
                for a in if fl.arg { &[2, 3, 9][..] } else { &[0] } {
                    let want = (fl.model)(&s, *a);
                    log.add("states", 1);
                    one(log, fl, &[&s], Mode::Str, *a, &want, &mut buf);
                    if i < 0x3100 {
                        one(log, fl, &[&s], Mode::Char, *a, &want, &mut buf);
                    }
                }
            }
        }
    });
    // Long strings around the documented maximum, and huge arguments.
    run(&mut p, "long strings", 60, |i, log| {
        let mut buf = String::new();
        let unit = ["a", "\u{e9}", "a\n", " b"][i % 4];
        let n = [99, 4999, 5000, 9998, 9999, 10000, 10001, 20000][i % 8] / unit.len();
        let s = unit.repeat(n) + ["", "x", "\n", "\u{20ac}"][i / 4 % 4];
        let mut args = vec![0, 1, s.len() / 2, s.len() - 1, s.len(), s.len() + 1, 99, 2000, 9_999, 10_000, 10_001];
        if i % 8 == 0 {
            args.extend([1 << 20, usize::MAX - 1, usize::MAX]);
        }
        for fl in &fs {
            for a in if fl.arg { &args[..] } else { &[0] } {
                if fl.name.contains("indent") && *a > 2000 && *a < 10_000 && s.contains('\n') && i > 12 {
                    continue;
                }
                let want = (fl.model)(&s, *a);
                log.add("states", 1);
                one(log, fl, &[&s], Mode::Str, *a, &want, &mut buf);
                let k = (s.len() / 2..).find(|k| s.is_char_boundary(*k)).unwrap();
                one(log, fl, &[&s[..k], &s[k..]], Mode::Str, *a, &want, &mut buf);
            }
        }
    });
    json_values(&mut p);
    join(&mut p);
    sizes(&mut p);
    numbers(&mut p);
    p.finish();
}
