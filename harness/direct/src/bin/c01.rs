//! C01: HTML escaping is exact for every string, however it is printed.
use askama::Template;
use askama_escape::{escape, Escaper, Html, MarkupDisplay, Text};
use std::fmt::{self, Display, Write};
use vdirect::*;

fn model(s: &str, out: &mut String) {
    out.clear();
    for c in s.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '&' => out.push_str("&amp;"),
            '"' => out.push_str("&quot;"),
            '\'' => out.push_str("&#x27;"),
            c => out.push(c),
        }
    }
}

#[derive(Template)]
#[template(source = "{{ v }}", ext = "html")]
struct Plain<'a> {
    v: &'a dyn Display,
}
#[derive(Template)]
#[template(source = "<{{ v }}&\"{{ v|e }}\n{{ v|escape(\"html\") }}'{{ v }}>", ext = "html")]
struct Among<'a> {
    v: &'a dyn Display,
}
#[derive(Template)]
#[template(source = "{{ v }}<{{ v|e(\"html\") }}", ext = "txt")]
struct Txt<'a> {
    v: &'a dyn Display,
}
#[derive(Template)]
#[template(source = "{{ v|safe }}{{ v }}{{ v|escape(\"none\") }}", ext = "html")]
struct Safe<'a> {
    v: &'a dyn Display,
}

/// A way to print a value escaped: writes to the buffer.
type Entry = fn(&dyn Display, &mut String) -> bool;

fn e_plain(v: &dyn Display, o: &mut String) -> bool {
    Plain { v }.render_into(o).is_ok()
}
fn e_display(v: &dyn Display, o: &mut String) -> bool {
    write!(o, "{}", Plain { v }).is_ok()
}
fn e_render(v: &dyn Display, o: &mut String) -> bool {
    Plain { v }.render().map(|s| o.push_str(&s)).is_ok()
}
fn e_io(v: &dyn Display, o: &mut String) -> bool {
    let mut b = Vec::new();
    Plain { v }.write_into(&mut b).is_ok() && String::from_utf8(b).map(|s| o.push_str(&s)).is_ok()
}
fn e_markup(v: &dyn Display, o: &mut String) -> bool {
    write!(o, "{}", MarkupDisplay::new_unsafe(v, Html)).is_ok()
}
fn e_filter(v: &dyn Display, o: &mut String) -> bool {
    write!(o, "{}", askama::filters::escape(Html, v).unwrap()).is_ok()
}
fn e_filter_e(v: &dyn Display, o: &mut String) -> bool {
    write!(o, "{}", askama::filters::e(Html, v).unwrap()).is_ok()
}
const ENTRIES: [(&str, Entry); 7] = [
    ("render_into", e_plain),
    ("Display", e_display),
    ("render", e_render),
    ("write_into", e_io),
    ("MarkupDisplay", e_markup),
    ("filters::escape", e_filter),
    ("filters::e", e_filter_e),
];

fn key(entry: &str, pieces: &[&str], mode: Mode) -> String {
    format!("{entry} {mode:?} {pieces:?}")
}

fn compare(log: &mut Log, entry: &str, pieces: &[&str], mode: Mode, ok: bool, got: &str, want: &str) {
    log.add("traces", 1);
    if !ok || got != want {
        log.violation(key(entry, pieces, mode), format!("value printed as {pieces:?} ({mode:?}) through {entry}\nexpected {want:?}\ngot      {got:?}{}", if ok { "" } else { " and an error" }));
    }
}

/// All entry points for one way of printing.
fn all(log: &mut Log, pieces: &[&str], mode: Mode, want: &str, buf: &mut String, full: bool) {
    log.add("states", 1);
    let v = Pieces { pieces, mode };
    for (n, e) in ENTRIES.iter().take(if full { ENTRIES.len() } else { 1 }) {
        log.add("transitions", pieces.len() as u64);
        buf.clear();
        let ok = e(&v, buf);
        compare(log, n, pieces, mode, ok, buf, want);
    }
}

/// Templates in which the value has neighbours, and other escapers.
fn among(log: &mut Log, pieces: &[&str], mode: Mode, want: &str) {
    let v = Pieces { pieces, mode };
    let raw = pieces.concat();
    let mut o = String::new();
    let ok = Among { v: &v }.render_into(&mut o).is_ok();
    compare(log, "among text", pieces, mode, ok, &o, &format!("<{want}&\"{want}\n{want}'{want}>"));
    o.clear();
    let ok = Txt { v: &v }.render_into(&mut o).is_ok();
    compare(log, "text template", pieces, mode, ok, &o, &format!("{raw}<{want}"));
    o.clear();
    let ok = Safe { v: &v }.render_into(&mut o).is_ok();
    compare(log, "safe", pieces, mode, ok, &o, &format!("{raw}{want}{raw}"));
    o.clear();
    let ok = write!(o, "{}", MarkupDisplay::new_unsafe(&v, Html).mark_safe()).is_ok();
    compare(log, "mark_safe", pieces, mode, ok, &o, &raw);
    o.clear();
    let ok = write!(o, "{}", MarkupDisplay::new_safe(&v, Html)).is_ok();
    compare(log, "new_safe", pieces, mode, ok, &o, &raw);
    o.clear();
    let ok = write!(o, "{}{}", MarkupDisplay::new_unsafe(&v, Text), escape(&raw, Text)).is_ok();
    compare(log, "Text", pieces, mode, ok, &o, &format!("{raw}{raw}"));
}

/// Entry points taking the string itself.
fn whole(log: &mut Log, s: &str, want: &str) {
    let p = [s];
    let mut o = String::new();
    let ok = Html.write_escaped(&mut o, s).is_ok();
    compare(log, "write_escaped", &p, Mode::Str, ok, &o, want);
    o.clear();
    let ok = write!(o, "{}", escape(s, Html)).is_ok();
    compare(log, "escape()", &p, Mode::Str, ok, &o, want);
    let owned = s.to_string();
    let boxed: Box<str> = s.into();
    let cow = std::borrow::Cow::Borrowed(s);
    let vs: [(&str, &dyn Display); 4] = [("&str", &s), ("String", &owned), ("Box<str>", &boxed), ("Cow", &cow)];
    for (n, v) in vs {
        o.clear();
        let ok = e_plain(v, &mut o);
        compare(log, n, &p, Mode::Str, ok, &o, want);
    }
    o.clear();
    // The pieces of nested format arguments.
    let ok = e_plain(&format_args!("<{}{:?}", s, 1), &mut o);
    compare(log, "format_args", &p, Mode::Str, ok, &o, &format!("&lt;{want}1"));
    let mut it = s.chars();
    if let (Some(c), None) = (it.next(), it.next()) {
        o.clear();
        let ok = e_plain(&c, &mut o);
        compare(log, "char", &p, Mode::Str, ok, &o, want);
    }
}

/// All strings of `n` characters of the alphabet, all splits, all modes.
fn strings(p: &mut Part, alphabet: &[char], n: usize, modes: &[Mode], full: bool) {
    let total = alphabet.len().pow(n as u32);
    let masks = if n > 1 { 1u32 << (n - 1) } else { 1 };
    run(p, &format!("strings of {n} over {}", alphabet.len()), total, |i, log| {
        let s: String = digits(i, alphabet.len(), n).into_iter().map(|d| alphabet[d]).collect();
        let (mut want, mut buf, mut pieces) = (String::new(), String::new(), vec![]);
        model(&s, &mut want);
        whole(log, &s, &want);
        for mask in 0..masks {
            split(&s, mask, &mut pieces);
            for m in modes {
                all(log, &pieces, *m, &want, &mut buf, full);
                if full {
                    among(log, &pieces, *m, &want);
                }
            }
        }
        if i == total / 3 {
            log.samples.push(format!("{s:?} in every split -> {want:?}"));
        }
    });
}

struct Ints(i64);
impl Display for Ints {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(self.0 >= 0, "", &self.0.unsigned_abs().to_string())
    }
}

fn main() {
    hook();
    let mut p = Part::from_args();
    let special = ['<', '>', '&', '"', '\''];
    // Special characters, their neighbours in the code tables, and characters of every UTF-8 length,
    // some of whose bytes equal special characters but for the high bit.
    let wide = [
        '<', '>', '&', '"', '\'', 'a', ' ', '!', '=', '?', '#', ';', '\n', '\0', '\u{bc}', '\u{7e2}', '\u{20ac}', '\u{1d11e}', '\u{a6}', '/', '`', '{',
    ];
    let narrow = ['<', '&', '\'', 'a', '\u{e9}', '\u{1f600}'];
    let t = thorough();
    for n in 0..=3 {
        strings(&mut p, &wide, n, &MODES, true);
    }
    strings(&mut p, &wide, 4, &MODES, t);
    strings(&mut p, &narrow, 5, &MODES, true);
    strings(&mut p, &narrow, if t { 7 } else { 6 }, &MODES[..2], false);
    if t {
        strings(&mut p, &['<', '&', 'a', '\u{e9}'], 10, &MODES[..1], false);
        strings(&mut p, &['"', 'b'], 14, &MODES[..2], false);
    }
    // Every character, alone and next to special ones.
    run(&mut p, "every character", 0x110000, |i, log| {
        let Some(c) = char::from_u32(i as u32) else { return };
        let (mut want, mut buf) = (String::new(), String::new());
        for pat in ["_", "<_", "_>", "a_&", "_'_", "<<<<_&", "\"\"\"_\"_\"", "___<&>", "&'>_____<"] {
            let mut pieces = vec![];
            let s = pat.replace('_', c.encode_utf8(&mut [0; 4]));
            model(&s, &mut want);
            whole(log, &s, &want);
            for mask in [0, !0] {
                split(&s, mask, &mut pieces);
                all(log, &pieces, Mode::Str, &want, &mut buf, false);
            }
            split(&s, !0, &mut pieces);
            all(log, &pieces, Mode::Char, &want, &mut buf, false);
        }
    });
    // Long strings: one or two special characters at every position, in ASCII and non-ASCII filling.
    let max = if t { 400 } else { 140 };
    run(&mut p, "long strings", (max + 1) * 5, |i, log| {
        let (len, sp) = (i / 5, special[i % 5]);
        let (mut want, mut buf) = (String::new(), String::new());
        for fill in ['x', '\u{e9}', sp] {
            for a in 0..=len {
                for b in a..=(a + if t { 70 } else { 35 }).min(len) {
                    let s: String = (0..len).map(|k| if k == a || k == b { sp } else { fill }).collect();
                    model(&s, &mut want);
                    buf.clear();
                    let ok = Html.write_escaped(&mut buf, &s).is_ok();
                    compare(log, "write_escaped", &[&s], Mode::Str, ok, &buf, &want);
                    if b == a {
                        whole(log, &s, &want);
                        // Split before, after and around the special character.
                        for cut in [a, a + 1] {
                            let at = s.char_indices().nth(cut).map_or(s.len(), |x| x.0);
                            all(log, &[&s[..at], &s[at..]], Mode::Str, &want, &mut buf, false);
                        }
                    }
                    log.add("states", 1);
                    log.add("transitions", 1);
                    if fill == sp {
                        break;
                    }
                }
            }
        }
    });
    // One odd character around a special one far from the start or the end.
    let odd = ['\0', '\u{1}', '\t', '\n', '\r', ' ', '\u{7f}', '\u{80}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{1f600}', '\u{10ffff}'];
    run(&mut p, "odd neighbours", odd.len() * 5 * (max + 1), |i, log| {
        let (len, c, sp) = (i / odd.len() / 5, odd[i / 5 % odd.len()], special[i % 5]);
        let mut want = String::new();
        for (fill, n) in [('x', 1), ('x', 2), ('\u{e9}', 1), (c, 1), (sp, 1), (sp, 3)] {
            let (f, cs): (String, String) = ([fill].repeat(len).iter().collect(), [c].repeat(n).iter().collect());
            for s in [format!("{f}{cs}{sp}"), format!("{f}{sp}{cs}"), format!("{f}{cs}{sp}{cs}{f}"), format!("{cs}{sp}{f}{cs}{sp}{sp}{f}"), format!("{cs}{f}{sp}{f}{cs}")] {
                model(&s, &mut want);
                whole(log, &s, &want);
                log.add("states", 1);
                log.add("transitions", 1);
            }
        }
    });
    // Very long ones.
    run(&mut p, "very long strings", 64, |i, log| {
        let unit = ["<", "x", "&\u{e9}", "\"'", "a>b", "\u{1f600}<"][i % 6];
        let s = unit.repeat(1 << (i / 6 + 6));
        let (mut want, mut buf) = (String::new(), String::new());
        model(&s, &mut want);
        whole(log, &s, &want);
        let pieces: Vec<&str> = s.split_inclusive(|_| true).collect();
        all(log, &pieces, Mode::Str, &want, &mut buf, true);
        all(log, &pieces, Mode::Char, &want, &mut buf, true);
    });
    // Numbers and flags print without any escaping.
    run(&mut p, "numbers", 2001, |i, log| {
        let n = i as i64 - 1000;
        let mut o = String::new();
        for (k, v) in [&n as &dyn Display, &Ints(n), &(n as f64 / 8.0), &(n % 2 == 0)].into_iter().enumerate() {
            o.clear();
            let ok = e_plain(v, &mut o);
            compare(log, &format!("number kind {k}"), &[&v.to_string()], Mode::Str, ok, &o, &v.to_string());
        }
    });
    p.finish();
}
