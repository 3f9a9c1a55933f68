//! Reference implementations of the text filters, written from their documentation.
use crate::model::V;

pub fn upper(x: &str) -> String {
    x.to_uppercase()
}
pub fn lower(x: &str) -> String {
    x.to_lowercase()
}
pub fn trim(x: &str) -> String {
    x.trim().to_string()
}
pub fn capitalize(x: &str) -> String {
    let mut c = x.chars();
    match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + &c.as_str().to_lowercase(),
        None => String::new(),
    }
}
pub fn title(x: &str) -> String {
    let mut o = String::new();
    let mut start = true;
    for c in x.chars() {
        if c.is_whitespace() {
            o.push(c);
            start = true;
        } else if start {
            o.extend(c.to_uppercase());
            start = false;
        } else {
            o.extend(c.to_lowercase());
        }
    }
    o
}
/// At most `n` bytes, rounded up to a whole character; an ellipsis if something was cut off.
pub fn truncate(x: &str, n: usize) -> String {
    if n >= x.len() {
        return x.to_string();
    }
    let mut k = n;
    while !x.is_char_boundary(k) {
        k += 1;
    }
    if k == x.len() { x.to_string() } else { format!("{}...", &x[..k]) }
}
pub fn center(x: &str, w: usize) -> String {
    let n = x.chars().count();
    if n >= w || w >= 10_000 {
        return x.to_string();
    }
    let l = (w - n) / 2;
    format!("{}{x}{}", " ".repeat(l), " ".repeat(w - n - l))
}
pub fn indent(x: &str, w: usize) -> String {
    if w >= 10_000 || x.len() >= 10_000 {
        return x.to_string();
    }
    let lines: Vec<&str> = x.split_inclusive('\n').collect();
    let mut o = String::new();
    for (k, l) in lines.iter().enumerate() {
        if k > 0 {
            o.push_str(&" ".repeat(w));
        }
        o.push_str(l);
    }
    o
}
pub fn wordcount(x: &str) -> usize {
    let mut n = 0;
    let mut inw = false;
    for c in x.chars() {
        if c.is_whitespace() {
            inw = false;
        } else if !inw {
            inw = true;
            n += 1;
        }
    }
    n
}
pub fn linebreaksbr(x: &str) -> String {
    x.split('\n').collect::<Vec<_>>().join("<br/>")
}
pub fn linebreaks(x: &str) -> String {
    let ps: Vec<String> = x.split("\n\n").map(|p| format!("<p>{}</p>", linebreaksbr(p))).collect();
    ps.concat()
}
pub fn paragraphbreaks(x: &str) -> String {
    x.split("\n\n").filter(|p| !p.is_empty()).map(|p| format!("<p>{p}</p>")).collect()
}
pub fn urlencode(x: &str, strict: bool) -> String {
    let mut o = String::new();
    for b in x.bytes() {
        if b.is_ascii_alphanumeric() || b"_.-~".contains(&b) || (b == b'/' && !strict) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

/// Formats `x` with a format string holding one placeholder: `{}`, `{:?}`, `{:>N}`, `{:<N}`.
pub fn fmt1(f: &str, x: &str) -> Option<String> {
    let a = f.find('{')?;
    let b = f.find('}')?;
    let body = match &f[a + 1..b] {
        "" => x.to_string(),
        ":?" => format!("{x:?}"),
        s if s.starts_with(":>") => format!("{:>1$}", x, s[2..].parse::<usize>().ok()?),
        s if s.starts_with(":<") => format!("{:<1$}", x, s[2..].parse::<usize>().ok()?),
        _ => return None,
    };
    Some(format!("{}{}{}", &f[..a], body, &f[b + 1..]))
}

pub fn apply(name: &str, x: &str, args: &[V]) -> Option<Result<String, String>> {
    let n = |k: usize| args[k].int() as usize;
    Some(Ok(match name {
        "upper" | "uppercase" => upper(x),
        "lower" | "lowercase" => lower(x),
        "trim" => trim(x),
        "capitalize" => capitalize(x),
        "title" => title(x),
        "truncate" => truncate(x, n(0)),
        "center" => center(x, n(0)),
        "indent" => indent(x, n(0)),
        "wordcount" => wordcount(x).to_string(),
        "linebreaks" => linebreaks(x),
        "linebreaksbr" => linebreaksbr(x),
        "paragraphbreaks" => paragraphbreaks(x),
        "urlencode" => urlencode(x, false),
        "urlencode_strict" => urlencode(x, true),
        "fmt" => match &args[0] {
            V::S(f) => fmt1(f, x)?,
            _ => return None,
        },
        // User filters of the test prelude.
        "wrap" => format!("[{x}]"),
        "rep" => x.repeat(n(0)),
        "cat" => format!("{x}{}", args[0].text().ok()?),
        "cat2" => format!("{x}{}{}", args[0].text().ok()?, args[1].text().ok()?),
        "amp" => format!("<{x}&>"),
        "boom" | "fmterr" => x.to_string(),
        "fail" => return Some(Err(String::new())),
        _ => return None,
    }))
}

/// Rust text of the user filters above, for the prelude of a case.
pub const USER_FILTERS: &str = r#"
mod filters {
    use std::fmt::Display;
    /// `format!` that does not panic on values that fail.
    macro_rules! text { ($($x:tt)*) => {{ let mut s = String::new(); ::std::fmt::Write::write_fmt(&mut s, format_args!($($x)*))?; s }} }
    pub fn wrap<T: Display>(x: T) -> ::askama::Result<String> { Ok(text!("[{x}]")) }
    pub trait Num { fn n(self) -> usize; }
    impl Num for i32 { fn n(self) -> usize { self as usize } }
    impl Num for &i32 { fn n(self) -> usize { *self as usize } }
    impl Num for usize { fn n(self) -> usize { self } }
    impl Num for &usize { fn n(self) -> usize { *self } }
    pub fn rep<T: Display, N: Num>(x: T, n: N) -> ::askama::Result<String> { Ok(text!("{x}").repeat(n.n())) }
    pub fn cat<T: Display, U: Display>(x: T, a: U) -> ::askama::Result<String> { Ok(text!("{x}{a}")) }
    pub fn cat2<T: Display, U: Display, W: Display>(x: T, a: U, b: W) -> ::askama::Result<String> { Ok(text!("{x}{a}{b}")) }
    pub fn amp<T: Display>(x: T) -> ::askama::Result<String> { Ok(text!("<{x}&>")) }
    pub fn inc<A: ::std::borrow::Borrow<i32>, B: ::std::borrow::Borrow<i32>>(x: A, a: B) -> ::askama::Result<i32> { Ok(*x.borrow() + *a.borrow()) }
    pub fn mag<A: ::std::borrow::Borrow<i32>>(x: A) -> ::askama::Result<i32> { Ok(x.borrow().abs()) }
    pub fn not<A: ::std::borrow::Borrow<bool>>(x: A) -> ::askama::Result<bool> { Ok(!*x.borrow()) }
    /// Fails if asked to.
    pub fn boom<T: Display, B: ::std::borrow::Borrow<bool>>(x: T, f: B) -> ::askama::Result<String> { if *f.borrow() { Err(::askama::Error::Custom(crate::Boom(7).into())) } else { Ok(text!("{x}")) } }
    pub fn fmterr<T: Display, B: ::std::borrow::Borrow<bool>>(x: T, f: B) -> ::askama::Result<String> { if *f.borrow() { Err(::askama::Error::Fmt(::std::fmt::Error)) } else { Ok(text!("{x}")) } }
    pub fn fail<T: Display>(_x: T) -> ::askama::Result<String> { Err(::askama::Error::Fmt(::std::fmt::Error)) }
}
"#;
