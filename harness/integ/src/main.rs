//! C21: what the web integrations answer.
use askama::Template;
use std::fmt::{self, Display};
use vkit::iso::catch;
use vkit::part::{thorough, Part};

#[derive(Debug, Clone)]
struct Failure(&'static str);
impl Display for Failure {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Failure {}

/// A value that prints its text, or fails.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Val {
    Ok(&'static str),
    /// Display fails after the text.
    Bad(&'static str),
    /// `?` fails with this message.
    Err(&'static str),
}
impl Val {
    fn get(&self) -> Result<&Val, Failure> {
        match self {
            Val::Err(e) => Err(Failure(e)),
            v => Ok(v),
        }
    }
}
impl Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Ok(s) => f.write_str(s),
            Val::Bad(s) => f.write_str(s).and(Err(fmt::Error)),
            Val::Err(_) => Err(fmt::Error),
        }
    }
}

/// What came back.
#[derive(Debug, PartialEq, Clone)]
struct Answer {
    status: u16,
    content_type: Vec<String>,
    body: Vec<u8>,
    /// The sizes of the body that are announced: by the body itself, or a Content-Length.
    /// (The servers send as many bytes, however long the body is.)
    sizes: Vec<u64>,
}

fn length<'a>(v: impl Iterator<Item = &'a [u8]>) -> Vec<u64> {
    v.map(|v| std::str::from_utf8(v).ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX)).collect()
}

#[derive(Clone, Copy)]
enum Esc {
    Html,
    Text,
}

struct Ctx {
    rt: tokio::runtime::Runtime,
    rocket: rocket::local::asynchronous::Client,
    log: Vec<(String, String)>,
    counts: [u64; 3],
    samples: Vec<String>,
}

fn actix(rt: &tokio::runtime::Runtime, r: actix_web::HttpResponse) -> Answer {
    let status = r.status().as_u16();
    let content_type = r.headers().get_all("content-type").map(|h| h.to_str().unwrap().to_string()).collect();
    let mut sizes = length(r.headers().get_all("content-length").map(|h| h.as_bytes()));
    match actix_web::body::MessageBody::size(r.body()) {
        actix_web::body::BodySize::None => sizes.push(0),
        actix_web::body::BodySize::Sized(n) => sizes.push(n),
        actix_web::body::BodySize::Stream => {}
    }
    let body = rt.block_on(actix_web::body::to_bytes(r.into_body())).unwrap().to_vec();
    Answer { status, content_type, body, sizes }
}

fn axum(rt: &tokio::runtime::Runtime, r: axum::response::Response) -> Answer {
    use http_body_util::BodyExt;
    let status = r.status().as_u16();
    let content_type = r.headers().get_all("content-type").iter().map(|h| h.to_str().unwrap().to_string()).collect();
    let mut sizes = length(r.headers().get_all("content-length").iter().map(|h| h.as_bytes()));
    sizes.extend(axum::body::HttpBody::size_hint(r.body()).exact());
    let body = rt.block_on(r.into_body().collect()).unwrap().to_bytes().to_vec();
    Answer { status, content_type, body, sizes }
}

fn warp(rt: &tokio::runtime::Runtime, r: warp::reply::Response) -> Answer {
    let status = r.status().as_u16();
    let content_type = r.headers().get_all("content-type").iter().map(|h| h.to_str().unwrap().to_string()).collect();
    let mut sizes = length(r.headers().get_all("content-length").iter().map(|h| h.as_bytes()));
    sizes.extend(warp::hyper::body::HttpBody::size_hint(r.body()).exact());
    let body = rt.block_on(warp::hyper::body::to_bytes(r.into_body())).unwrap().to_vec();
    Answer { status, content_type, body, sizes }
}

fn rocket(rt: &tokio::runtime::Runtime, mut r: rocket::Response<'_>) -> Answer {
    let status = r.status().code;
    let content_type = r.headers().get("content-type").map(|s| s.to_string()).collect();
    let mut sizes = length(r.headers().get("content-length").map(|s| s.as_bytes()));
    sizes.extend(r.body().preset_size().map(|n| n as u64));
    sizes.extend(rt.block_on(r.body_mut().size()).map(|n| n as u64));
    let body = rt.block_on(r.body_mut().to_bytes()).unwrap();
    Answer { status, content_type, body, sizes }
}

fn status(s: rocket::http::Status) -> Answer {
    Answer { status: s.code, content_type: vec![], body: vec![], sizes: vec![] }
}

/// Every way to make a response of a template. `None`: the function returned an error.
fn responses<T>(c: &Ctx, t: &T) -> Vec<(&'static str, bool, Option<Answer>)>
where
    T: Template + Clone + actix_web::Responder<Body = actix_web::body::BoxBody> + axum::response::IntoResponse + warp::Reply,
    T: for<'r> rocket::response::Responder<'r, 'static>,
{
    let rt = &c.rt;
    let areq = actix_web::test::TestRequest::default().to_http_request();
    let lreq = c.rocket.get("/");
    let mut v = vec![
        ("askama_actix::into_response", false, Some(actix(rt, askama_actix::into_response(t)))),
        ("askama_actix::into_response(&&T)", false, Some(actix(rt, askama_actix::into_response(&t)))),
        ("askama_actix::try_into_response", true, askama_actix::try_into_response(t).ok().map(|r| actix(rt, r))),
        ("actix Responder", false, Some(actix(rt, actix_web::Responder::respond_to(t.clone(), &areq)))),
        ("askama_axum::into_response", false, Some(axum(rt, askama_axum::into_response(t)))),
        ("askama_axum::into_response(&&T)", false, Some(axum(rt, askama_axum::into_response(&t)))),
        ("askama_axum::try_into_response", true, askama_axum::try_into_response(t).ok().map(|r| axum(rt, r))),
        ("axum IntoResponse", false, Some(axum(rt, axum::response::IntoResponse::into_response(t.clone())))),
        ("askama_warp::into_response", false, Some(warp(rt, askama_warp::into_response(t)))),
        ("askama_warp::try_into_response", true, askama_warp::try_into_response(t).ok().map(|r| warp(rt, r))),
        ("warp Reply", false, Some(warp(rt, warp::Reply::into_response(t.clone())))),
        ("askama_rocket::into_response", false, Some(rocket(rt, askama_rocket::into_response(t)))),
        ("askama_rocket::into_response(&&T)", false, Some(rocket(rt, askama_rocket::into_response(&t)))),
        ("askama_rocket::try_into_response", true, askama_rocket::try_into_response(t).ok().map(|r| rocket(rt, r))),
        ("askama_rocket::respond", false, Some(askama_rocket::respond(t).map_or_else(status, |r| rocket(rt, r)))),
        ("rocket Responder", false, Some({
            let r = <T as rocket::response::Responder<'_, 'static>>::respond_to(t.clone(), lreq.inner());
            r.map_or_else(status, |r| rocket(rt, r))
        })),
    ];
    // Inside of the framework's own containers.
    v.push(("axum (headers, T)", false, Some(axum(rt, axum::response::IntoResponse::into_response((axum::http::HeaderMap::new(), t.clone()))))));
    v.push(("axum Result", false, Some(axum(rt, axum::response::IntoResponse::into_response(Ok::<T, String>(t.clone()))))));
    v.push(("warp Result", false, Some(warp(rt, warp::Reply::into_response(Ok::<T, std::convert::Infallible>(t.clone()))))));
    v.push(("rocket Option", false, Some({
        let r = <Option<T> as rocket::response::Responder<'_, 'static>>::respond_to(Some(t.clone()), lreq.inner());
        r.map_or_else(status, |r| rocket(rt, r))
    })));
    v.push(("actix Option", false, Some(actix(rt, actix_web::Responder::respond_to(Some(t.clone()), &areq).map_into_boxed_body()))));
    v
}

/// `partial`: texts of the template that must not be sent when it failed.
fn check<T>(c: &mut Ctx, name: &str, t: T, want: Result<String, Option<&str>>, mime: &str)
where
    T: Template + Clone + actix_web::Responder<Body = actix_web::body::BoxBody> + axum::response::IntoResponse + warp::Reply,
    T: for<'r> rocket::response::Responder<'r, 'static>,
{
    c.counts[0] += 1;
    let mut bad = vec![];
    if T::MIME_TYPE != mime {
        bad.push((format!("{name} MIME_TYPE"), format!("expected {mime:?}, got {:?}", T::MIME_TYPE)));
    }
    let rendered = t.render();
    match (&want, &rendered) {
        (Ok(w), Ok(g)) if w == g => {}
        (Err(_), Err(_)) => {}
        _ => bad.push((format!("{name} render"), format!("expected {want:?}\ngot {rendered:?}"))),
    }
    for (how, tried, a) in responses::<T>(c, &t) {
        c.counts[1] += 1;
        c.counts[2] += 1;
        let key = format!("{how}: {name}");
        if let Some(a) = &a {
            if a.sizes.iter().any(|n| *n != a.body.len() as u64) {
                bad.push((key.clone(), format!("the body has {} bytes, announced are {:?}", a.body.len(), a.sizes)));
            }
        }
        match (&want, a) {
            (Ok(w), Some(a)) => {
                if a.status != 200 || a.content_type != [mime] || a.body != w.as_bytes() {
                    bad.push((key, format!("expected 200, {mime:?}, body {w:?}\ngot {}, {:?}, body {:?}", a.status, a.content_type, String::from_utf8_lossy(&a.body))));
                }
            }
            (Err(_), None) if tried => {}
            (Err(_), Some(a)) if !tried => {
                if !(500..600).contains(&a.status) {
                    bad.push((key, format!("rendering fails, expected a server error\ngot {}, {:?}, body {:?}", a.status, a.content_type, String::from_utf8_lossy(&a.body))));
                } else if String::from_utf8_lossy(&a.body).contains("partial") {
                    bad.push((key, format!("the error response contains rendered text: {:?}", String::from_utf8_lossy(&a.body))));
                }
            }
            (_, a) => bad.push((key, format!("expected {want:?}, got {a:?}"))),
        }
    }
    // The error itself.
    if let Err(Some(m)) = &want {
        let errs = [askama_actix::try_into_response(&t).err(), askama_axum::try_into_response(&t).err(), askama_warp::try_into_response(&t).err(), askama_rocket::try_into_response(&t).err()];
        for (k, e) in errs.iter().enumerate() {
            c.counts[2] += 1;
            if e.as_ref().map(|e| e.to_string()).as_deref() != Some(*m) {
                bad.push((format!("try_into_response {k}: {name}"), format!("expected the error {m:?}, got {e:?}")));
            }
        }
    }
    if c.samples.len() < 6 && c.counts[0] % 41 == 1 {
        c.samples.push(format!("{name} -> {want:?}"));
    }
    c.log.extend(bad);
}

macro_rules! family {
    ($($t:ident $ext:literal $mime:literal $esc:expr, $es:literal;)*) => {
        $(
            #[derive(Template, Clone)]
            #[template(source = "partial {{ a }}-{% for x in xs %}{{ x.get()? }},{% endfor %}{{ b.get()? }}.", ext = $ext, escape = $es)]
            struct $t { a: Val, xs: Vec<Val>, b: Val }
        )*
        fn families(c: &mut Ctx, a: Val, xs: &[Val], b: Val) {
            $(
                let name = format!("{} {a:?} {xs:?} {b:?}", $ext);
                let w = expect($esc, a, xs, b);
                let t = $t { a, xs: xs.to_vec(), b };
                match catch(|| check(c, &name, t, w, $mime)) {
                    Ok(()) => {}
                    Err(e) => c.log.push((name, format!("panic: {e}"))),
                }
            )*
        }
    };
}

fn expect(esc: Esc, a: Val, xs: &[Val], b: Val) -> Result<String, Option<&'static str>> {
    let mut o = String::from("partial ");
    let put = |v: Val, q: bool| -> Result<String, Option<&'static str>> {
        match v {
            Val::Ok(s) => Ok(match esc {
                Esc::Html => vkit::model::escape_html(s),
                Esc::Text => s.to_string(),
            }),
            Val::Err(e) if q => Err(Some(e)),
            _ => Err(None),
        }
    };
    o += &put(a, false)?;
    o += "-";
    for x in xs {
        o += &put(*x, true)?;
        o += ",";
    }
    o += &put(b, true)?;
    o += ".";
    Ok(o)
}

family! {
    THtml "html" "text/html; charset=utf-8" Esc::Html, "html";
    THtm "htm" "text/html; charset=utf-8" Esc::Html, "html";
    TSvg "svg" "image/svg+xml" Esc::Html, "html";
    TXml "xml" "text/xml" Esc::Html, "html";
    TTxt "txt" "text/plain; charset=utf-8" Esc::Text, "none";
    TCss "css" "text/css; charset=utf-8" Esc::Text, "none";
    TCsv "csv" "text/csv; charset=utf-8" Esc::Text, "none";
    TTsv "tsv" "text/tab-separated-values; charset=utf-8" Esc::Text, "none";
    TJs "js" "text/javascript" Esc::Text, "none";
    TJson "json" "application/json" Esc::Text, "none";
    TPng "png" "image/png" Esc::Text, "none";
    TPdf "pdf" "application/pdf" Esc::Text, "none";
    TOdd "qqq" "application/octet-stream" Esc::Text, "none";
}

#[derive(Template, Clone)]
#[template(source = "{{ v }}", ext = "html")]
struct Body<'a> {
    v: &'a str,
}
#[derive(Template, Clone)]
#[template(source = "{{ v }}{{ w }}", ext = "txt")]
struct Generic<'a, T: Display + Clone, const N: usize>
where
    T: Send + Sync,
{
    v: T,
    w: &'a str,
}

/// Forms of types: the macro checks each of them with the value made by the expression.
macro_rules! forms {
    ($($name:literal: [$($item:tt)*] $make:expr;)*) => {
        fn forms(c: &mut Ctx, v: &'static str, other: &'static str) {
            $({
                $($item)*
                let make: fn(&'static str, &'static str) -> _ = $make;
                check(c, &format!(concat!($name, " {:?} {:?}"), v, other), make(v, other), Ok(format!("<b>{}</b>{}", vkit::model::escape_html(v), vkit::model::escape_html(other))), "text/html; charset=utf-8");
            })*
        }
    };
}
macro_rules! template {
    ($($item:tt)*) => {
        #[derive(Template, Clone)]
        #[template(source = "<b>{{ v }}</b>{{ w }}", ext = "html")]
        $($item)*
    };
}
use std::marker::PhantomData;
forms! {
    "no parameters": [template! { struct T { v: &'static str, w: String } }] |v, w| T { v, w: w.into() };
    "unit-like visibility": [template! { pub(crate) struct T { pub v: String, pub(crate) w: String } }] |v, w| T { v: v.into(), w: w.into() };
    "two lifetimes": [template! { struct T<'a, 'b> { v: &'a str, w: &'b str } }] |v, w| T { v, w };
    "bounded lifetimes": [template! { struct T<'a, 'b: 'a> { v: &'a str, w: &'a &'b str } }] |v, w| T { v, w: Box::leak(Box::new(w)) };
    "lifetimes in where": [template! { struct T<'a, 'b> where 'b: 'a, 'a: 'a { v: &'a str, w: &'a &'b str } }] |v, w| T { v, w: Box::leak(Box::new(w)) };
    "names of lifetimes": [template! { struct T<'r, 'o, 'c, 'f, 'writer> { v: &'r str, w: &'o str, l: PhantomData<&'c &'f &'writer ()> } }] |v, w| T { v, w, l: PhantomData };
    "a bounded type": [template! { struct T<G: Display + Clone + Send> { v: G, w: G } }] |v, w| T { v: v.to_string(), w: w.to_string() };
    "a type in where": [template! { struct T<G> where G: Display + Send { v: G, w: &'static str } }] |v, w| T { v, w };
    "where with a comma": [template! { struct T<G, H,> where G: Display, G: Send, H: Display + Send, { v: G, w: H } }] |v, w| T { v: v.to_string(), w };
    "a default": [template! { struct T<G: Display + Send = String> { v: G, w: &'static str } }] |v, w| T::<String> { v: v.into(), w };
    "a default and where": [template! { struct T<'a, G = &'static str> where G: Display + Send + 'a { v: G, w: &'a str } }] |v, w| T { v, w };
    "unsized": [
        #[derive(Template)]
        #[template(source = "<b>{{ v }}</b>{{ w }}", ext = "html")]
        struct T<'a, G: ?Sized + Display + Sync> { v: &'a G, w: Box<str> }
        impl<'a, G: ?Sized + Display + Sync> Clone for T<'a, G> { fn clone(&self) -> Self { T { v: self.v, w: self.w.clone() } } }
    ] |v, w| T::<str> { v, w: w.into() };
    "higher-ranked": [template! { struct T<G: Send> where for<'x> &'x G: Display { v: G, w: G } }] |v, w| T { v, w };
    "a bound on another type": [template! { struct T<G> where [G; 1]: Clone + Send, G: Display + Send, Vec<G>: Sized { v: G, w: String } }] |v, w| T { v, w: w.into() };
    "associated": [template! { struct T<I: Iterator + Send + Clone> where I::Item: Display { v: &'static str, w: String, i: PhantomData<I> } }] |v, w| T::<std::ops::Range<u8>> { v, w: w.into(), i: PhantomData };
    "equal associated": [template! { struct T<D: std::ops::Deref<Target = U> + Display + Send, U: Display> { v: D, w: D } }] |v, w| T { v: std::sync::Arc::new(v.to_string()), w: std::sync::Arc::new(w.to_string()) };
    "const": [template! { struct T<const N: usize> { v: &'static str, w: String, n: [u8; N] } }] |v, w| T { v, w: w.into(), n: [1; 3] };
    "const with a default": [template! { struct T<const N: usize = 4, const B: bool = { true }> { v: &'static str, w: String } }] |v, w| T::<5> { v, w: w.into() };
    "all of them": [template! { struct T<'a, 'b: 'a, G: Display + Send, const N: usize, H = [u8; N]> where H: Clone + Send, G: 'b, 'b: 'a { v: &'a str, w: G, l: PhantomData<(&'a &'b (), H, [G; N])> } }] |v, w| T::<_, 2, [u8; 2]> { v, w, l: PhantomData };
    "names of types": [template! { struct T<Response: Display + Send, Body: Send, Request: Send, Result_: Send, Error: Send, Reply: Send, R: Send> { v: Response, w: &'static str, l: PhantomData<(Body, Request, Result_, Error, Reply, R)> } }] |v, w| T::<_, (), (), (), (), (), ()> { v, w, l: PhantomData };
    "a raw name": [template! { struct r#type<'r#a> { v: &'r#a str, w: String } }] |v, w| r#type { v, w: w.into() };
    "shadowed names": [
        #[allow(dead_code)] mod shadow {
            pub struct Response; pub struct HttpResponse; pub struct Body; pub struct Request; pub struct Result; pub struct Error; pub struct Status; pub trait Responder {} pub trait IntoResponse {} pub trait Reply {}
            pub mod http {} pub mod hyper {} pub mod core {} pub mod askama {} pub mod actix_web {} pub mod axum {} pub mod axum_core {} pub mod warp {} pub mod rocket {} pub mod askama_axum {} pub mod askama_warp {} pub mod askama_rocket {} pub mod askama_actix {}
            #[derive(::askama::Template, Clone)]
            #[template(source = "<b>{{ v }}</b>{{ w }}", ext = "html")]
            pub struct T { pub v: &'static str, pub w: String }
        }
    ] |v, w| shadow::T { v, w: w.into() };
}

fn main() {
    vkit::iso::hook();
    let mut p = Part::from_args();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let fig = rocket::Config::figment().merge(("log_level", "off"));
    let rocket = rt.block_on(rocket::local::asynchronous::Client::untracked(rocket::custom(fig))).unwrap();
    let mut c = Ctx { rt, rocket, log: vec![], counts: [0; 3], samples: vec![] };
    let t = thorough();
    // Every value succeeding or failing, in every combination.
    let vals = [Val::Ok("x"), Val::Ok(""), Val::Ok("<\u{e9}&\r\n>"), Val::Bad("partial"), Val::Bad(""), Val::Err("a cause: <>\r\n"), Val::Err("")];
    let n = if t { 3 } else { 2 };
    let mut lists: Vec<Vec<Val>> = vec![vec![]];
    let mut k = 0;
    while k < lists.len() {
        if lists[k].len() < n {
            for v in vals {
                let mut l = lists[k].clone();
                l.push(v);
                lists.push(l);
            }
        }
        k += 1;
    }
    for l in &lists {
        for a in if l.len() < 2 || t { &vals[..] } else { &vals[1..4] } {
            for b in if l.len() < 2 || t { &vals[..] } else { &vals[2..6] } {
                families(&mut c, *a, l, *b);
            }
        }
        if c.log.len() > 60 {
            break;
        }
    }
    // Bodies: all short strings, and every size around the buffer sizes.
    let al = ['a', '<', '\u{e9}', '\n', '\0', '\u{1f600}'];
    let mut bodies = vec![String::new()];
    let mut k = 0;
    while k < bodies.len() {
        if bodies[k].chars().count() < if t { 4 } else { 3 } {
            for ch in al {
                let mut s = bodies[k].clone();
                s.push(ch);
                bodies.push(s);
            }
        }
        k += 1;
    }
    for e in 3..17 {
        for d in [-1i32, 0, 1] {
            bodies.push("y".repeat(((1 << e) + d) as usize));
            bodies.push("\u{20ac}".repeat(((1 << e) + d) as usize / 3));
        }
    }
    for b in &bodies {
        let name = if b.len() < 40 { format!("body {b:?}") } else { format!("body of {} bytes", b.len()) };
        // Responder of a template that borrows is not 'static, so it is leaked.
        let s: &'static str = Box::leak(b.clone().into_boxed_str());
        check(&mut c, &name, Body { v: s }, Ok(vkit::model::escape_html(b)), "text/html; charset=utf-8");
        check(&mut c, &format!("generic {name}"), Generic::<'static, String, 3> { v: b.clone(), w: s }, Ok(format!("{b}{b}")), "text/plain; charset=utf-8");
    }
    for b in bodies.iter().filter(|b| b.len() < 8) {
        for w in ["", "<\u{e9}>"] {
            let v: &'static str = Box::leak(b.clone().into_boxed_str());
            forms(&mut c, v, w);
        }
    }
    for (k, n) in ["states", "transitions", "traces"].iter().zip(c.counts) {
        p.add(k, n);
    }
    for s in c.samples {
        p.sample(s);
    }
    c.log.sort_by_key(|(k, _)| (k.len(), k.clone()));
    for (k, d) in c.log {
        p.violation(k, d);
    }
    p.finish();
}
