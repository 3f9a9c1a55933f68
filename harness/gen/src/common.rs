//! Calls the derive of /repo as a function.
#![allow(dead_code)]
use proc_macro2::TokenStream;
use std::str::FromStr;
pub use vkit::iso::{self, catch, Log};
pub use vkit::part::{thorough, Part};

pub enum Out {
    Code(String),
    /// The message of compile_error!.
    Error(String),
    Panic(String),
}

pub fn rust_str(s: &str) -> String {
    format!("{s:?}")
}

pub fn input(attrs: &str, fields: &str) -> TokenStream {
    TokenStream::from_str(&format!("#[template({attrs})] struct T {{ {fields} }}")).expect("harness: derive input")
}

/// Derives once.
pub fn derive(attrs: &str, fields: &str) -> Out {
    derive_ts(input(attrs, fields))
}

pub fn derive_ts(t: TokenStream) -> Out {
    let r = catch(|| {
        let o = askama_derive::derive_template(t);
        let mut it = o.clone().into_iter();
        let first = it.next().map(|t| t.to_string()).unwrap_or_default();
        // `compile_error` or `::core::compile_error`
        let text = o.to_string();
        let head: String = text.chars().take(60).collect();
        if first == "compile_error" || head.replace(' ', "").starts_with("::core::compile_error!") {
            Out::Error(message(&o))
        } else {
            Out::Code(text)
        }
    });
    match r {
        Ok(o) => o,
        Err(p) => Out::Panic(p),
    }
}

/// The first string literal, that is the argument of compile_error!.
fn message(o: &TokenStream) -> String {
    for t in o.clone() {
        match t {
            proc_macro2::TokenTree::Group(g) => {
                let m = message(&g.stream());
                if !m.is_empty() {
                    return m;
                }
            }
            proc_macro2::TokenTree::Literal(l) => {
                return syn::parse_str::<syn::LitStr>(&l.to_string()).map(|s| s.value()).unwrap_or_else(|_| l.to_string());
            }
            _ => {}
        }
    }
    String::new()
}

/// Is this a Rust file?
pub fn valid(code: &str) -> Result<(), String> {
    syn::parse_str::<syn::File>(code).map(|_| ()).map_err(|e| e.to_string())
}

pub fn source(src: &str, ext: &str) -> String {
    format!("source = {}, ext = {:?}", rust_str(src), ext)
}

pub fn short(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let h: String = s.chars().take(n).collect();
        format!("{h}... ({} characters)", s.chars().count())
    }
}
