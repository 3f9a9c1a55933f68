//! Alphabets of the token sequences.
#![allow(dead_code)]

/// Item i of all sequences of length `n` over `t` tokens.
pub fn digits(mut i: usize, t: usize, n: usize) -> Vec<usize> {
    let mut d = vec![0; n];
    for k in (0..n).rev() {
        d[k] = i % t;
        i /= t;
    }
    d
}

pub const EXPR: &[&str] = &[
    "a", "1", "-1", "1.5", "\"s\"", "'c'", "true", "self", "loop", "(", ")", "[", "]", ",", ".", "..", "..=", "::", "|", "||", "&&", "&", "!", "-", "+", "*", "/", "==", "<", ">>", "?", "=", "len", "upper", "join", "0", "{", "}", "vec!", "crate", "super", "#", "\\", "as", "~", "é", "r#a", "ref", "caller", "safe",
];
pub const TAG: &[&str] = &[
    "if", "else", "elif", "endif", "for", "in", "endfor", "match", "when", "endmatch", "with", "let", "set", "=", "block", "endblock", "macro", "endmacro", "call", "filter", "endfilter", "raw", "endraw", "import", "as", "include", "extends", "super", "()", "(", ")", ",", "a", "b", "Some", "_", "0", "\"s\"", "'c'", ":", "::", "|", "upper", "..", "-", "~", "break", "continue", "{", "}", "or", "true", "!", "-1",
];
pub const RAW: &[&str] = &["{{", "}}", "{%", "%}", "{#", "#}", "a", " ", "\n", "\"", "'", "\\", "-", "+", "{", "}", "é", "raw", "endraw", "|", "(", ")", "if", "endif", "\u{0}", "1"];
pub const NUM: &[&str] = &["0", "1", "9", "_", ".", "e", "E", "+", "-", "x", "b", "o", "f", "32", "u", "8", "i", "a", "99999999999999999999"];
pub const STR: &[&str] = &["\\", "x", "u", "{", "}", "7", "8", "0", "n", "é", "\n", "\r", " ", "'", "\"", "d", "f", "q", "\u{0}", "%}", "}}", "#"];
pub const RUST: &[&str] = &["'", "\"", "\\", "a", "(", ")", "[", "]", "{", "}", "#", "`", "é", "1", "r#", "/*", "*/", "//", "\n", "$", " ", "@", "\u{0}", "€", "b'", "0b3", "self", "a.b", "}}", "%}", ","];
/// Whole tags.
pub const TAGS: &[&str] = &[
    "x", " ", "{{ a }}", "{{- s|upper -}}", "{% if a == 1 %}", "{% if let Some(b) = o %}", "{% else if b == 2 %}", "{% else %}", "{% endif %}", "{% for a in v %}", "{% endfor %}", "{% match o %}", "{% when Some with (b) %}", "{% when None %}", "{% endmatch %}", "{% let a = 1 %}", "{% let c %}", "{% let c = 2 %}", "{% let (a, b) = (b, a) %}",
    "{% block k %}", "{% block j %}", "{% endblock %}", "{% call super() %}", "{% macro m(a, b) %}", "{% endmacro %}", "{% call m(a, b) %}", "{% call m(b=1, a=2) %}", "{% filter upper %}", "{% endfilter %}", "{% raw %}", "{% endraw %}", "{% break %}", "{% continue %}", "{# c #}", "{{ loop.index }}", "{{ c }}", "{{ self.a }}", "{{ v|join(\", \")|safe }}", "{% macro n() %}",
    "{% call n() %}", "{% call x::m(a) %}",
];

