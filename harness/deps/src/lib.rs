//! Builds askama for the cases that are compiled with plain rustc.
pub use askama;
