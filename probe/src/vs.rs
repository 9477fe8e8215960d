//! Intrinsics interpreted by the analyzer.
use proc_macro2::*;
/// An arbitrary value.
pub fn any<T>() -> T {
    panic!()
}
pub fn assume(_c: bool) {}
pub fn require(_c: bool, _what: &str) {}
pub fn same_tokens(_a: TokenStream, _b: TokenStream, _what: &str) {}
pub fn same<A, B>(_a: A, _b: B, _what: &str) {}
pub fn unreachable(_what: &str) {}
/// Panics on this path are announced by the documentation.
pub fn panics() {}
pub fn types(_: usize, _: bool, _: &str, _: char, _: Spacing, _: Delimiter, _: TokenTree, _: TokenStream) {}

pub fn formatter<'a>(_s: &'a mut String) -> &'a mut std::fmt::Formatter<'a> {
    panic!()
}

/// Inputs with one of these words outside all groups (where the code looks for it) are left to other harnesses.
pub fn elsewhere(_words: &str) {}
/// A panic from here on (until `panics`) violates this.
pub fn no_panic(_what: &str) {}
/// Arbitrary streams have at most this many tokens (two fewer inside each further group).
pub fn bounded(_n: usize) {}
