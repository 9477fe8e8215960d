//! Loop-level definitions of library functions, interpreted in place of the library's own code.
use proc_macro2::*;
use quote::ToTokens;
use std::iter::Peekable;

pub fn to_tokens<T: ToTokens>(x: &T, ts: &mut TokenStream) {
    ToTokens::to_tokens(x, ts)
}
pub fn print<T: ToTokens + ?Sized>(x: &T) -> TokenStream {
    let mut ts = TokenStream::new();
    x.to_tokens(&mut ts);
    ts
}
pub fn map<I: Iterator, B, F: FnMut(I::Item) -> B>(it: I, mut f: F) -> Vec<B> {
    let mut v = Vec::new();
    for x in it {
        v.push(f(x));
    }
    v
}
pub fn filter<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, mut f: P) -> Vec<I::Item> {
    let mut v = Vec::new();
    for x in it {
        if f(&x) {
            v.push(x);
        }
    }
    v
}
pub fn filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, mut f: F) -> Vec<B> {
    let mut v = Vec::new();
    for x in it {
        if let Some(y) = f(x) {
            v.push(y);
        }
    }
    v
}
pub fn flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: I, mut f: F) -> Vec<U::Item> {
    let mut v = Vec::new();
    for x in it {
        v.extend(f(x));
    }
    v
}
pub fn flatten<I: Iterator>(it: I) -> Vec<<I::Item as IntoIterator>::Item>
where
    I::Item: IntoIterator,
{
    let mut v = Vec::new();
    for x in it {
        v.extend(x);
    }
    v
}
pub fn zip<I: Iterator, U: IntoIterator>(it: I, o: U) -> Vec<(I::Item, U::Item)> {
    let mut v = Vec::new();
    let mut o = o.into_iter();
    for x in it {
        match o.next() {
            Some(y) => v.push((x, y)),
            None => break,
        }
    }
    v
}
pub fn inspect<I: Iterator, F: FnMut(&I::Item)>(it: I, mut f: F) -> Vec<I::Item> {
    let mut v = Vec::new();
    for x in it {
        f(&x);
        v.push(x);
    }
    v
}
pub fn take_while<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, mut f: P) -> Vec<I::Item> {
    let mut v = Vec::new();
    for x in it {
        if !f(&x) {
            break;
        }
        v.push(x);
    }
    v
}
pub fn skip_while<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, mut f: P) -> Vec<I::Item> {
    let mut it = it;
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        if !f(&x) {
            v.push(x);
            v.extend(it);
            break;
        }
    }
    v
}
pub fn map_while<I: Iterator, B, P: FnMut(I::Item) -> Option<B>>(it: I, mut f: P) -> Vec<B> {
    let mut v = Vec::new();
    for x in it {
        match f(x) {
            Some(y) => v.push(y),
            None => break,
        }
    }
    v
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, mut f: F) -> B {
    let mut b = init;
    for x in it {
        b = f(b, x);
    }
    b
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(it: I, mut f: F) {
    for x in it {
        f(x);
    }
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n {
        it.next()?;
        i += 1;
    }
    it.next()
}
pub fn collect_result<I: Iterator<Item = Result<T, E>>, T, E>(it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    for x in it {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn collect_option<I: Iterator<Item = Option<T>>, T>(it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    for x in it {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}
pub fn next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(it: &mut Peekable<I>, f: F) -> Option<I::Item> {
    match it.peek() {
        Some(x) if f(x) => it.next(),
        _ => None,
    }
}
pub fn next_if_eq<I: Iterator, R: ?Sized>(it: &mut Peekable<I>, r: &R) -> Option<I::Item>
where
    I::Item: PartialEq<R>,
{
    match it.peek() {
        Some(x) if x == r => it.next(),
        _ => None,
    }
}
pub fn contains<T: PartialEq>(l: &[T], y: &T) -> bool {
    for x in l.iter() {
        if x == y {
            return true;
        }
    }
    false
}
pub fn vec_map<T, U, F: FnMut(T) -> U>(l: Vec<T>, mut f: F) -> Vec<U> {
    let mut v = Vec::new();
    for x in l {
        v.push(f(x));
    }
    v
}
pub fn append_all<I: IntoIterator>(ts: &mut TokenStream, it: I)
where
    I::Item: ToTokens,
{
    for x in it {
        x.to_tokens(ts);
    }
}
pub fn append_separated<I: IntoIterator, U: ToTokens>(ts: &mut TokenStream, it: I, op: U)
where
    I::Item: ToTokens,
{
    let mut first = true;
    for x in it {
        if !first {
            op.to_tokens(ts);
        }
        first = false;
        x.to_tokens(ts);
    }
}
pub fn append_terminated<I: IntoIterator, U: ToTokens>(ts: &mut TokenStream, it: I, op: U)
where
    I::Item: ToTokens,
{
    for x in it {
        x.to_tokens(ts);
        op.to_tokens(ts);
    }
}

pub fn display<T: std::fmt::Display>(x: &T) -> String {
    let mut s = String::new();
    {
        let f = crate::vs::formatter(&mut s);
        let _ = x.fmt(f);
    }
    s
}
