//! Comma-separated lists.
use crate::vs;
use proc_macro2::*;
use quote::{ToTokens, TokenStreamExt};
use venial::*;

type P = Punctuated<NamedField>;
fn comma() -> Punct {
    Punct::new(',', Spacing::Alone)
}
fn held(l: &P) -> Vec<NamedField> {
    let mut v = Vec::new();
    for x in l.inner.iter() {
        v.push(x.0.clone());
    }
    v
}
pub fn new() {
    let l: P = Punctuated::new();
    vs::require(l.is_empty(), "C15 a new list is empty");
    vs::require(l.len() == 0, "C15 a new list has length 0");
    let d: P = Default::default();
    vs::require(d.is_empty(), "C15 a default list is empty");
    let mut o = TokenStream::new();
    l.to_tokens(&mut o);
    vs::require(o.is_empty(), "C15 an empty list prints nothing");
}
pub fn len() {
    let l: P = vs::any();
    vs::require(l.len() == l.inner.len(), "C15 len() counts the items");
    vs::require(l.is_empty() == (l.inner.len() == 0), "C15 is_empty() means no items");
}
pub fn items() {
    let l: P = vs::any();
    let mut e: Vec<&NamedField> = Vec::new();
    for x in l.inner.iter() {
        e.push(&x.0);
    }
    let r: Vec<&NamedField> = l.items().collect();
    vs::same(r, e, "C15 items() yields every item in order");
}
pub fn punct() {
    let l: P = vs::any();
    let r: Vec<&Punct> = l.punct().collect();
    let mut e: Vec<&Punct> = Vec::new();
    let n = l.inner.len();
    if n > 0 {
        for x in l.inner[..n - 1].iter() {
            e.push(&x.1);
        }
        if !l.skip_last {
            e.push(&l.inner[n - 1].1);
        }
    }
    vs::same(r, e, "C15 punct() yields the separating commas and the last one only if present");
}
pub fn deref() {
    let l: P = vs::any();
    let r: &[(NamedField, Punct)] = &l;
    vs::same(r, &l.inner, "C15 a list derefs to its pairs");
    let mut m = l.clone();
    {
        let q: &mut [(NamedField, Punct)] = &mut m;
        vs::same(&*q, &l.inner, "C15 a list derefs to its pairs");
    }
}
pub fn push() {
    let l: P = vs::any();
    let v: NamedField = vs::any();
    let c: Option<Punct> = vs::any();
    let mut m = l.clone();
    m.push(v.clone(), c.clone());
    let mut e = held(&l);
    e.push(v.clone());
    vs::same(held(&m), e, "C15 push() appends the item");
    let mut o = TokenStream::new();
    m.to_tokens(&mut o);
    let mut x = TokenStream::new();
    for p in l.inner.iter() {
        p.0.to_tokens(&mut x);
        x.append(p.1.clone());
    }
    v.to_tokens(&mut x);
    if let Some(c) = &c {
        x.append(c.clone());
    }
    vs::same_tokens(o, x, "C15 after push() the items are separated by one comma, the given one last");
    vs::require(m.skip_last == c.is_none(), "C15 push() without comma marks the last comma as missing");
}
pub fn push_twice() {
    let a: NamedField = vs::any();
    let b: NamedField = vs::any();
    let c: Option<Punct> = vs::any();
    let d: Option<Punct> = vs::any();
    let mut l: P = Punctuated::new();
    l.push(a.clone(), c.clone());
    l.push(b.clone(), d.clone());
    let mut o = TokenStream::new();
    l.to_tokens(&mut o);
    let mut x = TokenStream::new();
    a.to_tokens(&mut x);
    match c {
        Some(c) => x.append(c),
        None => x.append(comma()),
    }
    b.to_tokens(&mut x);
    if let Some(d) = d {
        x.append(d);
    }
    vs::same_tokens(o, x, "C15 consecutive items are separated by exactly one comma");
}
fn inserted(l: &P, i: usize, v: &NamedField) -> Vec<NamedField> {
    let mut e = held(l);
    e.insert(i, v.clone());
    e
}
fn insert_at_helper(l: P, i: usize, v: NamedField, c: Option<Punct>) {
    let mut m = l.clone();
    m.insert(i, v.clone(), c.clone());
    vs::same(held(&m), inserted(&l, i, &v), "C15 insert() places exactly one item at the index");
    let n = l.inner.len();
    let mut o = TokenStream::new();
    m.to_tokens(&mut o);
    let mut x = TokenStream::new();
    for p in l.inner[..i].iter() {
        p.0.to_tokens(&mut x);
        x.append(p.1.clone());
    }
    v.to_tokens(&mut x);
    if i == n {
        if let Some(c) = &c {
            x.append(c.clone());
        }
    } else {
        x.append(comma());
        for p in l.inner[i..n - 1].iter() {
            p.0.to_tokens(&mut x);
            x.append(p.1.clone());
        }
        l.inner[n - 1].0.to_tokens(&mut x);
        if !l.skip_last {
            x.append(l.inner[n - 1].1.clone());
        }
    }
    vs::same_tokens(o, x, "C15 after insert() the items are separated by exactly one comma");
}
pub fn insert_front() {
    insert_at_helper(vs::any(), 0, vs::any(), vs::any());
}
pub fn insert_end() {
    let l: P = vs::any();
    let n = l.inner.len();
    insert_at_helper(l, n, vs::any(), vs::any());
}
pub fn insert_second() {
    let l: P = vs::any();
    vs::assume(l.inner.len() >= 1);
    insert_at_helper(l, 1, vs::any(), vs::any());
}
pub fn insert_before_last() {
    let l: P = vs::any();
    let n = l.inner.len();
    vs::assume(n >= 1);
    insert_at_helper(l, n - 1, vs::any(), vs::any());
}
pub fn insert_past_end() {
    let mut l: P = vs::any();
    let n = l.inner.len();
    vs::panics();
    l.insert(n + 1, vs::any(), vs::any());
    vs::unreachable("C15 insert() past the end panics");
}
