//! Errors.
use crate::vs;
use proc_macro2::*;
use quote::TokenStreamExt;
use venial::*;

fn rendered(start: Span, end: Span, msg: &str, o: &mut TokenStream) {
    o.append(Ident::new("compile_error", start));
    let mut p = Punct::new('!', Spacing::Alone);
    p.set_span(start);
    o.append(p);
    let mut lit = Literal::string(msg);
    lit.set_span(end);
    let mut inner = TokenStream::new();
    inner.append(lit);
    let mut g = Group::new(Delimiter::Brace, inner);
    g.set_span(end);
    o.append(g);
}
fn check(e: &Error, start: Span, end: Span, msg: &str) {
    let mut o = TokenStream::new();
    rendered(start, end, msg, &mut o);
    vs::same_tokens(e.to_compile_error(), o, "C16 an error renders one compile_error with its text at its location [loc]");
    vs::same(e.to_string(), msg.to_string(), "C16 the text of an error is its first message");
    vs::same(e.span(), start.join(end).unwrap_or(start), "C16 the location of an error is its first message's");
}
pub fn new() {
    let m: String = vs::any();
    let e = Error::new(&m);
    check(&e, Span::call_site(), Span::call_site(), &m);
}
pub fn new_at_span() {
    let m: String = vs::any();
    let s: Span = vs::any();
    let e = Error::new_at_span(s, &m);
    check(&e, s, s, &m);
}
pub fn new_at_tokens() {
    let m: String = vs::any();
    let t: TokenStream = vs::any();
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    let e = Error::new_at_tokens(t, &m);
    if v.is_empty() {
        check(&e, Span::call_site(), Span::call_site(), &m);
    } else {
        check(&e, v[0].span(), v[v.len() - 1].span(), &m);
    }
}
pub fn combine_renders() {
    let a: Error = vs::any();
    let b: Error = vs::any();
    let mut o = a.to_compile_error();
    o.extend(b.to_compile_error());
    let mut c = a.clone();
    c.combine(b);
    vs::same_tokens(c.to_compile_error(), o, "C16 combining keeps both sides' messages in order [loc]");
}
pub fn combine_first() {
    let m: String = vs::any();
    let s: Span = vs::any();
    let b: Error = vs::any();
    let mut c = Error::new_at_span(s, &m);
    c.combine(b);
    vs::same(c.to_string(), m.clone(), "C16 the text of a combined error is its first message");
    vs::same(c.span(), s.join(s).unwrap_or(s), "C16 the location of a combined error is its first message's");
}
pub fn combine_two() {
    let (m, n): (String, String) = (vs::any(), vs::any());
    let (s, t): (Span, Span) = (vs::any(), vs::any());
    let mut c = Error::new_at_span(s, &m);
    c.combine(Error::new_at_span(t, &n));
    let mut o = TokenStream::new();
    rendered(s, s, &m, &mut o);
    rendered(t, t, &n, &mut o);
    vs::same_tokens(c.to_compile_error(), o, "C16 two combined errors render in order [loc]");
}
