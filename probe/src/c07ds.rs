//! Separators inside many angle brackets, in long elements and long lists.
use crate::c07p::split;
use crate::vs;
use proc_macro2::*;
use venial::*;

fn is(t: &TokenTree, c: char) -> bool {
    match t {
        TokenTree::Punct(p) => p.as_char() == c,
        _ => false,
    }
}
fn id(w: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(w, Span::call_site()))
}
fn pn(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
fn grp(d: Delimiter, v: Vec<TokenTree>) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
/// `A<A<...A< t, u >...>>`: the tokens inside are neither brackets nor dashes
fn helper_nest(n: usize) -> Vec<TokenTree> {
    let (t, u): (TokenTree, TokenTree) = (vs::any(), vs::any());
    vs::assume(!is(&t, '<') && !is(&t, '>') && !is(&t, '-') && !is(&u, '<') && !is(&u, '>') && !is(&u, '-'));
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(id("A"));
        v.push(pn('<'));
        i += 1;
    }
    v.push(t);
    v.push(pn(','));
    v.push(u);
    let mut i = 0;
    while i < n {
        v.push(pn('>'));
        i += 1;
    }
    v
}
fn cat(before: Vec<TokenTree>, ts: &Vec<TokenTree>, after: Vec<TokenTree>) -> Vec<TokenTree> {
    let mut v = before;
    for t in ts.iter() {
        v.push(t.clone());
    }
    for t in after {
        v.push(t);
    }
    v
}
fn item(v: Vec<TokenTree>) -> Item {
    let s: TokenStream = v.into_iter().collect();
    vs::no_panic("C07 a balanced element is accepted");
    let r = parse_item(s);
    vs::panics();
    match r {
        Ok(i) => i,
        Err(_) => {
            vs::unreachable("C07 a balanced element is accepted");
            panic!()
        }
    }
}
fn ends(a: Vec<TokenTree>, b: Vec<TokenTree>) {
    vs::same(a, b, "C07 an element inside many brackets ends at the separator outside all of them");
}
pub fn deep_tuple() {
    let ts = helper_nest(40);
    let body = cat(vec![], &ts, vec![pn(','), id("B")]);
    if let Item::Struct(s) = item(vec![id("struct"), id("S"), grp(Delimiter::Parenthesis, body), pn(';')]) {
        if let Fields::Tuple(f) = s.fields {
            vs::require(f.fields.inner.len() == 2, "C07 an element inside many brackets ends at the separator outside all of them");
            ends(f.fields.inner[0].0.ty.tokens.clone(), ts);
        }
    }
}
pub fn deep_named() {
    let ts = helper_nest(20);
    let body = cat(vec![id("a"), pn(':')], &ts, vec![pn(','), id("b"), pn(':'), id("B")]);
    if let Item::Struct(s) = item(vec![id("struct"), id("S"), grp(Delimiter::Brace, body)]) {
        if let Fields::Named(f) = s.fields {
            ends(f.fields.inner[0].0.ty.tokens.clone(), ts);
        }
    }
}
pub fn deep_fn_param() {
    let ts = helper_nest(20);
    let body = cat(vec![id("a"), pn(':')], &ts, vec![pn(','), id("b"), pn(':'), id("B")]);
    if let Item::Function(f) = item(vec![id("fn"), id("f"), grp(Delimiter::Parenthesis, body), pn(';')]) {
        if let FnParam::Typed(p) = f.params.inner[0].0.clone() {
            ends(p.ty.tokens, ts);
        }
    }
}
pub fn deep_fn_return() {
    let ts = helper_nest(20);
    let before = vec![id("fn"), id("f"), grp(Delimiter::Parenthesis, Vec::new()), TokenTree::Punct(Punct::new('-', Spacing::Joint)), pn('>')];
    if let Item::Function(f) = item(cat(before, &ts, vec![pn(';')])) {
        ends(f.return_ty.unwrap().tokens, ts);
    }
}
pub fn deep_param_bound() {
    let ts = helper_nest(20);
    let before = vec![id("struct"), id("S"), pn('<'), id("T"), pn(':')];
    if let Item::Struct(s) = item(cat(before, &ts, vec![pn(','), id("U"), pn('>'), pn(';')])) {
        ends(s.generic_params.unwrap().params.inner[0].0.bound.clone().unwrap().tokens, ts);
    }
}
pub fn deep_last_param_bound() {
    let ts = helper_nest(20);
    let before = vec![id("struct"), id("S"), pn('<'), id("T"), pn(':')];
    if let Item::Struct(s) = item(cat(before, &ts, vec![pn('>'), pn(';')])) {
        ends(s.generic_params.unwrap().params.inner[0].0.bound.clone().unwrap().tokens, ts);
    }
}
pub fn deep_where_bound() {
    let ts = helper_nest(20);
    let before = vec![id("struct"), id("S"), id("where"), id("T"), pn(':')];
    if let Item::Struct(s) = item(cat(before, &ts, vec![pn(','), id("U"), pn(':'), id("B"), pn(';')])) {
        ends(s.where_clause.unwrap().items.inner[0].0.bound.tokens.clone(), ts);
    }
}
pub fn deep_where_type() {
    let ts = helper_nest(20);
    let before = vec![id("struct"), id("S"), id("where")];
    if let Item::Struct(s) = item(cat(before, &ts, vec![pn(':'), id("B"), pn(';')])) {
        ends(s.where_clause.unwrap().items.inner[0].0.left_side.clone(), ts);
    }
}
pub fn deep_const() {
    let ts = helper_nest(20);
    if let Item::Constant(c) = item(cat(vec![id("const"), id("S"), pn(':')], &ts, vec![pn('='), id("v"), pn(';')])) {
        ends(c.ty.tokens, ts);
    }
}
pub fn deep_alias() {
    let ts = helper_nest(20);
    if let Item::TypeAlias(c) = item(cat(vec![id("type"), id("S"), pn('=')], &ts, vec![pn(';')])) {
        ends(c.initializer_ty.unwrap().tokens, ts);
    }
}
pub fn deep_impl_trait() {
    let ts = helper_nest(20);
    if let Item::Impl(c) = item(cat(vec![id("impl")], &ts, vec![id("for"), id("X"), grp(Delimiter::Brace, Vec::new())])) {
        ends(c.trait_ty.unwrap().tokens, ts);
    }
}
pub fn deep_impl_self() {
    let ts = helper_nest(20);
    if let Item::Impl(c) = item(cat(vec![id("impl"), id("T"), id("for")], &ts, vec![grp(Delimiter::Brace, Vec::new())])) {
        ends(c.self_ty.tokens, ts);
    }
}
pub fn deep_trait_bound() {
    let ts = helper_nest(20);
    if let Item::Trait(c) = item(cat(vec![id("trait"), id("T"), pn(':')], &ts, vec![grp(Delimiter::Brace, Vec::new())])) {
        ends(c.bound.unwrap().tokens, ts);
    }
}
pub fn deep_generic_arg() {
    let ts = helper_nest(20);
    let ty = TypeExpr { tokens: cat(vec![id("A"), pn('<')], &ts, vec![pn(','), id("B"), pn('>')]) };
    vs::no_panic("C07 a balanced argument list is accepted");
    let p = ty.as_path();
    vs::panics();
    match p {
        None => vs::unreachable("C07 a balanced argument list is accepted"),
        Some(p) => {
            let a = p.segments[0].generic_args.clone().unwrap();
            vs::require(a.args.inner.len() == 2, "C07 arguments end at the separators outside angle brackets");
        }
    }
}
/// many tokens, none of them a separator
fn helper_long(n: usize) -> Vec<TokenTree> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(id("A"));
        i += 1;
    }
    let t: TokenTree = vs::any();
    vs::assume(!is(&t, '<') && !is(&t, '>') && !is(&t, '-') && !is(&t, ','));
    v.push(t);
    v
}
pub fn long_tuple() {
    let ts = helper_long(60);
    let body = cat(vec![], &ts, vec![pn(','), id("B")]);
    if let Item::Struct(s) = item(vec![id("struct"), id("S"), grp(Delimiter::Parenthesis, body), pn(';')]) {
        if let Fields::Tuple(f) = s.fields {
            vs::require(f.fields.inner.len() == 2, "C07 a long element ends at its separator");
            vs::same(f.fields.inner[0].0.ty.tokens.clone(), ts, "C07 a long element ends at its separator");
        }
    }
}
pub fn long_fn_param() {
    let ts = helper_long(60);
    let body = cat(vec![id("a"), pn(':')], &ts, vec![pn(','), id("b"), pn(':'), id("B")]);
    if let Item::Function(f) = item(vec![id("fn"), id("f"), grp(Delimiter::Parenthesis, body), pn(';')]) {
        if let FnParam::Typed(p) = f.params.inner[0].0.clone() {
            vs::same(p.ty.tokens, ts, "C07 a long element ends at its separator");
        }
    }
}
pub fn many_fields() {
    let mut body = Vec::new();
    let mut i = 0;
    while i < 30 {
        let t: Ident = vs::any();
        vs::assume(t != "pub" && t != "crate");
        body.push(TokenTree::Ident(t));
        body.push(pn(','));
        i += 1;
    }
    let want = split(&body).unwrap();
    if let Item::Struct(s) = item(vec![id("struct"), id("S"), grp(Delimiter::Parenthesis, body), pn(';')]) {
        let mut r: Vec<Vec<TokenTree>> = Vec::new();
        if let Fields::Tuple(f) = s.fields {
            for (f, _) in f.fields.inner {
                r.push(f.ty.tokens);
            }
        }
        vs::same(r, want, "C07 each of many elements ends at its separator");
    }
}
pub fn many_params() {
    let mut v = vec![id("struct"), id("S"), pn('<')];
    let mut want: Vec<Ident> = Vec::new();
    let mut i = 0;
    while i < 30 {
        let t: Ident = vs::any();
        vs::assume(t != "const");
        want.push(t.clone());
        v.push(TokenTree::Ident(t));
        v.push(pn(','));
        i += 1;
    }
    v.push(pn('>'));
    v.push(pn(';'));
    if let Item::Struct(s) = item(v) {
        let mut r: Vec<Ident> = Vec::new();
        for (f, _) in s.generic_params.unwrap().params.inner {
            r.push(f.name);
        }
        vs::same(r, want, "C07 each of many elements ends at its separator");
    }
}
