//! Reading a type as a path keeps its tokens or declines.
use crate::vs;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

fn helper_same(t: TypeExpr, ts: TokenStream) {
    if let Some(p) = t.as_path() {
        vs::same_tokens(p.to_token_stream(), ts.clone(), "C19 a path prints as the tokens of the type");
        vs::same_tokens(p.to_token_stream(), ts, "C02 a path keeps the locations of the type [loc]");
    }
}
pub fn any_type() {
    let t: TypeExpr = vs::any();
    // (an invisible group around the type: below)
    if let [TokenTree::Group(g)] = t.tokens.as_slice() {
        vs::assume(g.delimiter() != Delimiter::None);
    }
    let ts: TokenStream = t.tokens.iter().cloned().collect();
    helper_same(t, ts);
}
pub fn invisible_group() {
    let ts: TokenStream = vs::any();
    let t = TypeExpr { tokens: vec![TokenTree::Group(Group::new(Delimiter::None, ts.clone()))] };
    helper_same(t, ts);
}
pub fn segments() {
    let t: TypeExpr = vs::any();
    if let Some(p) = t.as_path() {
        helper_path(&p);
    }
}
fn helper_path(p: &Path) {
    for s in p.segments.iter() {
        aside_segment(s);
    }
    vs::require(!p.segments.is_empty(), "C19 a path has a segment");
}
fn aside_ch(p: &Punct, c: char) {
    vs::require(p.as_char() == c, "C19 punctuation slot of a path holds its token");
}
fn aside_colons(c: &[Punct; 2]) {
    aside_ch(&c[0], ':');
    aside_ch(&c[1], ':');
}
fn aside_segment(s: &PathSegment) {
    if let Some(c) = &s.tk_separator_colons {
        aside_colons(c);
    }
    if let Some(g) = &s.generic_args {
        if let Some(c) = &g.tk_turbofish_colons {
            aside_colons(c);
        }
        aside_ch(&g.tk_l_bracket, '<');
        aside_ch(&g.tk_r_bracket, '>');
        for (a, comma) in g.args.inner.iter() {
            aside_ch(comma, ',');
            aside_arg(a);
        }
    }
}
fn aside_arg(a: &GenericArg) {
    match a {
        GenericArg::Lifetime { lifetime } => aside_ch(&lifetime.tk_apostrophe, '\''),
        GenericArg::Binding { tk_equals, .. } => aside_ch(tk_equals, '='),
        GenericArg::TypeOrConst { .. } => {}
    }
}

/// The names of `[::] a :: b :: ..`, or None.
fn names(ts: &Vec<TokenTree>) -> Option<Vec<Ident>> {
    let mut r = Vec::new();
    let mut i = 0;
    if let Some(TokenTree::Punct(_)) = ts.get(0) {
        if !colon2(ts, 0) {
            return None;
        }
        i = 2;
    }
    loop {
        match ts.get(i) {
            Some(TokenTree::Ident(x)) => r.push(x.clone()),
            _ => return None,
        }
        i += 1;
        if i == ts.len() {
            return Some(r);
        }
        if !colon2(ts, i) {
            return None;
        }
        i += 2;
    }
}
fn colon2(ts: &Vec<TokenTree>, i: usize) -> bool {
    match (ts.get(i), ts.get(i + 1)) {
        (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) => a.as_char() == ':' && a.spacing() == Spacing::Joint && b.as_char() == ':',
        _ => false,
    }
}
fn helper_plain(ts: Vec<TokenTree>) {
    for t in ts.iter() {
        match t {
            TokenTree::Punct(p) => vs::assume(p.as_char() != '<'),
            TokenTree::Group(g) => vs::assume(g.delimiter() != Delimiter::None),
            _ => {}
        }
    }
    let want = names(&ts);
    vs::no_panic("C19 a type without generic arguments is a path or not");
    let got = TypeExpr { tokens: ts }.as_path();
    vs::panics();
    match (got, want) {
        (Some(p), Some(w)) => {
            let mut g: Vec<Ident> = Vec::new();
            for s in p.segments.iter() {
                g.push(s.ident.clone());
                vs::require(s.generic_args.is_none(), "C19 no generic arguments are invented");
            }
            vs::same(g, w, "C19 segments are the names in order");
        }
        (None, None) => {}
        (Some(_), None) => vs::unreachable("C19 only paths are read as paths"),
        (None, Some(_)) => vs::unreachable("C19 paths are recognised"),
    }
}
pub fn plain1() {
    let a: TokenTree = vs::any();
    helper_plain(vec![a]);
}
pub fn plain2() {
    let (a, b): (TokenTree, TokenTree) = (vs::any(), vs::any());
    helper_plain(vec![a, b]);
}
pub fn plain3() {
    let (a, b, c): (TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any());
    helper_plain(vec![a, b, c]);
}
pub fn plain4() {
    let (a, b, c, d): (TokenTree, TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any(), vs::any());
    helper_plain(vec![a, b, c, d]);
}
pub fn plain7() {
    let (a, b, c, d): (TokenTree, TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any(), vs::any());
    let (e, f, g): (TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any());
    let ts = vec![a, b, c, d, e, f, g];
    // names and colons only
    for t in ts.iter() {
        match t {
            TokenTree::Punct(p) => vs::assume(p.as_char() == ':'),
            TokenTree::Ident(_) => {}
            _ => vs::assume(false),
        }
    }
    helper_plain(ts);
}
/// `A<ts>`: the arguments are what is between the commas.
fn helper_args(ts: Vec<TokenTree>) {
    let Some(e) = crate::c07p::split(&ts) else { return };
    if let TokenTree::Punct(p) = &ts[ts.len() - 1] {
        // (an arrow with the bracket that follows)
        vs::assume(p.as_char() != '-');
    }
    let mut v = vec![
        TokenTree::Ident(Ident::new("A", Span::call_site())),
        TokenTree::Punct(Punct::new('<', Spacing::Alone)),
    ];
    for t in ts.iter() {
        v.push(t.clone());
    }
    v.push(TokenTree::Punct(Punct::new('>', Spacing::Alone)));
    match (TypeExpr { tokens: v }).as_path() {
        None => vs::unreachable("C19 a path with balanced arguments is recognised"),
        Some(p) => {
            let mut r: Vec<Vec<TokenTree>> = Vec::new();
            for (a, _) in p.segments[0].generic_args.clone().unwrap().args.inner {
                r.push(tokens_of(a));
            }
            vs::same(r, e, "C19 generic arguments are what is between the commas");
        }
    }
}
fn tokens_of(a: GenericArg) -> Vec<TokenTree> {
    match a {
        GenericArg::Lifetime { lifetime } => vec![TokenTree::Punct(lifetime.tk_apostrophe), TokenTree::Ident(lifetime.name)],
        GenericArg::Binding { ident, tk_equals, ty } => {
            let mut v = vec![TokenTree::Ident(ident), TokenTree::Punct(tk_equals)];
            v.extend(ty.tokens);
            v
        }
        GenericArg::TypeOrConst { expr } => {
            let ts = expr.tokens;
            if ts.len() > 1 {
                if let (TokenTree::Ident(_), TokenTree::Punct(p)) = (&ts[0], &ts[1]) {
                    vs::require(p.as_char() != '=', "C19 a binding is read as a binding");
                }
            }
            ts
        }
    }
}
pub fn args1() {
    let a: TokenTree = vs::any();
    helper_args(vec![a]);
}
pub fn args3() {
    let (a, b, c): (TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any());
    helper_args(vec![a, b, c]);
}
pub fn args4() {
    let (a, b, c, d): (TokenTree, TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any(), vs::any());
    helper_args(vec![a, b, c, d]);
}
