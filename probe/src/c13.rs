//! Builders.
use crate::vs;
use proc_macro2::*;
use quote::{ToTokens, TokenStreamExt};
use venial::*;

fn comma(o: &mut TokenStream) {
    o.append(Punct::new(',', Spacing::Alone));
}
/// Printed list after `p` was added to `old`.
fn added(old: &Punctuated<GenericParam>, p: &GenericParam) -> TokenStream {
    let mut o = TokenStream::new();
    if p.is_lifetime() {
        p.to_tokens(&mut o);
        if old.inner.len() > 0 {
            comma(&mut o);
        }
        old.to_tokens(&mut o);
    } else {
        for x in old.inner.iter() {
            x.0.to_tokens(&mut o);
            x.1.to_tokens(&mut o);
        }
        p.to_tokens(&mut o);
    }
    o
}
fn items(old: &Punctuated<GenericParam>, p: &GenericParam) -> Vec<GenericParam> {
    let mut v = Vec::new();
    if p.is_lifetime() {
        v.push(p.clone());
    }
    for x in old.inner.iter() {
        v.push(x.0.clone());
    }
    if !p.is_lifetime() {
        v.push(p.clone());
    }
    v
}
fn held(l: &Punctuated<GenericParam>) -> Vec<GenericParam> {
    let mut v = Vec::new();
    for x in l.inner.iter() {
        v.push(x.0.clone());
    }
    v
}

pub fn list_with_param() {
    let l: GenericParamList = vs::any();
    let p: GenericParam = vs::any();
    let r = l.clone().with_param(p.clone());
    vs::same(held(&r.params), items(&l.params, &p), "C13 with_param() adds exactly the parameter, lifetimes first");
    let mut o = TokenStream::new();
    r.params.to_tokens(&mut o);
    vs::same_tokens(o, added(&l.params, &p), "C13 with_param() keeps the existing commas");
    vs::same(r.tk_l_bracket, l.tk_l_bracket, "C13 with_param() keeps the brackets");
    vs::same(r.tk_r_bracket, l.tk_r_bracket, "C13 with_param() keeps the brackets");
}

fn params_after(r: &Option<GenericParamList>, old: &Option<GenericParamList>, p: &GenericParam) {
    match (r, old) {
        (Some(r), Some(l)) => {
            vs::same(held(&r.params), items(&l.params, p), "C13 with_param() adds exactly the parameter, lifetimes first");
            let mut o = TokenStream::new();
            r.params.to_tokens(&mut o);
            vs::same_tokens(o, added(&l.params, p), "C13 with_param() keeps the existing commas");
            vs::same(&r.tk_l_bracket, &l.tk_l_bracket, "C13 with_param() keeps the brackets");
            vs::same(&r.tk_r_bracket, &l.tk_r_bracket, "C13 with_param() keeps the brackets");
        }
        (Some(r), None) => {
            let mut o = TokenStream::new();
            r.to_tokens(&mut o);
            let mut e = TokenStream::new();
            e.append(Punct::new('<', Spacing::Alone));
            p.to_tokens(&mut e);
            e.append(Punct::new('>', Spacing::Alone));
            vs::same_tokens(o, e, "C13 with_param() creates the list when absent");
        }
        (None, _) => vs::unreachable("C13 with_param() leaves a parameter list"),
    }
}
fn preds(w: &WhereClause) -> Vec<WhereClausePredicate> {
    let mut v = Vec::new();
    for x in w.items.inner.iter() {
        v.push(x.0.clone());
    }
    v
}
fn pred_list(w: &WhereClause, q: &WhereClausePredicate) -> Vec<WhereClausePredicate> {
    let mut v = preds(w);
    v.push(q.clone());
    v
}
fn preds_printed(w: &WhereClause, q: &WhereClausePredicate) -> TokenStream {
    let mut o = TokenStream::new();
    w.tk_where.to_tokens(&mut o);
    for x in w.items.inner.iter() {
        x.0.to_tokens(&mut o);
        x.1.to_tokens(&mut o);
    }
    q.to_tokens(&mut o);
    o
}
fn one_pred(q: &WhereClausePredicate) -> TokenStream {
    let mut e = TokenStream::new();
    e.append(Ident::new("where", Span::call_site()));
    q.to_tokens(&mut e);
    e
}
fn where_after(r: &Option<WhereClause>, old: &Option<WhereClause>, q: &WhereClausePredicate) {
    match (r, old) {
        (Some(r), Some(w)) => {
            vs::same(preds(r), pred_list(w, q), "C13 with_where_predicate() adds exactly the predicate, last");
            vs::same_tokens(r.to_token_stream(), preds_printed(w, q), "C13 with_where_predicate() keeps the existing commas");
        }
        (Some(r), None) => {
            vs::same_tokens(r.to_token_stream(), one_pred(q), "C13 with_where_predicate() creates the clause when absent");
        }
        (None, _) => vs::unreachable("C13 with_where_predicate() leaves a where clause"),
    }
}
pub fn where_with_predicate() {
    let w: WhereClause = vs::any();
    let q: WhereClausePredicate = vs::any();
    let r = w.clone().with_predicate(q.clone());
    vs::same(preds(&r), pred_list(&w, &q), "C13 with_predicate() adds exactly the predicate, last");
    vs::same_tokens(r.to_token_stream(), preds_printed(&w, &q), "C13 with_predicate() keeps the existing commas");
}
pub fn where_from_predicate() {
    let q: WhereClausePredicate = vs::any();
    let r = WhereClause::from_predicate(q.clone());
    vs::same_tokens(r.to_token_stream(), one_pred(&q), "C13 from_predicate() has exactly the predicate");
}

macro_rules! decl {
    ($T:ty, $wp:ident, $ww:ident, $dw:ident, $($f:ident),*) => {
        pub fn $wp() {
            let x: $T = vs::any();
            let p: GenericParam = vs::any();
            let r = x.clone().with_param(p.clone());
            params_after(&r.generic_params, &x.generic_params, &p);
            $( vs::same(&r.$f, &x.$f, concat!("C13 with_param() keeps ", stringify!($f))); )*
            vs::same(&r.where_clause, &x.where_clause, "C13 with_param() keeps where_clause");
        }
        pub fn $ww() {
            let x: $T = vs::any();
            let q: WhereClausePredicate = vs::any();
            let r = x.clone().with_where_predicate(q.clone());
            where_after(&r.where_clause, &x.where_clause, &q);
            $( vs::same(&r.$f, &x.$f, concat!("C13 with_where_predicate() keeps ", stringify!($f))); )*
            vs::same(&r.generic_params, &x.generic_params, "C13 with_where_predicate() keeps generic_params");
        }
        pub fn $dw() {
            let x: $T = vs::any();
            let t: TokenStream = vs::any();
            let r = x.create_derive_where_clause(t.clone());
            let mut e: Vec<WhereClausePredicate> = match &x.where_clause {
                Some(w) => preds(w),
                None => Vec::new(),
            };
            if let Some(l) = &x.generic_params {
                for p in l.params.inner.iter() {
                    if p.0.tk_prefix.is_none() {
                        e.push(WhereClausePredicate {
                            left_side: vec![TokenTree::Ident(p.0.name.clone())],
                            bound: GenericBound {
                                tk_colon: Punct::new(':', Spacing::Alone),
                                tokens: t.clone().into_iter().collect(),
                            },
                        });
                    }
                }
            }
            vs::same(preds(&r), e, "C13 create_derive_where_clause() has the own predicates and one per type parameter");
        }
    };
}
decl! {Struct, struct_with_param, struct_with_where, struct_derive_where, attributes, vis_marker, tk_struct, name, fields, tk_semicolon}
decl! {Enum, enum_with_param, enum_with_where, enum_derive_where, attributes, vis_marker, tk_enum, name, tk_braces, variants}
decl! {Union, union_with_param, union_with_where, union_derive_where, attributes, vis_marker, tk_union, name, fields}
