//! Parsing then printing reproduces the tokens: every sequence of a few tokens, position by position.
use crate::vs;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

fn id(w: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(w, Span::call_site()))
}
fn pn(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
fn grp(d: Delimiter, v: Vec<TokenTree>) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
fn any(n: usize) -> Vec<TokenTree> {
    let mut v = Vec::new();
    for _ in 0..n {
        let t: TokenTree = vs::any();
        v.push(t);
    }
    v
}
fn helper_one(v: Vec<TokenTree>) {
    vs::bounded(2);
    let ts: TokenStream = v.into_iter().collect();
    let mut it = ts.clone().into_iter().peekable();
    if let Ok(item) = consume_item(&mut it) {
        let mut out = TokenStream::new();
        item.to_tokens(&mut out);
        out.extend(it);
        vs::same_tokens(out.clone(), ts.clone(), "C01 printed item and remaining tokens are the input");
        vs::same_tokens(out.clone(), ts.clone(), "C05 tokens after the declaration are left in place");
        vs::same_tokens(out, ts, "C02 printed item keeps locations [loc]");
    }
}
fn cat(v: Vec<Vec<TokenTree>>) -> Vec<TokenTree> {
    let mut o = Vec::new();
    for x in v {
        o.extend(x);
    }
    o
}
fn brc(v: Vec<TokenTree>) -> Vec<TokenTree> {
    vec![grp(Delimiter::Brace, v)]
}
fn par(v: Vec<TokenTree>) -> Vec<TokenTree> {
    vec![grp(Delimiter::Parenthesis, v)]
}
/// one concrete piece per word; `_` is an arbitrary token, `?` an arbitrary identifier, `@` one that ends no type
fn w(text: &[&str]) -> Vec<TokenTree> {
    let mut v = Vec::new();
    for t in text {
        match *t {
            "_" => {
                let t: TokenTree = vs::any();
                v.push(t);
            }
            "?" => {
                let i: Ident = vs::any();
                v.push(TokenTree::Ident(i));
            }
            "@" => {
                let i: Ident = vs::any();
                vs::assume(i != "where" && i != "for");
                v.push(TokenTree::Ident(i));
            }
            "#" => v.push(pn('#')),
            "!" => v.push(pn('!')),
            "<" => v.push(pn('<')),
            ">" => v.push(pn('>')),
            ":" => v.push(pn(':')),
            ";" => v.push(pn(';')),
            "," => v.push(pn(',')),
            "=" => v.push(pn('=')),
            "-" => v.push(pn('-')),
            "&" => v.push(pn('&')),
            "()" => v.push(grp(Delimiter::Parenthesis, vec![])),
            "{}" => v.push(grp(Delimiter::Brace, vec![])),
            "[]" => v.push(grp(Delimiter::Bracket, vec![])),
            x => v.push(id(x)),
        }
    }
    v
}
pub fn item4() {
    helper_one(w(&["_", "_", "_", "_"]));
}
pub fn visibility() {
    helper_one(w(&["pub", "_", "struct", "S", "_"]));
}
pub fn visibility2() {
    helper_one(w(&["_", "_", "struct", "S", "_"]));
}
pub fn attribute() {
    helper_one(w(&["#", "_", "_", "_", "struct", "S", ";"]));
}
pub fn attribute_in_front() {
    helper_one(w(&["_", "_", "_", "enum", "S", "{}"]));
}
pub fn struct_() {
    helper_one(w(&["struct", "S", "_", "_", "_", "_"]));
}
pub fn struct_tuple() {
    helper_one(cat(vec![w(&["struct", "S"]), par(w(&["_", "_", "_"])), w(&["_"])]));
}
pub fn struct_tuple2() {
    helper_one(cat(vec![w(&["struct", "S"]), par(w(&["A", ",", "_", "_"])), w(&[";"])]));
}
pub fn struct_tail() {
    helper_one(cat(vec![w(&["struct", "S"]), par(w(&["A"])), w(&["_", "_", "_", "_"])]));
}
pub fn struct_named() {
    helper_one(cat(vec![w(&["struct", "S"]), brc(w(&["_", "_", "_", "_"]))]));
}
pub fn struct_named2() {
    helper_one(cat(vec![w(&["struct", "S"]), brc(w(&["a", ":", "_", "_", "_", "_"]))]));
}
pub fn struct_named3() {
    helper_one(cat(vec![w(&["struct", "S"]), brc(w(&["a", ":", "A", ",", "_", "_", ":", "B", "_"]))]));
}
pub fn enum_() {
    helper_one(cat(vec![w(&["enum", "E"]), brc(w(&["_", "_", "_", "_"]))]));
}
pub fn enum2() {
    helper_one(cat(vec![w(&["enum", "E"]), brc(w(&["A", "_", "_", "_", "_"]))]));
}
pub fn enum_head() {
    helper_one(cat(vec![w(&["enum", "_", "_", "_"]), brc(w(&["A"]))]));
}
pub fn union_() {
    helper_one(cat(vec![w(&["union", "U"]), brc(w(&["a", ":", "_", "_", "_"]))]));
}
pub fn generics() {
    helper_one(w(&["struct", "S", "<", "_", "_", "_", ">", ";"]));
}
pub fn generics2() {
    helper_one(w(&["struct", "S", "<", "A", "_", "_", "_", "_", ">", ";"]));
}
pub fn generics3() {
    helper_one(w(&["enum", "S", "<", "const", "A", ":", "_", "_", "_", "{}"]));
}
pub fn where_() {
    helper_one(w(&["struct", "S", "where", "_", "_", "_", "_", ";"]));
}
pub fn where2() {
    helper_one(w(&["struct", "S", "where", "A", ":", "_", "_", "_", "_", ";"]));
}
pub fn fn_params() {
    helper_one(cat(vec![w(&["fn", "f"]), par(w(&["_", "_", "_", "_"])), w(&[";"])]));
}
pub fn fn_params2() {
    helper_one(cat(vec![w(&["fn", "f"]), par(w(&["a", ":", "_", "_", "_", "_"])), w(&["{}"])]));
}
pub fn fn_self() {
    helper_one(cat(vec![w(&["fn", "f"]), par(w(&["_", "_", "self", "_", "_"])), w(&["{}"])]));
}
pub fn fn_return() {
    helper_one(w(&["fn", "f", "()", "_", "_", "_", "_"]));
}
pub fn fn_return2() {
    helper_one(w(&["fn", "f", "()", "-", ">", "_", "_", "_", "_"]));
}
pub fn fn_generics() {
    helper_one(w(&["fn", "f", "<", "_", "_", "_", "()", ";"]));
}
pub fn qualifiers() {
    helper_one(w(&["_", "_", "_", "fn", "f", "()", ";"]));
}
pub fn qualifiers2() {
    helper_one(w(&["pub", "default", "const", "async", "unsafe", "extern", "_", "fn", "f", "()", "_"]));
}
pub fn impl_() {
    helper_one(w(&["impl", "_", "_", "_", "_"]));
}
pub fn impl_for() {
    helper_one(w(&["impl", "A", "for", "_", "_", "_"]));
}
pub fn impl_generics() {
    helper_one(w(&["impl", "<", "_", "_", ">", "A", "_", "{}"]));
}
pub fn impl_body() {
    helper_one(cat(vec![w(&["impl", "T"]), brc(w(&["_", "_", "_", "_"]))]));
}
pub fn impl_body2() {
    helper_one(cat(vec![w(&["impl", "T"]), brc(w(&["_", "const", "_", ":", "A", "_", "_"]))]));
}
pub fn impl_body3() {
    helper_one(cat(vec![w(&["impl", "T"]), brc(cat(vec![w(&["_", "fn", "f"]), par(w(&["self"])), w(&["_", "_", "_"])]))]));
}
pub fn impl_attr() {
    helper_one(cat(vec![w(&["impl", "T"]), brc(w(&["#", "_", "_", "type", "A", "_", "_"]))]));
}
pub fn trait_() {
    helper_one(w(&["trait", "T", "_", "_", "_", "{}"]));
}
pub fn trait_body() {
    helper_one(cat(vec![w(&["trait", "T"]), brc(w(&["_", "_", "_", "_"]))]));
}
pub fn trait_body2() {
    helper_one(cat(vec![w(&["trait", "T"]), brc(cat(vec![w(&["type", "A", "_", "_", "_", "fn", "f"]), par(w(&["self"])), w(&["_"])]))]));
}
pub fn extern_() {
    helper_one(w(&["extern", "_", "_", "_", "_"]));
}
pub fn extern_body() {
    helper_one(cat(vec![w(&["extern"]), brc(w(&["_", "_", "a", ":", "A", "_"]))]));
}
pub fn extern_crate() {
    helper_one(w(&["extern", "crate", "_", "_", "_", "_"]));
}
pub fn mod_() {
    helper_one(w(&["mod", "_", "_", "_"]));
}
pub fn mod_body() {
    helper_one(cat(vec![w(&["mod", "m"]), brc(w(&["_", "_", "_", "_"]))]));
}
pub fn mod_body2() {
    helper_one(cat(vec![w(&["mod", "m"]), brc(cat(vec![w(&["struct", "_", ";", "enum", "B"]), brc(w(&["_", "_"]))]))]));
}
pub fn mod_inner() {
    helper_one(cat(vec![w(&["mod", "m"]), brc(w(&["#", "!", "_", "_", "struct", "S", ";"]))]));
}
pub fn use_() {
    helper_one(w(&["use", "_", "_", "_", ";", "_"]));
}
pub fn type_() {
    helper_one(w(&["type", "T", "_", "_", "_", "_"]));
}
pub fn const_() {
    helper_one(w(&["const", "_", "_", "_", "_", ";"]));
}
pub fn static_() {
    helper_one(w(&["static", "_", "T", "_", "A", "_", "_", ";"]));
}
pub fn const_value() {
    helper_one(w(&["const", "A", ":", "B", "=", "_", "_", "_", "_"]));
}
pub fn unsafe_() {
    helper_one(w(&["unsafe", "_", "_", "_", "_"]));
}
pub fn macro_() {
    helper_one(w(&["m", "!", "_", "_", "_", "_"]));
}
pub fn macro_body() {
    helper_one(cat(vec![w(&["m", "!"]), brc(w(&["_", "_", "_"])), w(&["_"])]));
}
pub fn two_items() {
    helper_one(cat(vec![w(&["struct", "A", ";", "_", "struct", "B", "_", "_"])]));
}
fn helper_whole(v: Vec<TokenTree>) {
    vs::bounded(2);
    let ts: TokenStream = v.into_iter().collect();
    if let Ok(item) = parse_item(ts.clone()) {
        let mut out = TokenStream::new();
        item.to_tokens(&mut out);
        vs::same_tokens(out.clone(), ts.clone(), "C01 a printed item is its input");
        vs::same_tokens(out, ts, "C05 an item returned for a whole stream prints as the whole stream");
    }
}
pub fn whole4() {
    helper_whole(any(4));
}
pub fn whole_tuple() {
    helper_whole(w(&["struct", "S", "()", "_", "_"]));
}
pub fn whole_named() {
    helper_whole(w(&["struct", "S", "{}", "_", "_"]));
}
pub fn whole_unit() {
    helper_whole(w(&["struct", "S", ";", "_", "_"]));
}
pub fn whole_enum() {
    helper_whole(w(&["enum", "S", "{}", "_", "_"]));
}
pub fn whole_fn() {
    helper_whole(w(&["fn", "f", "()", "{}", "_", "_"]));
}
pub fn whole_macro() {
    helper_whole(w(&["m", "!", "{}", "_", "_"]));
}
pub fn whole_macro_parens() {
    helper_whole(w(&["m", "!", "()", ";", "_", "_"]));
}
pub fn whole_impl() {
    helper_whole(w(&["impl", "T", "{}", "_", "_"]));
}
pub fn whole_const() {
    helper_whole(w(&["const", "T", ":", "A", ";", "_", "_"]));
}
pub fn whole_mod() {
    helper_whole(w(&["mod", "m", "_", "_", "_"]));
}
fn helper_predicate(v: Vec<TokenTree>) {
    vs::bounded(2);
    let ts: TokenStream = v.into_iter().collect();
    let p = WhereClausePredicate::parse(ts.clone());
    let mut out = TokenStream::new();
    p.to_tokens(&mut out);
    vs::same_tokens(out.clone(), ts.clone(), "C01 a printed where predicate is its input");
    vs::same_tokens(out, ts, "C05 a where predicate uses all its input");
}
pub fn predicate5() {
    helper_predicate(any(5));
}
pub fn predicate_bound() {
    helper_predicate(w(&["A", ":", "_", "_", "_", "_"]));
}
/// a complete declaration, then two arbitrary tokens: exactly those are left
fn helper_exact(v: Vec<TokenTree>, no_semicolon: bool) {
    vs::bounded(2);
    let (t1, t2): (TokenTree, TokenTree) = (vs::any(), vs::any());
    if no_semicolon {
        vs::assume(!matches!(&t1, TokenTree::Punct(p) if p.as_char() == ';'));
    }
    let mut ts: TokenStream = v.into_iter().collect();
    ts.extend(vec![t1.clone(), t2.clone()]);
    let mut it = ts.into_iter().peekable();
    if let Ok(_) = consume_item(&mut it) {
        let mut rest: TokenStream = TokenStream::new();
        rest.extend(it);
        let want: TokenStream = vec![t1, t2].into_iter().collect();
        vs::same_tokens(rest, want, "C05 exactly one declaration is consumed");
    }
}
pub fn exact_unit() {
    helper_exact(w(&["struct", "?", ";"]), false);
}
pub fn exact_tuple() {
    helper_exact(w(&["struct", "?", "()", ";"]), false);
}
pub fn exact_tuple_where() {
    helper_exact(w(&["struct", "?", "()", "where", "A", ":", "@", ";"]), false);
}
pub fn exact_enum_() {
    helper_exact(w(&["enum", "?", "{}"]), false);
}
pub fn exact_union_() {
    helper_exact(w(&["union", "?", "{}"]), false);
}
pub fn exact_mod_semi() {
    helper_exact(w(&["mod", "?", ";"]), false);
}
pub fn exact_mod_body() {
    helper_exact(w(&["pub", "mod", "?", "{}"]), false);
}
pub fn exact_unsafe_mod() {
    helper_exact(w(&["unsafe", "mod", "?", "{}"]), false);
}
pub fn exact_trait_() {
    helper_exact(w(&["trait", "?", ":", "@", "{}"]), false);
}
pub fn exact_impl_() {
    helper_exact(w(&["impl", "@", "{}"]), false);
}
pub fn exact_impl_for() {
    helper_exact(w(&["impl", "@", "for", "@", "{}"]), false);
}
pub fn exact_type_() {
    helper_exact(w(&["type", "?", "=", "@", ";"]), false);
}
pub fn exact_type_bound() {
    helper_exact(w(&["type", "?", ":", "@", ";"]), false);
}
pub fn exact_const_() {
    helper_exact(w(&["const", "?", ":", "@", "=", "@", ";"]), false);
}
pub fn exact_static_() {
    helper_exact(w(&["static", "mut", "?", ":", "@", "=", "@", ";"]), false);
}
pub fn exact_use_() {
    helper_exact(w(&["use", "@", ";"]), false);
}
pub fn exact_fn_() {
    helper_exact(w(&["fn", "?", "()", "{}"]), false);
}
pub fn exact_fn_semi() {
    helper_exact(w(&["fn", "?", "()", "-", ">", "@", ";"]), false);
}
pub fn exact_fn_ret() {
    helper_exact(w(&["fn", "?", "()", "-", ">", "@", "{}"]), false);
}
pub fn exact_fn_where() {
    helper_exact(w(&["fn", "?", "()", "where", "A", ":", "@", "{}"]), false);
}
pub fn exact_macro_() {
    helper_exact(w(&["m", "!", "{}"]), false);
}
pub fn exact_macro_named() {
    helper_exact(w(&["m", "!", "?", "{}"]), false);
}
pub fn exact_macro_semi() {
    helper_exact(w(&["m", "!", "()", ";"]), false);
}
pub fn exact_extern_() {
    helper_exact(w(&["extern", "{}"]), false);
}
pub fn exact_extern_crate() {
    helper_exact(w(&["extern", "crate", "?", ";"]), false);
}
pub fn exact_extern_crate_as() {
    helper_exact(w(&["extern", "crate", "?", "as", "?", ";"]), false);
}
pub fn exact_extern_fn() {
    helper_exact(w(&["extern", "fn", "?", "()", "{}"]), false);
}
pub fn exact_named() {
    helper_exact(w(&["struct", "?", "{}"]), true);
}
