//! Parsing then printing reproduces the tokens.
use crate::vs;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

pub fn any_item() {
    let ts: TokenStream = vs::any();
    let mut it = ts.clone().into_iter().peekable();
    if let Ok(item) = consume_item(&mut it) {
        let mut out = TokenStream::new();
        item.to_tokens(&mut out);
        out.extend(it);
        vs::same_tokens(out.clone(), ts.clone(), "C01 printed item and remaining tokens are the input");
        vs::same_tokens(out.clone(), ts.clone(), "C05 tokens after the declaration are left in place");
        vs::same_tokens(out, ts, "C02 printed item keeps locations [loc]");
    }
}

pub fn whole_stream() {
    let ts: TokenStream = vs::any();
    if let Ok(item) = parse_item(ts.clone()) {
        let mut out = TokenStream::new();
        item.to_tokens(&mut out);
        vs::same_tokens(out, ts, "C05 an item returned for a whole stream prints as the whole stream");
    }
}
pub fn where_predicate() {
    let ts: TokenStream = vs::any();
    let p = WhereClausePredicate::parse(ts.clone());
    let mut out = TokenStream::new();
    p.to_tokens(&mut out);
    vs::same_tokens(out.clone(), ts.clone(), "C01 a printed where predicate is its input");
    vs::same_tokens(out, ts, "C05 a where predicate uses all its input");
}
