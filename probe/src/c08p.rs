//! Unsupported enum discriminants give an error located at them; single tokens are kept.
use crate::vs;
use proc_macro2::*;
use venial::*;

fn id(w: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(w, Span::call_site()))
}
fn pn(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
fn is(t: &TokenTree, c: char) -> bool {
    match t {
        TokenTree::Punct(p) => p.as_char() == c,
        _ => false,
    }
}
fn grp(d: Delimiter, v: Vec<TokenTree>) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
/// `enum E { before = t1 t2 rest }`
fn helper_complex(head: Vec<TokenTree>, before: Vec<TokenTree>) {
    helper_inside(vec![], head, before, vec![]);
}
/// the same, after `outer {` (when there is an `outer`); `after` follows the enum
fn helper_inside(outer: Vec<TokenTree>, head: Vec<TokenTree>, before: Vec<TokenTree>, after: Vec<TokenTree>) {
    let (t1, t2): (TokenTree, TokenTree) = (vs::any(), vs::any());
    let rest: TokenStream = vs::any();
    vs::assume(!is(&t2, ','));
    let mut b: TokenStream = before.into_iter().collect();
    b.extend(vec![pn('='), t1.clone(), t2]);
    b.extend(rest);
    let mut v: TokenStream = head.into_iter().collect();
    v.extend(vec![TokenTree::Group(Group::new(Delimiter::Brace, b))]);
    v.extend(after);
    if !outer.is_empty() {
        let mut o: TokenStream = outer.into_iter().collect();
        o.extend(vec![TokenTree::Group(Group::new(Delimiter::Brace, v))]);
        v = o;
    }
    vs::no_panic("C08 a discriminant of several tokens is not a panic");
    let r = parse_item(v);
    vs::panics();
    match r {
        Ok(_) => vs::unreachable("C08 a discriminant of several tokens is refused"),
        Err(e) => vs::same(e.span(), t1.span(), "C08 the error is located at the discriminant"),
    }
}
fn en() -> Vec<TokenTree> {
    vec![id("enum"), id("E")]
}
fn any_id() -> TokenTree {
    let i: Ident = vs::any();
    vs::assume(i != "pub" && i != "crate");
    TokenTree::Ident(i)
}
pub fn first_variant() {
    helper_complex(en(), vec![any_id()]);
}
pub fn second_variant() {
    helper_complex(en(), vec![any_id(), pn(','), any_id()]);
}
pub fn after_value() {
    let t: TokenTree = vs::any();
    helper_complex(en(), vec![any_id(), pn('='), t, pn(','), any_id()]);
}
pub fn after_tuple_variant() {
    let i = any_id();
    helper_complex(en(), vec![any_id(), grp(Delimiter::Parenthesis, vec![i]), pn(','), any_id()]);
}
pub fn tuple_variant() {
    let i = any_id();
    helper_complex(en(), vec![any_id(), grp(Delimiter::Parenthesis, vec![i])]);
}
pub fn named_variant() {
    let (i, t) = (any_id(), any_id());
    helper_complex(en(), vec![any_id(), grp(Delimiter::Brace, vec![i, pn(':'), t])]);
}
pub fn decorated_variant() {
    let a: Ident = vs::any();
    helper_complex(en(), vec![pn('#'), grp(Delimiter::Bracket, vec![TokenTree::Ident(a)]), id("pub"), any_id()]);
}
pub fn generic_enum() {
    helper_complex(vec![id("pub"), id("enum"), id("E"), pn('<'), id("T"), pn('>'), id("where"), id("T"), pn(':'), id("B")], vec![any_id()]);
}
pub fn in_module() {
    helper_inside(vec![id("mod"), any_id()], en(), vec![any_id()], vec![]);
}
pub fn in_unsafe_module() {
    helper_inside(vec![id("pub"), id("unsafe"), id("mod"), any_id()], en(), vec![any_id(), pn(','), any_id()], vec![]);
}
/// an item before and one after it in the module
pub fn in_module_between() {
    helper_inside(vec![id("mod"), any_id()], vec![id("struct"), any_id(), pn(';'), id("pub"), id("enum"), id("E")], vec![any_id()], vec![id("struct"), id("F"), pn(';')]);
}
fn helper_items(v: Vec<TokenTree>, after: Vec<TokenTree>, at: usize) {
    let t1: TokenTree = vs::any();
    let mut b: TokenStream = v.into_iter().collect();
    b.extend(vec![pn('='), t1.clone()]);
    b.extend(after);
    let s: TokenStream = vec![id("enum"), id("E"), TokenTree::Group(Group::new(Delimiter::Brace, b))].into_iter().collect();
    vs::no_panic("C08 a discriminant of one token is accepted");
    let r = parse_item(s);
    vs::panics();
    match r {
        Ok(Item::Enum(e)) => match e.variants.inner[at].0.value.clone() {
            Some(v) => {
                vs::same(v.value, t1, "C08 a discriminant of one token is kept");
                vs::require(v.tk_equal.as_char() == '=', "C08 the equals sign of a discriminant is kept");
            }
            None => vs::unreachable("C08 a discriminant of one token is kept"),
        },
        _ => vs::unreachable("C08 a discriminant of one token is accepted"),
    }
}
pub fn one_last() {
    helper_items(vec![any_id()], vec![], 0);
}
pub fn one_comma() {
    helper_items(vec![any_id()], vec![pn(',')], 0);
}
pub fn one_then_other() {
    helper_items(vec![any_id()], vec![pn(','), any_id()], 0);
}
pub fn one_second() {
    helper_items(vec![any_id(), pn(','), any_id()], vec![pn(','), any_id()], 1);
}
pub fn one_tuple() {
    let i = any_id();
    helper_items(vec![any_id(), grp(Delimiter::Parenthesis, vec![i])], vec![pn(','), any_id()], 0);
}
pub fn one_named() {
    let (i, t) = (any_id(), any_id());
    helper_items(vec![any_id(), grp(Delimiter::Brace, vec![i, pn(':'), t])], vec![], 0);
}
/// No discriminant: no value.
pub fn no_value() {
    let s: TokenStream = vec![id("enum"), id("E"), grp(Delimiter::Brace, vec![any_id(), pn(','), any_id()])].into_iter().collect();
    if let Ok(Item::Enum(e)) = parse_item(s) {
        for (v, _) in e.variants.inner.iter() {
            vs::require(v.value.is_none(), "C08 no discriminant is invented");
        }
    }
}
