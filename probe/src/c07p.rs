//! Separators inside angle brackets never split a list (a few arbitrary tokens, every combination).
use crate::vs;
use proc_macro2::*;
use venial::*;

fn is(t: &TokenTree, c: char) -> bool {
    match t {
        TokenTree::Punct(p) => p.as_char() == c,
        _ => false,
    }
}
fn word(t: &TokenTree, w: &str) -> bool {
    match t {
        TokenTree::Ident(i) => i == w,
        _ => false,
    }
}
fn brace(t: &TokenTree) -> bool {
    match t {
        TokenTree::Group(g) => g.delimiter() == Delimiter::Brace,
        _ => false,
    }
}
fn id(w: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(w, Span::call_site()))
}
fn pn(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
fn grp(d: Delimiter, v: Vec<TokenTree>) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
/// The elements between the commas outside angle brackets; None if brackets are not balanced or an element is empty.
pub fn split(ts: &Vec<TokenTree>) -> Option<Vec<Vec<TokenTree>>> {
    let mut all: Vec<Vec<TokenTree>> = Vec::new();
    let mut cur: Vec<TokenTree> = Vec::new();
    let mut depth = 0;
    let mut dash = false;
    for t in ts.iter() {
        if is(t, ',') && depth == 0 {
            if cur.is_empty() {
                return None;
            }
            all.push(cur);
            cur = Vec::new();
            dash = false;
            continue;
        }
        if is(t, '<') {
            depth += 1;
        }
        if is(t, '>') && !dash {
            if depth == 0 {
                return None;
            }
            depth -= 1;
        }
        dash = is(t, '-');
        cur.push(t.clone());
    }
    if depth != 0 {
        return None;
    }
    if !cur.is_empty() {
        all.push(cur);
    }
    Some(all)
}
/// The tokens before the first separator outside angle brackets; None if the brackets are not balanced.
fn upto(ts: &Vec<TokenTree>, sep: impl Fn(&TokenTree) -> bool) -> Option<Vec<TokenTree>> {
    let mut cur: Vec<TokenTree> = Vec::new();
    let mut depth = 0;
    let mut dash = false;
    for t in ts.iter() {
        if depth == 0 && sep(t) {
            return Some(cur);
        }
        if is(t, '<') {
            depth += 1;
        }
        if is(t, '>') && !dash {
            if depth == 0 {
                return None;
            }
            depth -= 1;
        }
        dash = is(t, '-');
        cur.push(t.clone());
    }
    if depth == 0 {
        Some(cur)
    } else {
        None
    }
}
/// The item for `before ts after`; it must be accepted if `ts` has no separator.
fn run(before: Vec<TokenTree>, ts: &Vec<TokenTree>, after: Vec<TokenTree>, want: &Vec<TokenTree>) -> Option<Item> {
    let mut v = before;
    for t in ts.iter() {
        v.push(t.clone());
    }
    for t in after {
        v.push(t);
    }
    helper_item(v, want.len() == ts.len())
}
fn any3() -> Vec<TokenTree> {
    let (a, b, c): (TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any());
    vec![a, b, c]
}
fn any4() -> Vec<TokenTree> {
    let (a, b, c, d): (TokenTree, TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any(), vs::any());
    vec![a, b, c, d]
}

fn helper_tuple(body: Vec<TokenTree>) {
    // neither the start of an attribute nor a visibility marker
    for t in body.iter() {
        vs::assume(!is(t, '#') && !word(t, "pub") && !word(t, "crate"));
    }
    let Some(e) = split(&body) else { return };
    let v = vec![id("struct"), id("S"), grp(Delimiter::Parenthesis, body), pn(';')];
    let s: TokenStream = v.into_iter().collect();
    let mut it = s.into_iter().peekable();
    vs::no_panic("C07 a balanced list is accepted");
    let r = consume_item(&mut it);
    vs::panics();
    if let Ok(Item::Struct(s)) = r {
        let mut r: Vec<Vec<TokenTree>> = Vec::new();
        if let Fields::Tuple(f) = s.fields {
            for (f, _) in f.fields.inner {
                r.push(f.ty.tokens);
            }
        }
        vs::same(r, e, "C07 fields end at the separators outside angle brackets");
    }
}
pub fn tuple4() {
    helper_tuple(any4());
}
pub fn tuple5() {
    let mut v = any4();
    let t: TokenTree = vs::any();
    v.push(t);
    helper_tuple(v);
}
/// `a: ts, b: B`
fn helper_named(ts: &Vec<TokenTree>) -> Vec<TokenTree> {
    let mut b = vec![id("a"), pn(':')];
    for t in ts.iter() {
        b.push(t.clone());
    }
    b.push(pn(','));
    b.push(id("b"));
    b.push(pn(':'));
    b.push(id("B"));
    b
}
fn helper_item(v: Vec<TokenTree>, whole: bool) -> Option<Item> {
    let s: TokenStream = v.into_iter().collect();
    let mut it = s.into_iter().peekable();
    if whole {
        vs::no_panic("C07 a balanced element is accepted");
    }
    let r = consume_item(&mut it);
    vs::panics();
    match r {
        Ok(i) => Some(i),
        Err(_) => None,
    }
}
pub fn field() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| is(t, ',')) else { return };
    vs::assume(!e.is_empty());
    let v = vec![id("struct"), id("S"), grp(Delimiter::Brace, helper_named(&ts))];
    if let Some(Item::Struct(s)) = helper_item(v, e.len() == ts.len()) {
        if let Fields::Named(f) = s.fields {
            vs::same(f.fields.inner[0].0.ty.tokens.clone(), e, "C07 a field type ends at the separator outside angle brackets");
        }
    }
}
pub fn fn_param() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| is(t, ',')) else { return };
    vs::assume(!e.is_empty());
    let v = vec![id("fn"), id("f"), grp(Delimiter::Parenthesis, helper_named(&ts)), pn(';')];
    if let Some(Item::Function(f)) = helper_item(v, e.len() == ts.len()) {
        if let FnParam::Typed(p) = f.params.inner[0].0.clone() {
            vs::same(p.ty.tokens, e, "C07 a parameter type ends at the separator outside angle brackets");
        }
    }
}
pub fn fn_return() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| is(t, ';') || brace(t) || word(t, "where")) else { return };
    let before = vec![id("fn"), id("f"), grp(Delimiter::Parenthesis, Vec::new()), TokenTree::Punct(Punct::new('-', Spacing::Joint)), pn('>')];
    if let Some(Item::Function(f)) = run(before, &ts, vec![pn(';')], &e) {
        if let Some(t) = f.return_ty {
            vs::same(t.tokens, e, "C07 a return type ends at the separator outside angle brackets");
        }
    }
}
pub fn param_bound() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| is(t, ',')) else { return };
    let before = vec![id("struct"), id("S"), pn('<'), id("T"), pn(':')];
    if let Some(Item::Struct(s)) = run(before, &ts, vec![pn(','), id("U"), pn('>'), pn(';')], &e) {
        if let Some(b) = s.generic_params.unwrap().params.inner[0].0.bound.clone() {
            vs::same(b.tokens, e, "C07 a parameter bound ends at the separator outside angle brackets");
        }
    }
}
pub fn last_param_bound() {
    let ts = any3();
    // (with the bracket that follows, a dash would be an arrow)
    vs::assume(!is(&ts[2], '-'));
    let Some(e) = upto(&ts, |t| is(t, ',')) else { return };
    let before = vec![id("struct"), id("S"), pn('<'), id("T"), pn(':')];
    if let Some(Item::Struct(s)) = run(before, &ts, vec![pn('>'), pn(';')], &e) {
        if let Some(b) = s.generic_params.unwrap().params.inner[0].0.bound.clone() {
            vs::same(b.tokens, e, "C07 the last parameter bound ends at the closing angle bracket");
        }
    }
}
pub fn where_bound() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| is(t, ',') || is(t, ';') || brace(t)) else { return };
    let before = vec![id("struct"), id("S"), id("where"), id("T"), pn(':')];
    if let Some(Item::Struct(s)) = run(before, &ts, vec![pn(','), id("U"), pn(':'), id("B"), pn(';')], &e) {
        vs::same(
            s.where_clause.unwrap().items.inner[0].0.bound.tokens.clone(),
            e,
            "C07 a where bound ends at the separator outside angle brackets",
        );
    }
}
pub fn where_type() {
    let ts = any3();
    vs::assume(!is(&ts[0], ';') && !brace(&ts[0]));
    let Some(e) = upto(&ts, |t| is(t, ':')) else { return };
    vs::assume(e.len() == ts.len());
    let before = vec![id("struct"), id("S"), id("where")];
    if let Some(Item::Struct(s)) = run(before, &ts, vec![pn(':'), id("B"), pn(';')], &e) {
        vs::same(s.where_clause.unwrap().items.inner[0].0.left_side.clone(), e, "C07 the type of a where predicate ends at its colon");
    }
}
pub fn const_type() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| is(t, '=') || is(t, ';')) else { return };
    let before = vec![id("static"), id("S"), pn(':')];
    if let Some(Item::Constant(c)) = run(before, &ts, vec![pn('='), id("v"), pn(';')], &e) {
        vs::same(c.ty.tokens, e, "C07 a constant's type ends at the separator outside angle brackets");
    }
}
/// a value is an expression: `<` and `>` can be operators, only `;` ends it
fn first_semi(ts: &Vec<TokenTree>) -> Vec<TokenTree> {
    let mut cur: Vec<TokenTree> = Vec::new();
    for t in ts.iter() {
        if is(t, ';') {
            return cur;
        }
        cur.push(t.clone());
    }
    cur
}
pub fn const_value() {
    let ts = any3();
    let e = first_semi(&ts);
    vs::assume(!e.is_empty());
    let before = vec![id("const"), id("S"), pn(':'), id("T"), pn('=')];
    if let Some(Item::Constant(c)) = run(before, &ts, vec![pn(';')], &e) {
        vs::same(c.initializer.unwrap().tokens, e, "C07 a constant's value ends at the first semicolon");
    }
}
pub fn assoc_const_value() {
    let (a, b): (TokenTree, TokenTree) = (vs::any(), vs::any());
    vs::assume(!is(&a, ';') && !is(&b, ';'));
    let ts = vec![a, b];
    let mut v = vec![id("const"), id("S"), pn(':'), id("T"), pn('=')];
    for t in ts.iter() {
        v.push(t.clone());
    }
    v.push(pn(';'));
    for t in vec![id("const"), id("R"), pn(':'), id("T"), pn('='), id("x"), pn('>'), id("y"), pn(';')] {
        v.push(t);
    }
    if let Some(Item::Impl(i)) = helper_item(vec![id("impl"), id("X"), grp(Delimiter::Brace, v)], true) {
        vs::require(i.body_items.len() == 2, "C07 a constant's value ends at the first semicolon");
        if let ImplMember::AssocConstant(c) = &i.body_items[0] {
            vs::same(c.initializer.as_ref().unwrap().tokens.clone(), ts, "C07 a constant's value ends at the first semicolon");
        }
    }
}
pub fn alias_type() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| is(t, ';')) else { return };
    let before = vec![id("type"), id("S"), pn('=')];
    if let Some(Item::TypeAlias(c)) = run(before, &ts, vec![pn(';')], &e) {
        vs::same(c.initializer_ty.unwrap().tokens, e, "C07 an aliased type ends at the separator outside angle brackets");
    }
}
pub fn impl_trait() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| brace(t) || word(t, "for") || word(t, "where")) else { return };
    // (`<` starts the generic parameters)
    vs::assume(!is(&ts[0], '<'));
    let before = vec![id("impl")];
    if let Some(Item::Impl(c)) = run(before, &ts, vec![id("for"), id("X"), grp(Delimiter::Brace, Vec::new())], &e) {
        let t = if c.tk_for.is_some() { c.trait_ty.unwrap() } else { c.self_ty };
        vs::same(t.tokens, e, "C07 the trait of an impl ends at the keyword outside angle brackets");
    }
}
pub fn impl_self() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| brace(t) || word(t, "where")) else { return };
    let before = vec![id("impl"), id("T"), id("for")];
    if let Some(Item::Impl(c)) = run(before, &ts, vec![grp(Delimiter::Brace, Vec::new())], &e) {
        vs::same(c.self_ty.tokens, e, "C07 the self type of an impl ends at the body outside angle brackets");
    }
}
pub fn trait_bound() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| brace(t) || word(t, "where")) else { return };
    let before = vec![id("trait"), id("T"), pn(':')];
    if let Some(Item::Trait(c)) = run(before, &ts, vec![grp(Delimiter::Brace, Vec::new())], &e) {
        vs::same(c.bound.unwrap().tokens, e, "C07 the bound of a trait ends at the body outside angle brackets");
    }
}
pub fn generic_args() {
    let ts = any3();
    let Some(e) = upto(&ts, |t| is(t, ',')) else { return };
    vs::assume(!e.is_empty());
    let mut v = vec![id("A"), pn('<')];
    for t in ts.iter() {
        v.push(t.clone());
    }
    v.push(pn(','));
    v.push(id("B"));
    v.push(pn('>'));
    let ty = TypeExpr { tokens: v };
    // lifetimes are read apart
    vs::assume(!is(&ts[0], '\''));
    if e.len() == ts.len() {
        vs::no_panic("C07 a balanced argument list is accepted");
    }
    let p = ty.as_path();
    vs::panics();
    if e.len() == ts.len() {
        match p {
            None => vs::unreachable("C07 a balanced argument list is accepted"),
            Some(p) => {
                let a = p.segments[0].generic_args.clone().unwrap();
                vs::require(a.args.inner.len() == 2, "C07 arguments end at the separators outside angle brackets");
            }
        }
    }
}
