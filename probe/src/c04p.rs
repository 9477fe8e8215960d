//! Attributes are attached to the right node, complete and in order.
use crate::vs;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

fn id(w: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(w, Span::call_site()))
}
fn pn(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
fn grp(d: Delimiter, v: Vec<TokenTree>) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
fn is(t: &TokenTree, c: char) -> bool {
    match t {
        TokenTree::Punct(p) => p.as_char() == c,
        _ => false,
    }
}
/// `#[..] #[..]` with arbitrary contents
fn two(inner: bool) -> Vec<TokenTree> {
    let (a, b): (TokenStream, TokenStream) = (vs::any(), vs::any());
    let mut v = Vec::new();
    v.push(pn('#'));
    if inner {
        v.push(pn('!'));
    }
    v.push(TokenTree::Group(Group::new(Delimiter::Bracket, a)));
    v.push(pn('#'));
    if inner {
        v.push(pn('!'));
    }
    v.push(TokenTree::Group(Group::new(Delimiter::Bracket, b)));
    v
}
fn cat(a: &Vec<TokenTree>, b: Vec<TokenTree>) -> Vec<TokenTree> {
    let mut v = a.clone();
    v.extend(b);
    v
}
fn item(v: Vec<TokenTree>) -> Option<Item> {
    let s: TokenStream = v.into_iter().collect();
    match parse_item(s) {
        Ok(i) => Some(i),
        Err(_) => None,
    }
}
fn aside_are(a: &Vec<Attribute>, want: &Vec<TokenTree>) {
    vs::require(a.len() == 2, "C04 every attribute is kept");
    let mut out = TokenStream::new();
    for x in a.iter() {
        x.to_tokens(&mut out);
    }
    let w: TokenStream = want.iter().cloned().collect();
    vs::same_tokens(out, w, "C04 attributes are attached to their node, in order");
}
fn aside_none(a: &Vec<Attribute>) {
    vs::require(a.is_empty(), "C04 no attribute of another node");
}
fn no() -> Vec<TokenTree> {
    Vec::new()
}
fn par(v: Vec<TokenTree>) -> TokenTree {
    grp(Delimiter::Parenthesis, v)
}
fn brc(v: Vec<TokenTree>) -> TokenTree {
    grp(Delimiter::Brace, v)
}
/// the attributes of the item itself
fn helper_item(v: Vec<TokenTree>) {
    let a = two(false);
    if let Some(i) = item(cat(&a, v)) {
        aside_are(i.attributes(), &a);
    }
}
pub fn struct_() {
    helper_item(vec![id("pub"), id("struct"), id("S"), pn(';')]);
}
pub fn enum_() {
    helper_item(vec![id("enum"), id("S"), brc(no())]);
}
pub fn union_() {
    helper_item(vec![id("union"), id("S"), brc(vec![id("a"), pn(':'), id("A")])]);
}
pub fn mod_() {
    helper_item(vec![id("mod"), id("S"), brc(no())]);
}
pub fn unsafe_mod() {
    helper_item(vec![id("unsafe"), id("mod"), id("S"), pn(';')]);
}
pub fn trait_() {
    helper_item(vec![id("trait"), id("S"), brc(no())]);
}
pub fn unsafe_trait() {
    helper_item(vec![id("unsafe"), id("trait"), id("S"), brc(no())]);
}
pub fn impl_() {
    helper_item(vec![id("impl"), id("S"), brc(no())]);
}
pub fn unsafe_impl() {
    helper_item(vec![id("unsafe"), id("impl"), id("S"), brc(no())]);
}
pub fn static_() {
    helper_item(vec![id("static"), id("S"), pn(':'), id("T"), pn(';')]);
}
pub fn const_() {
    helper_item(vec![id("const"), id("S"), pn(':'), id("T"), pn(';')]);
}
pub fn use_() {
    helper_item(vec![id("use"), id("S"), pn(';')]);
}
pub fn fn_() {
    helper_item(vec![id("fn"), id("f"), par(no()), pn(';')]);
}
pub fn type_() {
    helper_item(vec![id("type"), id("T"), pn('='), id("U"), pn(';')]);
}
pub fn macro_() {
    helper_item(vec![id("m"), pn('!'), par(no()), pn(';')]);
}
pub fn extern_block() {
    helper_item(vec![id("extern"), brc(no())]);
}
pub fn extern_crate() {
    helper_item(vec![id("extern"), id("crate"), id("c"), pn(';')]);
}
pub fn named_field() {
    let a = two(false);
    let first = cat(&a, vec![id("pub"), id("x"), pn(':'), id("X"), pn(','), id("y"), pn(':'), id("Y")]);
    if let Some(Item::Struct(s)) = item(vec![id("struct"), id("S"), brc(first)]) {
        aside_none(&s.attributes);
        if let Fields::Named(f) = &s.fields {
            aside_are(&f.fields.inner[0].0.attributes, &a);
            aside_none(&f.fields.inner[1].0.attributes);
        }
    }
}
pub fn second_named_field() {
    let a = two(false);
    let mut v = vec![id("y"), pn(':'), id("Y"), pn(',')];
    v.extend(cat(&a, vec![id("x"), pn(':'), id("X")]));
    if let Some(Item::Union(s)) = item(vec![id("union"), id("S"), brc(v)]) {
        aside_none(&s.fields.fields.inner[0].0.attributes);
        aside_are(&s.fields.fields.inner[1].0.attributes, &a);
    }
}
pub fn tuple_field() {
    let a = two(false);
    let v = cat(&a, vec![id("pub"), id("X"), pn(','), id("Y")]);
    if let Some(Item::Struct(s)) = item(vec![id("struct"), id("S"), par(v), pn(';')]) {
        if let Fields::Tuple(f) = &s.fields {
            aside_are(&f.fields.inner[0].0.attributes, &a);
            aside_none(&f.fields.inner[1].0.attributes);
        }
    }
}
fn helper_variant(rest: Vec<TokenTree>) {
    let a = two(false);
    let mut v = cat(&a, vec![id("X")]);
    v.extend(rest);
    v.push(pn(','));
    v.push(id("Y"));
    if let Some(Item::Enum(e)) = item(vec![id("enum"), id("E"), brc(v)]) {
        aside_none(&e.attributes);
        aside_are(&e.variants.inner[0].0.attributes, &a);
        aside_none(&e.variants.inner[1].0.attributes);
    }
}
pub fn variant() {
    helper_variant(no());
}
pub fn variant_tuple() {
    helper_variant(vec![par(vec![id("T")])]);
}
pub fn variant_named() {
    helper_variant(vec![brc(vec![id("a"), pn(':'), id("A")])]);
}
pub fn variant_value() {
    helper_variant(vec![pn('='), id("V")]);
}
pub fn second_variant() {
    let a = two(false);
    let mut v = vec![id("Y"), pn(',')];
    v.extend(cat(&a, vec![id("X")]));
    if let Some(Item::Enum(e)) = item(vec![id("enum"), id("E"), brc(v)]) {
        aside_none(&e.variants.inner[0].0.attributes);
        aside_are(&e.variants.inner[1].0.attributes, &a);
    }
}
pub fn typed_param() {
    let a = two(false);
    let v = cat(&a, vec![id("mut"), id("x"), pn(':'), id("X")]);
    if let Some(Item::Function(f)) = item(vec![id("fn"), id("f"), par(v), pn(';')]) {
        aside_none(&f.attributes);
        match &f.params.inner[0].0 {
            FnParam::Typed(p) => aside_are(&p.attributes, &a),
            FnParam::Receiver(p) => aside_are(&p.attributes, &a),
        }
    }
}
fn helper_receiver(rest: Vec<TokenTree>) {
    let a = two(false);
    let v = cat(&a, rest);
    if let Some(Item::Function(f)) = item(vec![id("fn"), id("f"), par(v), pn(';')]) {
        match &f.params.inner[0].0 {
            FnParam::Typed(p) => aside_are(&p.attributes, &a),
            FnParam::Receiver(p) => aside_are(&p.attributes, &a),
        }
    }
}
pub fn receiver() {
    helper_receiver(vec![id("self")]);
}
pub fn receiver_ref() {
    helper_receiver(vec![pn('&'), pn('\''), id("a"), id("mut"), id("self")]);
}
pub fn second_param() {
    let a = two(false);
    let mut v = vec![id("self"), pn(',')];
    v.extend(cat(&a, vec![id("x"), pn(':'), id("X")]));
    if let Some(Item::Function(f)) = item(vec![id("fn"), id("f"), par(v), pn(';')]) {
        match &f.params.inner[1].0 {
            FnParam::Typed(p) => aside_are(&p.attributes, &a),
            FnParam::Receiver(p) => aside_are(&p.attributes, &a),
        }
    }
}
fn aside_impl_member(m: &ImplMember, a: &Vec<TokenTree>) {
    match m {
        ImplMember::AssocFunction(x) => aside_are(&x.attributes, a),
        ImplMember::AssocConstant(x) => aside_are(&x.attributes, a),
        ImplMember::AssocType(x) => aside_are(&x.attributes, a),
        ImplMember::Macro(x) => aside_are(&x.attributes, a),
        _ => {}
    }
}
fn aside_trait_member(m: &TraitMember, a: &Vec<TokenTree>) {
    match m {
        TraitMember::AssocFunction(x) => aside_are(&x.attributes, a),
        TraitMember::AssocConstant(x) => aside_are(&x.attributes, a),
        TraitMember::AssocType(x) => aside_are(&x.attributes, a),
        TraitMember::Macro(x) => aside_are(&x.attributes, a),
        _ => {}
    }
}
/// inner attributes of a body, then a member with attributes of its own
fn helper_members(member: Vec<TokenTree>) {
    let a = two(false);
    let n = two(true);
    let body = cat(&n, cat(&a, member));
    if let Some(Item::Impl(i)) = item(vec![id("impl"), id("X"), brc(body.clone())]) {
        aside_are(&i.inner_attributes, &n);
        aside_impl_member(&i.body_items[0], &a);
    }
    if let Some(Item::Trait(i)) = item(vec![id("trait"), id("X"), brc(body.clone())]) {
        aside_are(&i.inner_attributes, &n);
        aside_trait_member(&i.body_items[0], &a);
    }
    if let Some(Item::ExternBlock(i)) = item(vec![id("extern"), brc(body.clone())]) {
        aside_are(&i.inner_attributes, &n);
        aside_impl_member(&i.body_items[0], &a);
    }
    if let Some(Item::Module(i)) = item(vec![id("mod"), id("m"), brc(body)]) {
        aside_are(&i.inner_attributes, &n);
        aside_are(i.members[0].attributes(), &a);
    }
}
pub fn member_fn() {
    helper_members(vec![id("fn"), id("f"), par(no()), pn(';')]);
}
pub fn member_const() {
    helper_members(vec![id("const"), id("S"), pn(':'), id("T"), pn(';')]);
}
pub fn member_type() {
    helper_members(vec![id("type"), id("T"), pn('='), id("U"), pn(';')]);
}
pub fn member_macro() {
    helper_members(vec![id("m"), pn('!'), par(no()), pn(';')]);
}
pub fn second_member() {
    let a = two(false);
    let mut v = vec![id("type"), id("A"), pn(';')];
    v.extend(cat(&a, vec![id("type"), id("B"), pn(';')]));
    if let Some(Item::Impl(i)) = item(vec![id("impl"), id("X"), brc(v)]) {
        aside_none(&i.inner_attributes);
        if let ImplMember::AssocType(x) = &i.body_items[0] {
            aside_none(&x.attributes);
        }
        aside_impl_member(&i.body_items[1], &a);
    }
}
/// The path and the value of `#[ts]`.
fn helper_parts(ts: Vec<TokenTree>) {
    let mut path: Vec<TokenTree> = Vec::new();
    let mut rest: Vec<TokenTree> = Vec::new();
    for t in ts.iter() {
        let stop = match t {
            TokenTree::Group(_) => true,
            _ => is(t, '='),
        };
        if rest.is_empty() && !stop {
            path.push(t.clone());
        } else {
            rest.push(t.clone());
        }
    }
    let s: TokenStream = vec![pn('#'), grp(Delimiter::Bracket, ts), id("struct"), id("S"), pn(';')].into_iter().collect();
    if let Ok(Item::Struct(s)) = parse_item(s) {
        let a = s.attributes[0].clone();
        vs::same(a.path, path, "C04 the path of an attribute is everything before its value");
        match a.value {
            AttributeValue::Empty => vs::require(rest.is_empty(), "C04 an attribute value is not lost"),
            AttributeValue::Equals(p, v) => {
                let mut w = vec![TokenTree::Punct(p)];
                w.extend(v);
                vs::same(w, rest, "C04 the value of an attribute is everything after the equals sign");
            }
            AttributeValue::Group(d, v) => {
                vs::require(rest.len() == 1, "C04 the value of an attribute is its group");
                match &rest[0] {
                    TokenTree::Group(g) => {
                        vs::require(g.delimiter() == d.delimiter, "C04 the delimiter of an attribute value");
                        vs::same_tokens(v.into_iter().collect(), g.stream(), "C04 the value of an attribute is the contents of its group");
                    }
                    _ => vs::unreachable("C04 the value of an attribute is its group"),
                }
            }
        }
    }
}
pub fn parts0() {
    helper_parts(no());
}
pub fn parts1() {
    let a: TokenTree = vs::any();
    helper_parts(vec![a]);
}
pub fn parts2() {
    let (a, b): (TokenTree, TokenTree) = (vs::any(), vs::any());
    helper_parts(vec![a, b]);
}
pub fn parts4() {
    let (a, b, c, d): (TokenTree, TokenTree, TokenTree, TokenTree) = (vs::any(), vs::any(), vs::any(), vs::any());
    helper_parts(vec![a, b, c, d]);
}
