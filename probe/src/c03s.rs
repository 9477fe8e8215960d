//! How the slots of one declaration go together: keyword, body, terminator, optional parts.
use crate::vs;
use proc_macro2::*;
use venial::*;

fn id(w: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(w, Span::call_site()))
}
fn pn(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
fn any() -> TokenTree {
    vs::any()
}
fn any_id() -> TokenTree {
    let i: Ident = vs::any();
    TokenTree::Ident(i)
}
fn any_grp(d: Delimiter) -> TokenTree {
    let s: TokenStream = vs::any();
    TokenTree::Group(Group::new(d, s))
}
fn grp(d: Delimiter, v: Vec<TokenTree>) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
fn aside_constant(c: &Constant) {
    vs::require(c.tk_mut.is_none() || c.tk_const_or_static == "static", "C03 only a static may be mutable");
    vs::require(c.initializer.is_none() || c.tk_equals.is_some(), "C03 an initializer follows an equals sign");
}
fn aside_alias(t: &TypeAlias) {
    vs::require(t.tk_equals.is_some() == t.initializer_ty.is_some(), "C03 the aliased type follows an equals sign");
}
fn aside_function(f: &Function) {
    vs::require(f.body.is_some() != f.tk_semicolon.is_some(), "C03 a function ends with a body or a semicolon");
    vs::require(f.tk_return_arrow.is_some() == f.return_ty.is_some(), "C03 a return type follows an arrow");
    vs::require(f.qualifiers.extern_abi.is_none() || f.qualifiers.tk_extern.is_some(), "C03 an ABI follows extern");
}
fn aside_macro(m: &Macro) {
    vs::require(m.tk_braces_or_parens.delimiter == Delimiter::Parenthesis || m.tk_braces_or_parens.delimiter == Delimiter::Brace || m.tk_braces_or_parens.delimiter == Delimiter::Bracket, "C03 delimiter of a macro");
}
fn aside_member(m: &ImplMember) {
    match m {
        ImplMember::AssocFunction(f) => aside_function(f),
        ImplMember::AssocConstant(c) => aside_constant(c),
        ImplMember::AssocType(t) => aside_alias(t),
        ImplMember::Macro(m) => aside_macro(m),
        _ => {}
    }
}
fn aside_trait_member(m: &TraitMember) {
    match m {
        TraitMember::AssocFunction(f) => aside_function(f),
        TraitMember::AssocConstant(c) => aside_constant(c),
        TraitMember::AssocType(t) => aside_alias(t),
        TraitMember::Macro(m) => aside_macro(m),
        _ => {}
    }
}
fn aside_relations(item: &Item) {
    match item {
        Item::Struct(s) => match &s.fields {
            Fields::Unit => vs::require(s.tk_semicolon.is_some(), "C03 a unit struct ends with a semicolon"),
            _ => {}
        },
        Item::Module(m) => {
            vs::require(m.tk_braces.is_some() != m.tk_semicolon.is_some(), "C03 a module has a body or a semicolon");
            vs::require(m.tk_braces.is_some() || (m.members.is_empty() && m.inner_attributes.is_empty()), "C03 only a module with a body has members");
        }
        Item::Impl(i) => vs::require(i.tk_for.is_some() == i.trait_ty.is_some(), "C03 an implemented trait is followed by for"),
        Item::TypeAlias(t) => aside_alias(t),
        Item::Function(f) => aside_function(f),
        Item::Constant(c) => aside_constant(c),
        Item::Macro(m) => aside_macro(m),
        Item::ExternCrate(c) => {
            vs::require(c.tk_as.is_some() == (c.alias.is_some() || c.tk_underscore.is_some()), "C03 an alias follows as");
            vs::require(c.alias.is_none() || c.tk_underscore.is_none(), "C03 an alias is a name or an underscore");
        }
        _ => {}
    }
}
fn helper_small(v: Vec<TokenTree>) {
    vs::bounded(2);
    let s: TokenStream = v.into_iter().collect();
    let mut it = s.into_iter().peekable();
    if let Ok(item) = consume_item(&mut it) {
        aside_relations(&item);
        crate::c03p::helper_check(&item);
    }
}
pub fn small2() {
    helper_small(vec![any(), any()]);
}
pub fn small3() {
    helper_small(vec![any(), any(), any()]);
}
pub fn small4() {
    helper_small(vec![any(), any(), any(), any()]);
}
pub fn constant() {
    let k: Ident = vs::any();
    vs::assume(k == "const" || k == "static");
    helper_small(vec![TokenTree::Ident(k), any_id(), any_id(), pn(':'), any(), any(), any(), any()]);
}
pub fn function() {
    helper_small(vec![id("fn"), any_id(), grp(Delimiter::Parenthesis, vec![]), any(), any(), any(), any(), any()]);
}
pub fn qualified_function() {
    helper_small(vec![any(), any(), any(), id("fn"), id("f"), grp(Delimiter::Parenthesis, vec![]), any(), any()]);
}
pub fn alias() {
    helper_small(vec![id("type"), any_id(), any(), any(), any(), any()]);
}
pub fn impl_() {
    helper_small(vec![id("impl"), any(), any(), any(), any(), grp(Delimiter::Brace, vec![])]);
}
pub fn extern_crate() {
    helper_small(vec![id("extern"), id("crate"), any(), any(), any(), any(), any()]);
}
pub fn module() {
    helper_small(vec![any(), id("mod"), any_id(), any(), any()]);
}
fn helper_members(v: Vec<TokenTree>) {
    vs::bounded(2);
    for h in [vec![id("impl"), id("T")], vec![id("extern")], vec![id("trait"), id("T")]] {
        let mut w = h;
        w.push(grp(Delimiter::Brace, v.clone()));
        let s: TokenStream = w.into_iter().collect();
        let mut it = s.into_iter().peekable();
        match consume_item(&mut it) {
            Ok(Item::Impl(i)) => {
                for m in i.body_items.iter() {
                    aside_member(m);
                }
            }
            Ok(Item::ExternBlock(i)) => {
                for m in i.body_items.iter() {
                    aside_member(m);
                }
            }
            Ok(Item::Trait(i)) => {
                for m in i.body_items.iter() {
                    aside_trait_member(m);
                }
            }
            _ => vs::unreachable("C03 the keyword gives the kind"),
        }
    }
}
pub fn member_constant() {
    helper_members(vec![any_id(), any_id(), any_id(), pn(':'), any(), any(), any()]);
}
pub fn member_function() {
    helper_members(vec![any_id(), id("fn"), any_id(), grp(Delimiter::Parenthesis, vec![]), any(), any(), any(), any()]);
}
pub fn member_alias() {
    helper_members(vec![id("type"), any_id(), any(), any(), any(), any()]);
}
pub fn generics() {
    helper_small(vec![id("struct"), id("S"), pn('<'), any(), any(), any(), pn('>'), pn(';')]);
}
pub fn generics_const() {
    helper_small(vec![id("struct"), id("S"), pn('<'), any(), id("N"), any(), any(), any(), any(), pn(';')]);
}
pub fn where_() {
    helper_small(vec![id("struct"), id("S"), id("where"), id("A"), any(), id("B"), any(), any(), any()]);
}
pub fn tuple_fields() {
    helper_small(vec![id("struct"), id("S"), grp(Delimiter::Parenthesis, vec![any(), any(), any(), any()]), pn(';')]);
}
pub fn named_fields() {
    helper_small(vec![id("struct"), id("S"), grp(Delimiter::Brace, vec![any(), any_id(), any(), any(), any()])]);
}
pub fn variants() {
    helper_small(vec![id("enum"), id("S"), grp(Delimiter::Brace, vec![any(), any(), any(), any()])]);
}
pub fn union_fields() {
    helper_small(vec![id("union"), id("S"), grp(Delimiter::Brace, vec![any(), any_id(), any(), any(), any()])]);
}
pub fn params() {
    helper_small(vec![id("fn"), id("f"), grp(Delimiter::Parenthesis, vec![any(), any(), any(), any()]), pn(';')]);
}
pub fn receiver() {
    helper_small(vec![id("fn"), id("f"), grp(Delimiter::Parenthesis, vec![any(), any(), any(), id("self"), any()]), pn(';')]);
}
pub fn attributes() {
    helper_small(vec![pn('#'), any(), any(), any(), id("struct"), id("S"), pn(';')]);
}
pub fn inner_attributes() {
    helper_small(vec![id("impl"), id("S"), grp(Delimiter::Brace, vec![pn('#'), any(), any(), any(), any()])]);
}
/// the kind follows from the keyword
fn aside_kind(i: &Item, k: &str) {
    let ok = match i {
        Item::Struct(_) => k == "struct",
        Item::Enum(_) => k == "enum",
        Item::Union(_) => k == "union",
        Item::Module(_) => k == "mod",
        Item::Trait(_) => k == "trait",
        Item::Impl(_) => k == "impl",
        Item::TypeAlias(_) => k == "type",
        Item::Function(_) => k == "fn",
        Item::Constant(_) => k == "const" || k == "static",
        Item::UseDeclaration(_) => k == "use",
        Item::Macro(_) => k == "macro",
        Item::ExternBlock(_) => k == "extern",
        Item::ExternCrate(_) => k == "extern crate",
        _ => false,
    };
    vs::require(ok, "C03 the keyword gives the kind");
}
fn helper_kind(before: Vec<TokenTree>, kw: &str, after: Vec<TokenTree>) {
    vs::bounded(2);
    let mut v = before;
    match kw {
        "extern crate" => v.extend(vec![id("extern"), id("crate")]),
        "macro" => {
            let i: Ident = vs::any();
            vs::assume(i != "impl" && i != "pub" && i != "crate" && i != "type" && i != "struct" && i != "enum" && i != "use");
            v.extend(vec![TokenTree::Ident(i), pn('!')])
        }
        k => v.push(id(k)),
    }
    v.extend(after);
    let s: TokenStream = v.into_iter().collect();
    let mut it = s.into_iter().peekable();
    if let Ok(item) = consume_item(&mut it) {
        aside_kind(&item, kw);
    }
}
pub fn kind_struct() {
    helper_kind(vec![], "struct", vec![any_id(), any(), any(), any()]);
}
pub fn kind_enum() {
    helper_kind(vec![], "enum", vec![any_id(), any(), any(), any()]);
}
pub fn kind_union() {
    helper_kind(vec![], "union", vec![any_id(), any(), any(), any()]);
}
pub fn kind_mod() {
    helper_kind(vec![], "mod", vec![any_id(), any(), any()]);
}
pub fn kind_unsafe_mod() {
    helper_kind(vec![id("unsafe")], "mod", vec![any_id(), any(), any()]);
}
pub fn kind_trait() {
    helper_kind(vec![id("pub"), id("unsafe")], "trait", vec![any_id(), any(), any()]);
}
pub fn kind_impl() {
    helper_kind(vec![id("unsafe")], "impl", vec![any(), any(), any()]);
}
pub fn kind_type() {
    helper_kind(vec![id("pub")], "type", vec![any(), any(), any(), any()]);
}
pub fn kind_fn() {
    helper_kind(vec![id("const"), id("unsafe"), id("extern")], "fn", vec![any(), any(), any(), any()]);
}
pub fn kind_plain_fn() {
    helper_kind(vec![id("unsafe")], "fn", vec![any(), any(), any()]);
}
pub fn kind_const() {
    helper_kind(vec![id("pub")], "const", vec![any_id(), pn(':'), any(), any(), any(), any()]);
}
pub fn kind_static() {
    helper_kind(vec![id("pub")], "static", vec![any_id(), any(), any(), any(), any()]);
}
pub fn kind_use() {
    helper_kind(vec![id("pub")], "use", vec![any(), any(), any()]);
}
pub fn kind_extern() {
    helper_kind(vec![id("unsafe")], "extern", vec![any_grp(Delimiter::Brace), any()]);
}
pub fn kind_extern_abi() {
    let l: Literal = vs::any();
    helper_kind(vec![], "extern", vec![TokenTree::Literal(l), any_grp(Delimiter::Brace), any()]);
}
pub fn kind_extern_crate() {
    helper_kind(vec![id("pub")], "extern crate", vec![any(), any(), any(), any()]);
}
pub fn kind_macro() {
    helper_kind(vec![], "macro", vec![any(), any(), any()]);
}

fn type_name() -> TokenTree {
    let i: Ident = vs::any();
    vs::assume(i != "pub" && i != "crate");
    TokenTree::Ident(i)
}
/// The fields of `struct S(..)` or of a tuple variant.
fn helper_fields(in_enum: bool, v: Vec<TokenTree>) -> Vec<TupleField> {
    let body = grp(Delimiter::Parenthesis, v);
    let v = if in_enum {
        vec![id("enum"), id("E"), grp(Delimiter::Brace, vec![id("V"), body])]
    } else {
        vec![id("struct"), id("S"), body, pn(';')]
    };
    let s: TokenStream = v.into_iter().collect();
    let mut it = s.into_iter().peekable();
    vs::no_panic("C20 a tuple field of any visibility and type is accepted");
    let r = consume_item(&mut it);
    vs::panics();
    let f = match r {
        Ok(Item::Struct(s)) => s.fields,
        Ok(Item::Enum(e)) => e.variants.inner[0].0.fields.clone(),
        _ => Fields::Unit,
    };
    match f {
        Fields::Tuple(t) => t.fields.inner.into_iter().map(|(f, _)| f).collect(),
        _ => {
            vs::unreachable("C03 a parenthesised body has tuple fields");
            Vec::new()
        }
    }
}
fn helper_crate_path(in_enum: bool, second: bool) {
    let colon = TokenTree::Punct(Punct::new(':', Spacing::Joint));
    let ty = vec![id("crate"), colon, pn(':'), type_name()];
    let mut v = Vec::new();
    if second {
        v.extend(vec![id("pub"), type_name(), pn(',')]);
    }
    v.extend(ty.clone());
    if second {
        v.push(pn(','));
    }
    let fs = helper_fields(in_enum, v);
    let i = if second { 1 } else { 0 };
    vs::require(fs.len() == i + 1, "C03 one tuple field per type");
    vs::require(fs[i].vis_marker.is_none(), "C03 `crate` at the start of a path is no visibility marker");
    vs::same(fs[i].ty.tokens.clone(), ty, "C03 a field type that starts with `crate` is kept whole");
}
pub fn crate_path() {
    helper_crate_path(false, false);
}
pub fn crate_path2() {
    helper_crate_path(false, true);
}
pub fn crate_path_variant() {
    helper_crate_path(true, false);
}
fn helper_pub_parens(in_enum: bool, more: bool) {
    let g = any_grp(Delimiter::Parenthesis);
    let mut v = vec![id("pub"), g.clone()];
    if more {
        v.extend(vec![pn(','), type_name()]);
    }
    let fs = helper_fields(in_enum, v);
    vs::require(fs.len() == if more { 2 } else { 1 }, "C03 one tuple field per type");
    vs::require(matches!(&fs[0].vis_marker, Some(m) if m.tk_token2.is_none()), "C03 the parenthesised type after `pub` is no part of the visibility");
    vs::same(fs[0].ty.tokens.clone(), vec![g], "C03 the parenthesised type after `pub` is the field's type");
}
pub fn pub_parens() {
    helper_pub_parens(false, false);
}
pub fn pub_parens2() {
    helper_pub_parens(false, true);
}
pub fn pub_parens_variant() {
    helper_pub_parens(true, false);
}
/// `pub(..) T`, `crate T`, `pub T`
pub fn field_visibility() {
    let g = any_grp(Delimiter::Parenthesis);
    let t = type_name();
    let fs = helper_fields(false, vec![id("pub"), g.clone(), t.clone(), pn(','), id("crate"), t.clone(), pn(','), id("pub"), t.clone()]);
    vs::require(fs.len() == 3, "C03 one tuple field per type");
    vs::require(matches!(&fs[0].vis_marker, Some(m) if m.tk_token2.is_some()), "C03 a restricted visibility keeps its parentheses");
    vs::require(matches!(&fs[1].vis_marker, Some(m) if m.tk_token2.is_none()), "C03 `crate` in front of a type is its visibility");
    vs::require(matches!(&fs[2].vis_marker, Some(m) if m.tk_token2.is_none()), "C03 `pub` in front of a type is its visibility");
    for f in fs.iter() {
        vs::same(f.ty.tokens.clone(), vec![t.clone()], "C03 the type after a visibility marker is the field's type");
    }
}
