//! Every slot of a parsed tree holds its own token; attributes are of the right kind.
//! (Members of modules are items that consume_item returned: what is shown for its result holds for them.)
use crate::vs;
use proc_macro2::*;
use venial::*;

fn aside_ch(p: &Punct, c: char) {
    vs::require(p.as_char() == c, "C03 punctuation slot holds its token");
}
fn aside_opt_ch(p: &Option<Punct>, c: char) {
    if let Some(p) = p {
        aside_ch(p, c);
    }
}
fn aside_kw(i: &Ident, w: &str) {
    vs::require(i == w, "C03 keyword slot holds its keyword");
}
fn aside_opt_kw(i: &Option<Ident>, w: &str) {
    if let Some(i) = i {
        aside_kw(i, w);
    }
}
fn aside_colons(c: &[Punct; 2]) {
    aside_ch(&c[0], ':');
    aside_ch(&c[1], ':');
}
fn aside_delim(g: &GroupSpan, d: Delimiter) {
    vs::require(g.delimiter == d, "C03 delimiter of a body");
}
fn aside_attr(a: &Attribute, inner: bool) {
    aside_ch(&a.tk_hash, '#');
    match &a.tk_bang {
        Some(p) => {
            vs::require(inner, "C04 outer attributes have no bang");
            aside_ch(p, '!');
        }
        None => vs::require(!inner, "C04 inner attributes have a bang"),
    }
    aside_delim(&a.tk_brackets, Delimiter::Bracket);
    for t in a.path.iter() {
        match t {
            TokenTree::Group(_) => vs::unreachable("C04 no group in an attribute path"),
            TokenTree::Punct(p) => vs::require(p.as_char() != '=', "C04 no equals sign in an attribute path"),
            _ => {}
        }
    }
    if let AttributeValue::Equals(p, _) = &a.value {
        aside_ch(p, '=');
    }
}
fn aside_attrs(v: &Vec<Attribute>) {
    for a in v.iter() {
        aside_attr(a, false);
    }
}
fn aside_inner_attrs(v: &Vec<Attribute>) {
    for a in v.iter() {
        aside_attr(a, true);
    }
}
fn aside_vis(v: &Option<VisMarker>) {
    if let Some(v) = v {
        match &v.tk_token1 {
            TokenTree::Ident(i) => vs::require(i == "pub" || i == "crate", "C03 visibility starts with pub or crate"),
            _ => vs::unreachable("C03 visibility starts with a keyword"),
        }
        match &v.tk_token2 {
            None => {}
            Some(TokenTree::Group(g)) => {
                vs::require(g.delimiter() == Delimiter::Parenthesis, "C03 visibility scope is in parentheses")
            }
            Some(_) => vs::unreachable("C03 visibility scope is a group"),
        }
    }
}
fn aside_bound(b: &Option<GenericBound>) {
    if let Some(b) = b {
        aside_ch(&b.tk_colon, ':');
    }
}
fn aside_generics(g: &Option<GenericParamList>) {
    if let Some(g) = g {
        aside_ch(&g.tk_l_bracket, '<');
        aside_ch(&g.tk_r_bracket, '>');
        for (p, comma) in g.params.inner.iter() {
            aside_ch(comma, ',');
            match &p.tk_prefix {
                None => {}
                Some(TokenTree::Punct(p)) => aside_ch(p, '\''),
                Some(TokenTree::Ident(i)) => aside_kw(i, "const"),
                Some(_) => vs::unreachable("C03 prefix of a generic parameter"),
            }
            aside_bound(&p.bound);
        }
    }
}
fn aside_where(w: &Option<WhereClause>) {
    if let Some(w) = w {
        aside_kw(&w.tk_where, "where");
        for (p, comma) in w.items.inner.iter() {
            aside_ch(comma, ',');
            aside_ch(&p.bound.tk_colon, ':');
        }
    }
}
fn aside_named(f: &NamedFields) {
    aside_delim(&f.tk_braces, Delimiter::Brace);
    for (f, comma) in f.fields.inner.iter() {
        aside_ch(comma, ',');
        aside_attrs(&f.attributes);
        aside_vis(&f.vis_marker);
        aside_ch(&f.tk_colon, ':');
    }
}
fn aside_fields(f: &Fields) {
    match f {
        Fields::Unit => {}
        Fields::Tuple(f) => {
            aside_delim(&f.tk_parens, Delimiter::Parenthesis);
            for (f, comma) in f.fields.inner.iter() {
                aside_ch(comma, ',');
                aside_attrs(&f.attributes);
                aside_vis(&f.vis_marker);
            }
        }
        Fields::Named(f) => aside_named(f),
    }
}
fn aside_constant(c: &Constant, statics: bool) {
    aside_attrs(&c.attributes);
    aside_vis(&c.vis_marker);
    vs::require(c.tk_const_or_static == "const" || (statics && c.tk_const_or_static == "static"), "C03 keyword of a constant");
    aside_opt_kw(&c.tk_mut, "mut");
    aside_ch(&c.tk_colon, ':');
    aside_opt_ch(&c.tk_equals, '=');
    aside_ch(&c.tk_semicolon, ';');
}
fn aside_alias(t: &TypeAlias) {
    aside_attrs(&t.attributes);
    aside_vis(&t.vis_marker);
    aside_kw(&t.tk_type, "type");
    aside_bound(&t.bound);
    aside_opt_ch(&t.tk_equals, '=');
    aside_ch(&t.tk_semicolon, ';');
}
fn aside_function(f: &Function) {
    aside_attrs(&f.attributes);
    aside_vis(&f.vis_marker);
    aside_opt_kw(&f.qualifiers.tk_default, "default");
    aside_opt_kw(&f.qualifiers.tk_const, "const");
    aside_opt_kw(&f.qualifiers.tk_async, "async");
    aside_opt_kw(&f.qualifiers.tk_unsafe, "unsafe");
    aside_opt_kw(&f.qualifiers.tk_extern, "extern");
    aside_kw(&f.tk_fn_keyword, "fn");
    aside_generics(&f.generic_params);
    aside_delim(&f.tk_params_parens, Delimiter::Parenthesis);
    for (p, comma) in f.params.inner.iter() {
        aside_ch(comma, ',');
        match p {
            FnParam::Receiver(r) => {
                aside_attrs(&r.attributes);
                aside_opt_ch(&r.tk_ref, '&');
                if let Some(l) = &r.lifetime {
                    aside_ch(&l.tk_apostrophe, '\'');
                }
                aside_opt_kw(&r.tk_mut, "mut");
                aside_kw(&r.tk_self, "self");
            }
            FnParam::Typed(t) => {
                aside_attrs(&t.attributes);
                aside_opt_kw(&t.tk_mut, "mut");
                aside_ch(&t.tk_colon, ':');
            }
        }
    }
    aside_where(&f.where_clause);
    if let Some(a) = &f.tk_return_arrow {
        aside_ch(&a[0], '-');
        aside_ch(&a[1], '>');
    }
    aside_opt_ch(&f.tk_semicolon, ';');
    if let Some(b) = &f.body {
        vs::require(b.delimiter() == Delimiter::Brace, "C03 delimiter of a body");
    }
}
fn aside_macro(m: &Macro) {
    aside_attrs(&m.attributes);
    aside_ch(&m.tk_bang, '!');
    aside_opt_ch(&m.tk_semicolon, ';');
}
fn aside_members(v: &Vec<ImplMember>, statics: bool) {
    for m in v.iter() {
        match m {
            ImplMember::AssocFunction(f) => aside_function(f),
            ImplMember::AssocConstant(c) => aside_constant(c, statics),
            ImplMember::AssocType(t) => aside_alias(t),
            ImplMember::Macro(m) => aside_macro(m),
            _ => vs::unreachable("C03 kind of an impl member"),
        }
    }
}
fn aside_trait_members(v: &Vec<TraitMember>) {
    for m in v.iter() {
        match m {
            TraitMember::AssocFunction(f) => aside_function(f),
            TraitMember::AssocConstant(c) => aside_constant(c, false),
            TraitMember::AssocType(t) => aside_alias(t),
            TraitMember::Macro(m) => aside_macro(m),
            _ => vs::unreachable("C03 kind of a trait member"),
        }
    }
}
pub fn helper_check(item: &Item) {
    match item {
        Item::Struct(s) => {
            aside_attrs(&s.attributes);
            aside_vis(&s.vis_marker);
            aside_kw(&s.tk_struct, "struct");
            aside_generics(&s.generic_params);
            aside_where(&s.where_clause);
            aside_fields(&s.fields);
            aside_opt_ch(&s.tk_semicolon, ';');
        }
        Item::Enum(e) => {
            aside_attrs(&e.attributes);
            aside_vis(&e.vis_marker);
            aside_kw(&e.tk_enum, "enum");
            aside_generics(&e.generic_params);
            aside_where(&e.where_clause);
            aside_delim(&e.tk_braces, Delimiter::Brace);
            for (v, comma) in e.variants.inner.iter() {
                aside_ch(comma, ',');
                aside_attrs(&v.attributes);
                aside_vis(&v.vis_marker);
                aside_fields(&v.fields);
                if let Some(x) = &v.value {
                    aside_ch(&x.tk_equal, '=');
                }
            }
        }
        Item::Union(u) => {
            aside_attrs(&u.attributes);
            aside_vis(&u.vis_marker);
            aside_kw(&u.tk_union, "union");
            aside_generics(&u.generic_params);
            aside_where(&u.where_clause);
            aside_named(&u.fields);
        }
        Item::Module(m) => {
            aside_attrs(&m.attributes);
            aside_vis(&m.vis_marker);
            aside_opt_kw(&m.tk_unsafe, "unsafe");
            aside_kw(&m.tk_mod, "mod");
            aside_opt_ch(&m.tk_semicolon, ';');
            if let Some(g) = &m.tk_braces {
                aside_delim(g, Delimiter::Brace);
            }
            aside_inner_attrs(&m.inner_attributes);
        }
        Item::Trait(t) => {
            aside_attrs(&t.attributes);
            aside_vis(&t.vis_marker);
            aside_opt_kw(&t.tk_unsafe, "unsafe");
            aside_kw(&t.tk_trait, "trait");
            aside_generics(&t.generic_params);
            aside_bound(&t.bound);
            aside_where(&t.where_clause);
            aside_delim(&t.tk_braces, Delimiter::Brace);
            aside_inner_attrs(&t.inner_attributes);
            aside_trait_members(&t.body_items);
        }
        Item::Impl(t) => {
            aside_attrs(&t.attributes);
            aside_opt_kw(&t.tk_unsafe, "unsafe");
            aside_kw(&t.tk_impl, "impl");
            aside_generics(&t.impl_generic_params);
            aside_opt_kw(&t.tk_for, "for");
            aside_where(&t.where_clause);
            aside_delim(&t.tk_braces, Delimiter::Brace);
            aside_inner_attrs(&t.inner_attributes);
            aside_members(&t.body_items, false);
        }
        Item::TypeAlias(t) => aside_alias(t),
        Item::Function(f) => aside_function(f),
        Item::Constant(c) => aside_constant(c, true),
        Item::UseDeclaration(u) => {
            aside_attrs(&u.attributes);
            aside_vis(&u.vis_marker);
            aside_kw(&u.tk_use, "use");
            aside_ch(&u.tk_semicolon, ';');
        }
        Item::Macro(m) => aside_macro(m),
        Item::ExternBlock(b) => {
            aside_attrs(&b.attributes);
            aside_vis(&b.vis_marker);
            aside_opt_kw(&b.tk_unsafe, "unsafe");
            aside_kw(&b.tk_extern, "extern");
            aside_delim(&b.tk_braces, Delimiter::Brace);
            aside_inner_attrs(&b.inner_attributes);
            aside_members(&b.body_items, true);
        }
        Item::ExternCrate(c) => {
            aside_attrs(&c.attributes);
            aside_vis(&c.vis_marker);
            aside_kw(&c.tk_extern, "extern");
            aside_kw(&c.tk_crate, "crate");
            aside_opt_kw(&c.tk_as, "as");
            aside_opt_kw(&c.tk_underscore, "_");
            aside_ch(&c.tk_semicolon, ';');
        }
        _ => vs::unreachable("C03 unknown kind of item"),
    }
}

pub fn slots() {
    let ts: TokenStream = vs::any();
    let mut it = ts.into_iter().peekable();
    if let Ok(item) = consume_item(&mut it) {
        helper_check(&item);
    }
}
