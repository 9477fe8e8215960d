//! Long declarations: many parts of every kind, deep nesting.
use crate::vs;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

type V = Vec<TokenTree>;
fn id(w: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(w, Span::call_site()))
}
fn pn(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
fn pj(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Joint))
}
fn grp(d: Delimiter, v: V) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
fn paren(v: V) -> TokenTree {
    grp(Delimiter::Parenthesis, v)
}
fn brace(v: V) -> TokenTree {
    grp(Delimiter::Brace, v)
}
fn stuff(d: Delimiter) -> TokenTree {
    let s: TokenStream = vs::any();
    TokenTree::Group(Group::new(d, s))
}
fn cat(v: Vec<V>) -> V {
    let mut o = Vec::new();
    for x in v {
        o.extend(x);
    }
    o
}
/// a name that is no keyword of the declaration grammar
fn name() -> Ident {
    let i: Ident = vs::any();
    vs::assume(!matches!(
        i.to_string().as_str(),
        "pub" | "crate" | "struct" | "enum" | "union" | "mod" | "trait" | "impl" | "static" | "use" | "default" | "const" | "async" | "unsafe" | "extern" | "fn" | "type" | "where" | "for" | "mut" | "self" | "as" | "dyn"
    ));
    i
}
fn nm(i: &Ident) -> TokenTree {
    TokenTree::Ident(i.clone())
}
fn lit() -> TokenTree {
    let l: Literal = vs::any();
    TokenTree::Literal(l)
}
fn attr(n: &Ident) -> V {
    vec![pn('#'), grp(Delimiter::Bracket, vec![nm(n), paren(vec![lit(), pn(',')])])]
}
fn inner_attr(n: &Ident) -> V {
    vec![pn('#'), pn('!'), grp(Delimiter::Bracket, vec![nm(n), pn('='), lit()])]
}
fn ty() -> V {
    vec![id("A"), pn('<'), pn('&'), pj('\''), id("a"), id("B"), pn(','), id("fn"), paren(vec![]), pj('-'), pn('>'), id("C"), pn('>')]
}
fn item(v: V) -> Item {
    let s: TokenStream = v.into_iter().collect();
    let was = s.clone();
    vs::no_panic("C20 a long declaration is accepted");
    let r = parse_item(s);
    vs::panics();
    match r {
        Ok(i) => {
            vs::same_tokens(i.to_token_stream(), was.clone(), "C01 a long declaration prints as it was");
            vs::same_tokens(i.to_token_stream(), was, "C02 a long declaration keeps its locations [loc]");
            i
        }
        Err(_) => {
            vs::unreachable("C20 a long declaration is accepted");
            panic!()
        }
    }
}
fn names(k: usize) -> Vec<Ident> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < k {
        v.push(name());
        i += 1;
    }
    v
}
fn order(a: Vec<Ident>, b: Vec<Ident>) {
    vs::same(a, b, "C03 the parts of a long declaration are kept in order");
}
fn paths(a: &Vec<Attribute>) -> Vec<Ident> {
    let mut r = Vec::new();
    for a in a.iter() {
        r.push(a.get_single_path_segment().unwrap().clone());
    }
    r
}
fn helper_kind() {
    vs::unreachable("C20 a long declaration is of its kind");
}

pub fn many_variants() {
    let n = names(16);
    let mut b = Vec::new();
    let mut i = 0;
    while i < 16 {
        b.push(nm(&n[i]));
        if i % 4 == 1 {
            b.push(paren(vec![id("A"), pn(','), id("B"), pn(',')]));
        }
        if i % 4 == 2 {
            b.push(brace(vec![id("a"), pn(':'), id("A")]));
        }
        if i % 4 == 3 {
            let t: TokenTree = vs::any();
            b.push(pn('='));
            b.push(t);
        }
        b.push(pn(','));
        i += 1;
    }
    match item(vec![id("enum"), id("E"), brace(b)]) {
        Item::Enum(e) => {
            let mut r = Vec::new();
            let mut i = 0;
            for (v, _) in e.variants.inner {
                r.push(v.name);
                vs::require(v.value.is_some() == (i % 4 == 3), "C03 the parts of a long declaration are kept in order");
                vs::require(matches!(v.fields, Fields::Tuple(_)) == (i % 4 == 1), "C03 the parts of a long declaration are kept in order");
                vs::require(matches!(v.fields, Fields::Named(_)) == (i % 4 == 2), "C03 the parts of a long declaration are kept in order");
                i += 1;
            }
            order(r, n);
        }
        _ => helper_kind(),
    }
}
/// named fields with attributes and visibility
fn helper_fields(n: &Vec<Ident>) -> V {
    let mut b = Vec::new();
    let mut i = 0;
    while i < n.len() {
        if i % 3 == 1 {
            b.extend(attr(&n[0]));
        }
        if i % 3 == 2 {
            b.extend(vec![id("pub"), paren(vec![id("crate")])]);
        }
        b.push(nm(&n[i]));
        b.push(pn(':'));
        b.extend(ty());
        if i + 1 < n.len() {
            b.push(pn(','));
        }
        i += 1;
    }
    b
}
fn helper_named(f: &NamedFields, n: Vec<Ident>) {
    let mut r = Vec::new();
    let mut i = 0;
    for (f, _) in f.fields.inner.iter() {
        r.push(f.name.clone());
        vs::require(f.attributes.len() == if i % 3 == 1 { 1 } else { 0 }, "C04 attributes of a long declaration stay on their part");
        vs::require(f.vis_marker.is_some() == (i % 3 == 2), "C03 the parts of a long declaration are kept in order");
        i += 1;
    }
    order(r, n);
}
pub fn many_named() {
    let n = names(15);
    let b = helper_fields(&n);
    match item(vec![id("struct"), id("S"), brace(b)]) {
        Item::Struct(s) => {
            if let Fields::Named(f) = &s.fields {
                helper_named(f, n);
            } else {
                helper_kind();
            }
        }
        _ => helper_kind(),
    }
}
pub fn many_union() {
    let n = names(15);
    let b = helper_fields(&n);
    match item(vec![id("union"), id("S"), brace(b)]) {
        Item::Union(s) => helper_named(&s.fields, n),
        _ => helper_kind(),
    }
}
pub fn many_tuple() {
    let n = names(15);
    let mut b = Vec::new();
    let mut i = 0;
    while i < n.len() {
        if i % 3 == 1 {
            b.extend(attr(&n[0]));
        }
        if i % 3 == 2 {
            b.push(id("pub"));
        }
        b.push(nm(&n[i]));
        b.push(pn(','));
        i += 1;
    }
    match item(vec![id("struct"), id("S"), paren(b), pn(';')]) {
        Item::Struct(s) => {
            let mut r = Vec::new();
            if let Fields::Tuple(f) = s.fields {
                let mut i = 0;
                for (f, _) in f.fields.inner {
                    vs::require(f.attributes.len() == if i % 3 == 1 { 1 } else { 0 }, "C04 attributes of a long declaration stay on their part");
                    vs::require(f.vis_marker.is_some() == (i % 3 == 2), "C03 the parts of a long declaration are kept in order");
                    if let TokenTree::Ident(i) = &f.ty.tokens[0] {
                        r.push(i.clone());
                    }
                    i += 1;
                }
            }
            order(r, n);
        }
        _ => helper_kind(),
    }
}
pub fn many_fn_params() {
    let n = names(15);
    let mut b = vec![pn('&'), pj('\''), id("a"), id("mut"), id("self"), pn(',')];
    let mut i = 0;
    while i < n.len() {
        if i % 3 == 1 {
            b.extend(attr(&n[0]));
        }
        if i % 3 == 2 {
            b.push(id("mut"));
        }
        b.push(nm(&n[i]));
        b.push(pn(':'));
        b.extend(ty());
        b.push(pn(','));
        i += 1;
    }
    match item(vec![id("fn"), id("f"), paren(b), pj('-'), pn('>'), id("R"), brace(vec![id("x"), lit()])]) {
        Item::Function(f) => {
            let mut r = Vec::new();
            let mut i = 0;
            for (p, _) in f.params.inner.iter() {
                match p {
                    FnParam::Receiver(_) => vs::require(r.is_empty(), "C03 the parts of a long declaration are kept in order"),
                    FnParam::Typed(p) => {
                        r.push(p.name.clone());
                        vs::require(p.attributes.len() == if i % 3 == 1 { 1 } else { 0 }, "C04 attributes of a long declaration stay on their part");
                        vs::require(p.tk_mut.is_some() == (i % 3 == 2), "C03 the parts of a long declaration are kept in order");
                        i += 1;
                    }
                }
            }
            vs::require(f.params.inner.len() == 16, "C03 the parts of a long declaration are kept in order");
            order(r, n);
        }
        _ => helper_kind(),
    }
}
/// lifetimes, types with and without a bound, constants
fn helper_generics(n: &Vec<Ident>) -> V {
    let mut v = vec![pn('<')];
    let mut i = 0;
    while i < n.len() {
        if i % 4 == 0 {
            v.push(pj('\''));
        }
        if i % 4 == 3 {
            v.push(id("const"));
        }
        v.push(nm(&n[i]));
        if i % 4 > 1 {
            v.push(pn(':'));
            v.extend(ty());
        }
        if i + 1 < n.len() {
            v.push(pn(','));
        }
        i += 1;
    }
    v.push(pn('>'));
    v
}
fn helper_where(n: &Vec<Ident>) -> V {
    let mut v = vec![id("where")];
    let mut i = 0;
    while i < n.len() {
        if i % 3 == 1 {
            v.extend(vec![id("for"), pn('<'), pj('\''), id("a"), pn('>')]);
        }
        v.push(nm(&n[i]));
        if i % 3 == 2 {
            v.extend(vec![pj(':'), pn(':'), id("T")]);
        }
        v.push(pn(':'));
        v.extend(ty());
        v.push(pn(','));
        i += 1;
    }
    v
}
fn helper_params(g: &Option<GenericParamList>, n: Vec<Ident>) {
    let mut r = Vec::new();
    let mut i = 0;
    for (p, _) in g.as_ref().unwrap().params.inner.iter() {
        r.push(p.name.clone());
        vs::require(p.is_lifetime() == (i % 4 == 0) && p.is_const() == (i % 4 == 3) && p.bound.is_some() == (i % 4 > 1), "C03 the parts of a long declaration are kept in order");
        i += 1;
    }
    order(r, n);
}
pub fn many_generics() {
    let n = names(13);
    match item(cat(vec![vec![id("struct"), id("S")], helper_generics(&n), vec![pn(';')]])) {
        Item::Struct(s) => helper_params(&s.generic_params, n),
        _ => helper_kind(),
    }
}
pub fn many_generics_fn() {
    let n = names(13);
    match item(cat(vec![vec![id("fn"), id("f")], helper_generics(&n), vec![paren(vec![]), pn(';')]])) {
        Item::Function(s) => helper_params(&s.generic_params, n),
        _ => helper_kind(),
    }
}
pub fn many_generics_impl() {
    let n = names(13);
    match item(cat(vec![vec![id("impl")], helper_generics(&n), vec![id("S"), brace(vec![])]])) {
        Item::Impl(s) => helper_params(&s.impl_generic_params, n),
        _ => helper_kind(),
    }
}
fn helper_clause(w: &Option<WhereClause>, n: Vec<Ident>) {
    let mut r = Vec::new();
    let mut i = 0;
    for (p, _) in w.as_ref().unwrap().items.inner.iter() {
        let at = if i % 3 == 1 { 5 } else { 0 };
        if let TokenTree::Ident(i) = &p.left_side[at] {
            r.push(i.clone());
        }
        i += 1;
    }
    order(r, n);
}
pub fn many_where() {
    let n = names(10);
    match item(cat(vec![vec![id("struct"), id("S"), paren(vec![])], helper_where(&n), vec![pn(';')]])) {
        Item::Struct(s) => helper_clause(&s.where_clause, n),
        _ => helper_kind(),
    }
}
pub fn many_where_fn() {
    let n = names(10);
    match item(cat(vec![vec![id("fn"), id("f"), paren(vec![])], helper_where(&n), vec![brace(vec![id("x"), lit()])]])) {
        Item::Function(s) => helper_clause(&s.where_clause, n),
        _ => helper_kind(),
    }
}
pub fn many_where_trait() {
    let n = names(10);
    match item(cat(vec![vec![id("trait"), id("T"), pn(':'), id("A")], helper_where(&n), vec![brace(vec![])]])) {
        Item::Trait(s) => helper_clause(&s.where_clause, n),
        _ => helper_kind(),
    }
}
pub fn many_attrs() {
    let n = names(14);
    let mut v = Vec::new();
    for i in n.iter() {
        v.extend(attr(i));
    }
    v.extend(vec![id("struct"), id("S"), pn(';')]);
    match item(v) {
        Item::Struct(s) => vs::same(paths(&s.attributes), n, "C04 many attributes are kept in order"),
        _ => helper_kind(),
    }
}
pub fn many_inner_attrs_mod() {
    let n = names(14);
    let mut v = Vec::new();
    for i in n.iter() {
        v.extend(inner_attr(i));
    }
    v.extend(attr(&n[1]));
    v.extend(vec![id("struct"), id("S"), pn(';')]);
    match item(vec![id("mod"), id("m"), brace(v)]) {
        Item::Module(m) => {
            vs::same(paths(&m.inner_attributes), n, "C04 many attributes are kept in order");
            vs::require(m.members[0].attributes().len() == 1, "C04 attributes of a long declaration stay on their part");
        }
        _ => helper_kind(),
    }
}
pub fn many_inner_attrs_impl() {
    let n = names(14);
    let mut v = Vec::new();
    for i in n.iter() {
        v.extend(inner_attr(i));
    }
    v.extend(attr(&n[1]));
    v.extend(vec![id("type"), id("S"), pn('='), id("T"), pn(';')]);
    match item(vec![id("impl"), id("m"), brace(v)]) {
        Item::Impl(m) => {
            vs::same(paths(&m.inner_attributes), n, "C04 many attributes are kept in order");
            if let ImplMember::AssocType(t) = &m.body_items[0] {
                vs::require(t.attributes.len() == 1, "C04 attributes of a long declaration stay on their part");
            }
        }
        _ => helper_kind(),
    }
}
/// functions, constants, types and macros, in turn
fn helper_members(n: &Vec<Ident>, default: bool) -> V {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n.len() {
        v.extend(attr(&n[i]));
        if i % 4 == 0 {
            v.extend(vec![id("const"), id("unsafe"), id("fn"), nm(&n[i]), paren(vec![pn('&'), id("self")]), brace(vec![id("x"), lit()])]);
        }
        if i % 4 == 1 {
            v.extend(vec![id("const"), nm(&n[i]), pn(':')]);
            v.extend(ty());
            if default {
                v.extend(vec![pn('='), lit()]);
            }
            v.push(pn(';'));
        }
        if i % 4 == 2 {
            v.extend(vec![id("type"), nm(&n[i])]);
            if default {
                v.push(pn('='));
                v.extend(ty());
            }
            v.push(pn(';'));
        }
        if i % 4 == 3 {
            v.extend(vec![nm(&n[i]), pn('!'), brace(vec![id("x"), lit()])]);
        }
        i += 1;
    }
    v
}
fn own(a: &Vec<Attribute>, n: &Ident) {
    vs::require(a.len() == 1, "C04 attributes of a long declaration stay on their part");
    vs::require(a[0].get_single_path_segment() == Some(n), "C04 attributes of a long declaration stay on their part");
}
pub fn many_impl_members() {
    let n = names(12);
    let b = helper_members(&n, true);
    match item(vec![id("impl"), id("A"), id("for"), id("B"), brace(b)]) {
        Item::Impl(c) => {
            let mut r = Vec::new();
            let mut i = 0;
            for m in c.body_items.iter() {
                match m {
                    ImplMember::AssocFunction(f) if i % 4 == 0 => {
                        own(&f.attributes, &f.name);
                        r.push(f.name.clone());
                    }
                    ImplMember::AssocConstant(f) if i % 4 == 1 => {
                        own(&f.attributes, &f.name);
                        r.push(f.name.clone());
                    }
                    ImplMember::AssocType(f) if i % 4 == 2 => {
                        own(&f.attributes, &f.name);
                        r.push(f.name.clone());
                    }
                    ImplMember::Macro(f) if i % 4 == 3 => {
                        own(&f.attributes, &f.name);
                        r.push(f.name.clone());
                    }
                    _ => {}
                }
                i += 1;
            }
            order(r, n);
        }
        _ => helper_kind(),
    }
}
pub fn many_trait_members() {
    let n = names(12);
    let b = helper_members(&n, false);
    match item(vec![id("unsafe"), id("trait"), id("A"), brace(b)]) {
        Item::Trait(c) => {
            let mut r = Vec::new();
            let mut i = 0;
            for m in c.body_items.iter() {
                match m {
                    TraitMember::AssocFunction(f) if i % 4 == 0 => {
                        own(&f.attributes, &f.name);
                        r.push(f.name.clone());
                    }
                    TraitMember::AssocConstant(f) if i % 4 == 1 => {
                        own(&f.attributes, &f.name);
                        r.push(f.name.clone());
                    }
                    TraitMember::AssocType(f) if i % 4 == 2 => {
                        own(&f.attributes, &f.name);
                        r.push(f.name.clone());
                    }
                    TraitMember::Macro(f) if i % 4 == 3 => {
                        own(&f.attributes, &f.name);
                        r.push(f.name.clone());
                    }
                    _ => {}
                }
                i += 1;
            }
            order(r, n);
        }
        _ => helper_kind(),
    }
}
/// one declaration of each kind without a name of its own keyword
fn helper_item(k: usize, n: &Ident) -> V {
    match k {
        0 => vec![id("struct"), nm(n), pn(';')],
        1 => vec![id("pub"), id("enum"), nm(n), brace(vec![id("A"), pn('='), lit()])],
        2 => vec![id("union"), nm(n), brace(vec![id("a"), pn(':'), id("A")])],
        3 => vec![id("mod"), nm(n), pn(';')],
        4 => vec![id("trait"), nm(n), brace(vec![])],
        5 => vec![id("type"), nm(n), pn('='), id("A"), pn(';')],
        6 => vec![id("fn"), nm(n), paren(vec![]), brace(vec![id("x"), lit()])],
        7 => vec![id("static"), id("mut"), nm(n), pn(':'), id("A"), pn('='), lit(), pn(';')],
        8 => vec![id("const"), nm(n), pn(':'), id("A"), pn('='), lit(), pn(';')],
        9 => vec![id("extern"), id("crate"), nm(n), pn(';')],
        10 => vec![id("mod"), nm(n), brace(vec![])],
        _ => vec![id("struct"), nm(n), paren(vec![id("A"), pn(','), id("B")]), pn(';')],
    }
}
fn helper_is(k: usize, i: &Item) -> bool {
    match i {
        Item::Struct(_) => k == 0 || k == 11,
        Item::Enum(_) => k == 1,
        Item::Union(_) => k == 2,
        Item::Module(_) => k == 3 || k == 10,
        Item::Trait(_) => k == 4,
        Item::TypeAlias(_) => k == 5,
        Item::Function(_) => k == 6,
        Item::Constant(_) => k == 7 || k == 8,
        Item::ExternCrate(_) => k == 9,
        _ => false,
    }
}
pub fn many_mod_items() {
    let n = names(24);
    let mut v = Vec::new();
    let mut i = 0;
    while i < n.len() {
        v.extend(attr(&n[i]));
        v.extend(helper_item(i % 12, &n[i]));
        i += 1;
    }
    match item(vec![id("mod"), id("m"), brace(v)]) {
        Item::Module(m) => {
            vs::require(m.members.len() == n.len(), "C03 the parts of a long declaration are kept in order");
            let mut r = Vec::new();
            let mut i = 0;
            for m in m.members.iter() {
                vs::require(helper_is(i % 12, m), "C03 the parts of a long declaration are kept in order");
                let k = match m {
                    Item::Struct(s) => s.name.clone(),
                    Item::Enum(s) => s.name.clone(),
                    Item::Union(s) => s.name.clone(),
                    Item::Module(s) => s.name.clone(),
                    Item::Trait(s) => s.name.clone(),
                    Item::TypeAlias(s) => s.name.clone(),
                    Item::Function(s) => s.name.clone(),
                    Item::Constant(s) => s.name.clone(),
                    Item::ExternCrate(s) => s.name.clone(),
                    _ => continue,
                };
                own(m.attributes(), &k);
                r.push(k);
                i += 1;
            }
            order(r, n);
        }
        _ => helper_kind(),
    }
}
/// one after the other from one iterator, in two orders
fn helper_sequence(n: Vec<Ident>, step: usize) {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n.len() {
        v.extend(helper_item(i * step % 12, &n[i]));
        i += 1;
    }
    let s: TokenStream = v.into_iter().collect();
    let mut it = s.into_iter().peekable();
    let mut i = 0;
    while i < n.len() {
        vs::no_panic("C05 each of many declarations is consumed exactly");
        let r = consume_item(&mut it);
        vs::panics();
        match r {
            Ok(d) => vs::require(helper_is(i * step % 12, &d), "C05 each of many declarations is consumed exactly"),
            Err(_) => vs::unreachable("C05 each of many declarations is consumed exactly"),
        }
        i += 1;
    }
    vs::require(it.next().is_none(), "C05 each of many declarations is consumed exactly");
}
pub fn sequence() {
    helper_sequence(names(12), 1);
}
pub fn sequence_other() {
    helper_sequence(names(12), 7);
}
pub fn sequence_another() {
    helper_sequence(names(12), 5);
}
pub fn sequence_back() {
    helper_sequence(names(12), 11);
}
pub fn many_extern() {
    let n = names(12);
    let mut v = Vec::new();
    let mut i = 0;
    while i < n.len() {
        v.extend(attr(&n[i]));
        if i % 3 == 0 {
            v.extend(vec![id("pub"), id("fn"), nm(&n[i]), paren(vec![id("a"), pn(':'), id("A")]), pn(';')]);
        }
        if i % 3 == 1 {
            v.extend(vec![id("static"), nm(&n[i]), pn(':'), id("A"), pn(';')]);
        }
        if i % 3 == 2 {
            v.extend(vec![id("type"), nm(&n[i]), pn(';')]);
        }
        i += 1;
    }
    match item(vec![id("unsafe"), id("extern"), lit(), brace(v)]) {
        Item::ExternBlock(b) => vs::require(b.body_items.len() == 12, "C03 the parts of a long declaration are kept in order"),
        _ => helper_kind(),
    }
}
pub fn nested_modules() {
    let n = names(12);
    let mut v = vec![id("struct"), nm(&n[0]), pn(';')];
    let mut i = 0;
    while i < n.len() {
        v = vec![id("mod"), nm(&n[i]), brace(v)];
        i += 1;
    }
    let mut d = item(v);
    let mut i = n.len();
    while i > 0 {
        i -= 1;
        match d {
            Item::Module(m) => {
                vs::same(m.name, n[i].clone(), "C03 the parts of a long declaration are kept in order");
                vs::require(m.members.len() == 1, "C03 the parts of a long declaration are kept in order");
                d = m.members[0].clone();
            }
            _ => {
                helper_kind();
                return;
            }
        }
    }
    match d {
        Item::Struct(_) => {}
        _ => helper_kind(),
    }
}
/// an expression of many tokens
pub fn long_value() {
    let mut v = vec![id("const"), id("C"), pn(':'), id("A"), pn('=')];
    let mut i = 0;
    while i < 40 {
        v.push(id("x"));
        v.push(pn('+'));
        i += 1;
    }
    v.push(lit());
    v.push(pn(';'));
    match item(v) {
        Item::Constant(c) => vs::require(c.initializer.unwrap().tokens.len() == 81, "C03 the parts of a long declaration are kept in order"),
        _ => helper_kind(),
    }
}
pub fn long_use() {
    let mut v = vec![id("use")];
    let mut i = 0;
    while i < 20 {
        v.extend(vec![id("x"), pj(':'), pn(':')]);
        i += 1;
    }
    v.push(brace(vec![id("x"), lit()]));
    v.push(pn(';'));
    match item(v) {
        Item::UseDeclaration(_) => {}
        _ => helper_kind(),
    }
}
pub fn long_path() {
    let mut v: V = Vec::new();
    let n = names(12);
    let mut i = 0;
    while i < n.len() {
        if i > 0 {
            v.extend(vec![pj(':'), pn(':')]);
        }
        v.push(nm(&n[i]));
        if i % 3 == 2 {
            v.extend(vec![pn('<'), pj('\''), id("a"), pn(','), id("T"), pn('='), id("A"), pn('<'), id("B"), pn('>'), pn(','), id("C"), pn('>')]);
        }
        i += 1;
    }
    let was: TokenStream = v.clone().into_iter().collect();
    let t = TypeExpr { tokens: v };
    vs::no_panic("C19 a long path is read");
    let p = t.as_path();
    vs::panics();
    match p {
        None => vs::unreachable("C19 a long path is read"),
        Some(p) => {
            vs::same_tokens(p.to_token_stream(), was, "C19 a long path prints as the tokens of the type");
            let mut r = Vec::new();
            let mut i = 0;
            for s in p.segments.iter() {
                r.push(s.ident.clone());
                vs::require(s.generic_args.is_some() == (i % 3 == 2), "C19 a long path has its segments in order");
                if let Some(g) = &s.generic_args {
                    vs::require(g.args.inner.len() == 3, "C19 a long path has its segments in order");
                }
                i += 1;
            }
            vs::same(r, n, "C19 a long path has its segments in order");
        }
    }
}
pub fn long_discriminants() {
    let n = names(12);
    let mut b = Vec::new();
    let mut i = 0;
    while i < n.len() {
        b.push(nm(&n[i]));
        if i % 2 == 1 {
            b.extend(vec![pn('='), lit()]);
        }
        b.push(pn(','));
        i += 1;
    }
    b.push(id("Z"));
    b.push(pn('='));
    let (t, u): (TokenTree, TokenTree) = (vs::any(), vs::any());
    vs::assume(match &u {
        TokenTree::Punct(p) => p.as_char() != ',',
        _ => true,
    });
    b.push(t.clone());
    b.push(u);
    let mut v = vec![id("enum"), id("E"), brace(b)];
    let mut i = 0;
    while i < 5 {
        v = vec![id("mod"), id("m"), brace(v)];
        i += 1;
    }
    let s: TokenStream = v.into_iter().collect();
    vs::no_panic("C08 a discriminant of several tokens is not a panic");
    let r = parse_item(s);
    vs::panics();
    match r {
        Ok(_) => vs::unreachable("C08 a discriminant of several tokens is refused"),
        Err(e) => vs::same(e.span(), t.span(), "C08 the error is located at the discriminant"),
    }
}
