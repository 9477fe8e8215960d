//! Printing agrees with a reference printer, type by type.
use crate::vs;
use proc_macro2::*;
use quote::{ToTokens, TokenStreamExt};
use venial::*;

type TS = TokenStream;
fn put<T: ToTokens>(x: &T, o: &mut TS) {
    x.to_tokens(o)
}
fn list<T: ToTokens>(l: &Vec<T>, o: &mut TS) {
    for x in l.iter() {
        x.to_tokens(o);
    }
}
fn opt<T: ToTokens>(x: &Option<T>, o: &mut TS) {
    match x {
        Some(y) => y.to_tokens(o),
        None => {}
    }
}
fn group(d: &GroupSpan, inner: TS, o: &mut TS) {
    let mut g = Group::new(d.delimiter, inner);
    g.set_span(d.span);
    o.append(g);
}
fn pair(p: &Option<[Punct; 2]>, o: &mut TS) {
    if let Some(c) = p {
        o.append(c[0].clone());
        o.append(c[1].clone());
    }
}
fn check<T: ToTokens>(x: &T, expected: TS) {
    let mut actual = TS::new();
    x.to_tokens(&mut actual);
    vs::same_tokens(actual.clone(), expected.clone(), "C09 printed tokens, in order");
    vs::same_tokens(actual, expected, "C02 printed tokens keep location and delimiter [loc]");
}

pub fn struct_() {
    let x: Struct = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.tk_struct, &mut o);
    put(&x.name, &mut o);
    opt(&x.generic_params, &mut o);
    match &x.fields {
        Fields::Named(f) => {
            opt(&x.where_clause, &mut o);
            put(f, &mut o);
        }
        Fields::Tuple(f) => {
            put(f, &mut o);
            opt(&x.where_clause, &mut o);
        }
        Fields::Unit => opt(&x.where_clause, &mut o),
    }
    opt(&x.tk_semicolon, &mut o);
    check(&x, o);
}

pub fn fields() {
    let x: Fields = vs::any();
    let mut o = TS::new();
    match &x {
        Fields::Named(f) => put(f, &mut o),
        Fields::Tuple(f) => put(f, &mut o),
        Fields::Unit => {}
    }
    check(&x, o);
}

pub fn tuple_fields() {
    let x: TupleFields = vs::any();
    let mut o = TS::new();
    {
        let mut i = TS::new();
        put(&x.fields, &mut i);
        group(&x.tk_parens, i, &mut o);
    }
    check(&x, o);
}

pub fn named_fields() {
    let x: NamedFields = vs::any();
    let mut o = TS::new();
    {
        let mut i = TS::new();
        put(&x.fields, &mut i);
        group(&x.tk_braces, i, &mut o);
    }
    check(&x, o);
}

pub fn enum_() {
    let x: Enum = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.tk_enum, &mut o);
    put(&x.name, &mut o);
    opt(&x.generic_params, &mut o);
    opt(&x.where_clause, &mut o);
    {
        let mut i = TS::new();
        put(&x.variants, &mut i);
        group(&x.tk_braces, i, &mut o);
    }
    check(&x, o);
}

pub fn enum_variant() {
    let x: EnumVariant = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.name, &mut o);
    put(&x.fields, &mut o);
    opt(&x.value, &mut o);
    check(&x, o);
}

pub fn enum_variant_value() {
    let x: EnumVariantValue = vs::any();
    let mut o = TS::new();
    put(&x.tk_equal, &mut o);
    put(&x.value, &mut o);
    check(&x, o);
}

pub fn union_() {
    let x: Union = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.tk_union, &mut o);
    put(&x.name, &mut o);
    opt(&x.generic_params, &mut o);
    opt(&x.where_clause, &mut o);
    put(&x.fields, &mut o);
    check(&x, o);
}

pub fn module_inline() {
    let x: Module = vs::any();
    let mut o = TS::new();
    vs::assume(x.tk_semicolon.is_none() && x.tk_braces.is_some());
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    opt(&x.tk_unsafe, &mut o);
    put(&x.tk_mod, &mut o);
    put(&x.name, &mut o);
    let mut i = TS::new();
    list(&x.inner_attributes, &mut i);
    list(&x.members, &mut i);
    group(x.tk_braces.as_ref().unwrap(), i, &mut o);
    check(&x, o);
}

pub fn module_file() {
    let x: Module = vs::any();
    let mut o = TS::new();
    vs::assume(x.tk_semicolon.is_some() && x.tk_braces.is_none());
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    opt(&x.tk_unsafe, &mut o);
    put(&x.tk_mod, &mut o);
    put(&x.name, &mut o);
    opt(&x.tk_semicolon, &mut o);
    check(&x, o);
}

pub fn trait_() {
    let x: Trait = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    opt(&x.tk_unsafe, &mut o);
    put(&x.tk_trait, &mut o);
    put(&x.name, &mut o);
    opt(&x.generic_params, &mut o);
    opt(&x.bound, &mut o);
    opt(&x.where_clause, &mut o);
    {
        let mut i = TS::new();
        list(&x.inner_attributes, &mut i);
        list(&x.body_items, &mut i);
        group(&x.tk_braces, i, &mut o);
    }
    check(&x, o);
}

pub fn impl_() {
    let x: Impl = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.tk_unsafe, &mut o);
    put(&x.tk_impl, &mut o);
    opt(&x.impl_generic_params, &mut o);
    opt(&x.trait_ty, &mut o);
    opt(&x.tk_for, &mut o);
    put(&x.self_ty, &mut o);
    opt(&x.where_clause, &mut o);
    {
        let mut i = TS::new();
        list(&x.inner_attributes, &mut i);
        list(&x.body_items, &mut i);
        group(&x.tk_braces, i, &mut o);
    }
    check(&x, o);
}

pub fn impl_member() {
    let x: ImplMember = vs::any();
    let mut o = TS::new();
    match &x {
        ImplMember::AssocFunction(f) => put(f, &mut o),
        ImplMember::AssocConstant(f) => put(f, &mut o),
        ImplMember::AssocType(f) => put(f, &mut o),
        ImplMember::Macro(f) => put(f, &mut o),
        _ => vs::assume(false),
    }
    check(&x, o);
}

pub fn trait_member() {
    let x: TraitMember = vs::any();
    let mut o = TS::new();
    match &x {
        TraitMember::AssocFunction(f) => put(f, &mut o),
        TraitMember::AssocConstant(f) => put(f, &mut o),
        TraitMember::AssocType(f) => put(f, &mut o),
        TraitMember::Macro(f) => put(f, &mut o),
        _ => vs::assume(false),
    }
    check(&x, o);
}

pub fn constant() {
    let x: Constant = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.tk_const_or_static, &mut o);
    opt(&x.tk_mut, &mut o);
    put(&x.name, &mut o);
    put(&x.tk_colon, &mut o);
    put(&x.ty, &mut o);
    opt(&x.tk_equals, &mut o);
    opt(&x.initializer, &mut o);
    put(&x.tk_semicolon, &mut o);
    check(&x, o);
}

pub fn type_alias() {
    let x: TypeAlias = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.tk_type, &mut o);
    put(&x.name, &mut o);
    opt(&x.bound, &mut o);
    opt(&x.tk_equals, &mut o);
    opt(&x.initializer_ty, &mut o);
    put(&x.tk_semicolon, &mut o);
    check(&x, o);
}

pub fn function() {
    let x: Function = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.qualifiers, &mut o);
    put(&x.tk_fn_keyword, &mut o);
    put(&x.name, &mut o);
    opt(&x.generic_params, &mut o);
    {
        let mut i = TS::new();
        put(&x.params, &mut i);
        group(&x.tk_params_parens, i, &mut o);
    }
    pair(&x.tk_return_arrow, &mut o);
    opt(&x.return_ty, &mut o);
    opt(&x.where_clause, &mut o);
    opt(&x.body, &mut o);
    opt(&x.tk_semicolon, &mut o);
    check(&x, o);
}

pub fn fn_qualifiers() {
    let x: FnQualifiers = vs::any();
    let mut o = TS::new();
    opt(&x.tk_default, &mut o);
    opt(&x.tk_const, &mut o);
    opt(&x.tk_async, &mut o);
    opt(&x.tk_unsafe, &mut o);
    opt(&x.tk_extern, &mut o);
    opt(&x.extern_abi, &mut o);
    check(&x, o);
}

pub fn fn_param() {
    let x: FnParam = vs::any();
    let mut o = TS::new();
    match &x {
        FnParam::Receiver(f) => put(f, &mut o),
        FnParam::Typed(f) => put(f, &mut o),
    }
    check(&x, o);
}

pub fn fn_receiver() {
    let x: FnReceiverParam = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.tk_ref, &mut o);
    opt(&x.lifetime, &mut o);
    opt(&x.tk_mut, &mut o);
    put(&x.tk_self, &mut o);
    check(&x, o);
}

pub fn fn_typed() {
    let x: FnTypedParam = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.tk_mut, &mut o);
    put(&x.name, &mut o);
    put(&x.tk_colon, &mut o);
    put(&x.ty, &mut o);
    check(&x, o);
}

pub fn tuple_field() {
    let x: TupleField = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.ty, &mut o);
    check(&x, o);
}

pub fn named_field() {
    let x: NamedField = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.name, &mut o);
    put(&x.tk_colon, &mut o);
    put(&x.ty, &mut o);
    check(&x, o);
}

pub fn attribute() {
    let x: Attribute = vs::any();
    let mut o = TS::new();
    put(&x.tk_hash, &mut o);
    opt(&x.tk_bang, &mut o);
    {
        let mut i = TS::new();
        list(&x.path, &mut i);
        put(&x.value, &mut i);
        group(&x.tk_brackets, i, &mut o);
    }
    check(&x, o);
}

pub fn attribute_value() {
    let x: AttributeValue = vs::any();
    let mut o = TS::new();
    match &x {
        AttributeValue::Group(g, v) => {
            let mut i = TS::new();
            list(v, &mut i);
            group(g, i, &mut o);
        }
        AttributeValue::Equals(p, v) => {
            put(p, &mut o);
            list(v, &mut o);
        }
        AttributeValue::Empty => {}
    }
    check(&x, o);
}

pub fn vis_marker() {
    let x: VisMarker = vs::any();
    let mut o = TS::new();
    put(&x.tk_token1, &mut o);
    opt(&x.tk_token2, &mut o);
    check(&x, o);
}

pub fn path() {
    let x: Path = vs::any();
    let mut o = TS::new();
    list(&x.segments, &mut o);
    check(&x, o);
}

pub fn path_segment() {
    let x: PathSegment = vs::any();
    let mut o = TS::new();
    pair(&x.tk_separator_colons, &mut o);
    put(&x.ident, &mut o);
    opt(&x.generic_args, &mut o);
    check(&x, o);
}

pub fn generic_param_list() {
    let x: GenericParamList = vs::any();
    let mut o = TS::new();
    put(&x.tk_l_bracket, &mut o);
    put(&x.params, &mut o);
    put(&x.tk_r_bracket, &mut o);
    check(&x, o);
}

pub fn generic_param() {
    let x: GenericParam = vs::any();
    let mut o = TS::new();
    opt(&x.tk_prefix, &mut o);
    put(&x.name, &mut o);
    opt(&x.bound, &mut o);
    check(&x, o);
}

pub fn generic_bound() {
    let x: GenericBound = vs::any();
    let mut o = TS::new();
    put(&x.tk_colon, &mut o);
    list(&x.tokens, &mut o);
    check(&x, o);
}

pub fn generic_arg_list() {
    let x: GenericArgList = vs::any();
    let mut o = TS::new();
    pair(&x.tk_turbofish_colons, &mut o);
    put(&x.tk_l_bracket, &mut o);
    put(&x.args, &mut o);
    put(&x.tk_r_bracket, &mut o);
    check(&x, o);
}

pub fn generic_arg() {
    let x: GenericArg = vs::any();
    let mut o = TS::new();
    match &x {
        GenericArg::Lifetime { lifetime } => put(lifetime, &mut o),
        GenericArg::Binding { ident, tk_equals, ty } => {
            put(ident, &mut o);
            put(tk_equals, &mut o);
            put(ty, &mut o);
        }
        GenericArg::TypeOrConst { expr } => put(expr, &mut o),
    }
    check(&x, o);
}

pub fn lifetime() {
    let x: Lifetime = vs::any();
    let mut o = TS::new();
    put(&x.tk_apostrophe, &mut o);
    put(&x.name, &mut o);
    check(&x, o);
}

pub fn where_clause() {
    let x: WhereClause = vs::any();
    let mut o = TS::new();
    put(&x.tk_where, &mut o);
    put(&x.items, &mut o);
    check(&x, o);
}

pub fn where_predicate() {
    let x: WhereClausePredicate = vs::any();
    let mut o = TS::new();
    list(&x.left_side, &mut o);
    put(&x.bound, &mut o);
    check(&x, o);
}

pub fn type_expr() {
    let x: TypeExpr = vs::any();
    let mut o = TS::new();
    list(&x.tokens, &mut o);
    check(&x, o);
}

pub fn value_expr() {
    let x: ValueExpr = vs::any();
    let mut o = TS::new();
    list(&x.tokens, &mut o);
    check(&x, o);
}

pub fn use_declaration() {
    let x: UseDeclaration = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.tk_use, &mut o);
    put(&x.import_tree, &mut o);
    put(&x.tk_semicolon, &mut o);
    check(&x, o);
}

pub fn macro_() {
    let x: Macro = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    put(&x.name, &mut o);
    put(&x.tk_bang, &mut o);
    opt(&x.tk_declared_name, &mut o);
    {
        let mut i = TS::new();
        list(&x.inner_tokens, &mut i);
        group(&x.tk_braces_or_parens, i, &mut o);
    }
    opt(&x.tk_semicolon, &mut o);
    check(&x, o);
}

pub fn extern_block() {
    let x: ExternBlock = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    opt(&x.tk_unsafe, &mut o);
    put(&x.tk_extern, &mut o);
    opt(&x.extern_abi, &mut o);
    {
        let mut i = TS::new();
        list(&x.inner_attributes, &mut i);
        list(&x.body_items, &mut i);
        group(&x.tk_braces, i, &mut o);
    }
    check(&x, o);
}

pub fn extern_crate() {
    let x: ExternCrate = vs::any();
    let mut o = TS::new();
    list(&x.attributes, &mut o);
    opt(&x.vis_marker, &mut o);
    put(&x.tk_extern, &mut o);
    put(&x.tk_crate, &mut o);
    put(&x.name, &mut o);
    opt(&x.tk_as, &mut o);
    opt(&x.alias, &mut o);
    opt(&x.tk_underscore, &mut o);
    put(&x.tk_semicolon, &mut o);
    check(&x, o);
}

pub fn item() {
    let x: Item = vs::any();
    let mut o = TS::new();
    match &x {
        Item::Struct(d) => put(d, &mut o),
        Item::Enum(d) => put(d, &mut o),
        Item::Union(d) => put(d, &mut o),
        Item::Module(d) => put(d, &mut o),
        Item::Trait(d) => put(d, &mut o),
        Item::Impl(d) => put(d, &mut o),
        Item::TypeAlias(d) => put(d, &mut o),
        Item::Function(d) => put(d, &mut o),
        Item::Constant(d) => put(d, &mut o),
        Item::UseDeclaration(d) => put(d, &mut o),
        Item::Macro(d) => put(d, &mut o),
        Item::ExternBlock(d) => put(d, &mut o),
        Item::ExternCrate(d) => put(d, &mut o),
        _ => vs::assume(false),
    }
    check(&x, o);
}

pub fn punctuated() {
    let x: Punctuated<NamedField> = vs::any();
    let mut o = TS::new();
    let n = x.inner.len();
    let mut k = 0;
    for p in x.inner.iter() {
        put(&p.0, &mut o);
        if k + 1 < n || !x.skip_last {
            put(&p.1, &mut o);
        }
        k += 1;
    }
    check(&x, o);
}
