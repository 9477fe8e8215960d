//! Printing any value whatsoever, built by hand or parsed, completes.
use crate::vs;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

fn print<T: ToTokens>(x: T) {
    let mut o = TokenStream::new();
    x.to_tokens(&mut o);
    // forces the analysis to look into the printed tokens
    let _ = o.is_empty();
}

pub fn print_item() {
    print::<Item>(vs::any())
}
pub fn print_struct() {
    print::<Struct>(vs::any())
}
pub fn print_fields() {
    print::<Fields>(vs::any())
}
pub fn print_tuple_fields() {
    print::<TupleFields>(vs::any())
}
pub fn print_named_fields() {
    print::<NamedFields>(vs::any())
}
pub fn print_enum() {
    print::<Enum>(vs::any())
}
pub fn print_enum_variant() {
    print::<EnumVariant>(vs::any())
}
pub fn print_enum_variant_value() {
    print::<EnumVariantValue>(vs::any())
}
pub fn print_constant() {
    print::<Constant>(vs::any())
}
pub fn print_type_alias() {
    print::<TypeAlias>(vs::any())
}
pub fn print_union() {
    print::<Union>(vs::any())
}
pub fn print_module() {
    print::<Module>(vs::any())
}
pub fn print_trait() {
    print::<Trait>(vs::any())
}
pub fn print_impl() {
    print::<Impl>(vs::any())
}
pub fn print_impl_member() {
    print::<ImplMember>(vs::any())
}
pub fn print_trait_member() {
    print::<TraitMember>(vs::any())
}
pub fn print_function() {
    print::<Function>(vs::any())
}
pub fn print_fn_qualifiers() {
    print::<FnQualifiers>(vs::any())
}
pub fn print_fn_param() {
    print::<FnParam>(vs::any())
}
pub fn print_fn_receiver_param() {
    print::<FnReceiverParam>(vs::any())
}
pub fn print_fn_typed_param() {
    print::<FnTypedParam>(vs::any())
}
pub fn print_tuple_field() {
    print::<TupleField>(vs::any())
}
pub fn print_named_field() {
    print::<NamedField>(vs::any())
}
pub fn print_attribute() {
    print::<Attribute>(vs::any())
}
pub fn print_attribute_value() {
    print::<AttributeValue>(vs::any())
}
pub fn print_vis_marker() {
    print::<VisMarker>(vs::any())
}
pub fn print_path() {
    print::<Path>(vs::any())
}
pub fn print_path_segment() {
    print::<PathSegment>(vs::any())
}
pub fn print_generic_param_list() {
    print::<GenericParamList>(vs::any())
}
pub fn print_generic_param() {
    print::<GenericParam>(vs::any())
}
pub fn print_generic_bound() {
    print::<GenericBound>(vs::any())
}
pub fn print_generic_arg_list() {
    print::<GenericArgList>(vs::any())
}
pub fn print_generic_arg() {
    print::<GenericArg>(vs::any())
}
pub fn print_lifetime() {
    print::<Lifetime>(vs::any())
}
pub fn print_where_clause() {
    print::<WhereClause>(vs::any())
}
pub fn print_where_clause_predicate() {
    print::<WhereClausePredicate>(vs::any())
}
pub fn print_type_expr() {
    print::<TypeExpr>(vs::any())
}
pub fn print_value_expr() {
    print::<ValueExpr>(vs::any())
}
pub fn print_use_declaration() {
    print::<UseDeclaration>(vs::any())
}
pub fn print_macro() {
    print::<Macro>(vs::any())
}
pub fn print_extern_block() {
    print::<ExternBlock>(vs::any())
}
pub fn print_extern_crate() {
    print::<ExternCrate>(vs::any())
}
pub fn print_inline_generic_args() {
    let x: GenericParamList = vs::any();
    let mut o = TokenStream::new();
    x.as_inline_args().to_tokens(&mut o);
    let _ = o.is_empty();
}
pub fn print_list() {
    print::<Punctuated<TypeExpr>>(vs::any())
}
