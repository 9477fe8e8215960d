//! Debug-printing any value whatsoever completes. (Nested values are formatted through `dyn Debug`: each type has its own harness.)
use crate::vs;
use proc_macro2::*;
use std::fmt::Debug;
use venial::*;

fn show<T: Debug>(x: T) {
    let mut s = String::new();
    let _ = Debug::fmt(&x, vs::formatter(&mut s));
}

pub fn debug_item() {
    show::<Item>(vs::any())
}
pub fn debug_struct() {
    show::<Struct>(vs::any())
}
pub fn debug_fields() {
    show::<Fields>(vs::any())
}
pub fn debug_tuple_fields() {
    show::<TupleFields>(vs::any())
}
pub fn debug_named_fields() {
    show::<NamedFields>(vs::any())
}
pub fn debug_enum() {
    show::<Enum>(vs::any())
}
pub fn debug_enum_variant() {
    show::<EnumVariant>(vs::any())
}
pub fn debug_enum_variant_value() {
    show::<EnumVariantValue>(vs::any())
}
pub fn debug_constant() {
    show::<Constant>(vs::any())
}
pub fn debug_type_alias() {
    show::<TypeAlias>(vs::any())
}
pub fn debug_union() {
    show::<Union>(vs::any())
}
pub fn debug_module() {
    show::<Module>(vs::any())
}
pub fn debug_trait() {
    show::<Trait>(vs::any())
}
pub fn debug_impl() {
    show::<Impl>(vs::any())
}
pub fn debug_impl_member() {
    show::<ImplMember>(vs::any())
}
pub fn debug_trait_member() {
    show::<TraitMember>(vs::any())
}
pub fn debug_function() {
    show::<Function>(vs::any())
}
pub fn debug_fn_qualifiers() {
    show::<FnQualifiers>(vs::any())
}
pub fn debug_fn_param() {
    show::<FnParam>(vs::any())
}
pub fn debug_fn_receiver_param() {
    show::<FnReceiverParam>(vs::any())
}
pub fn debug_fn_typed_param() {
    show::<FnTypedParam>(vs::any())
}
pub fn debug_tuple_field() {
    show::<TupleField>(vs::any())
}
pub fn debug_named_field() {
    show::<NamedField>(vs::any())
}
pub fn debug_attribute() {
    show::<Attribute>(vs::any())
}
pub fn debug_attribute_value() {
    show::<AttributeValue>(vs::any())
}
pub fn debug_vis_marker() {
    show::<VisMarker>(vs::any())
}
pub fn debug_path() {
    show::<Path>(vs::any())
}
pub fn debug_path_segment() {
    show::<PathSegment>(vs::any())
}
pub fn debug_generic_param_list() {
    show::<GenericParamList>(vs::any())
}
pub fn debug_generic_param() {
    show::<GenericParam>(vs::any())
}
pub fn debug_generic_bound() {
    show::<GenericBound>(vs::any())
}
pub fn debug_generic_arg_list() {
    show::<GenericArgList>(vs::any())
}
pub fn debug_generic_arg() {
    show::<GenericArg>(vs::any())
}
pub fn debug_lifetime() {
    show::<Lifetime>(vs::any())
}
pub fn debug_where_clause() {
    show::<WhereClause>(vs::any())
}
pub fn debug_where_clause_predicate() {
    show::<WhereClausePredicate>(vs::any())
}
pub fn debug_type_expr() {
    show::<TypeExpr>(vs::any())
}
pub fn debug_value_expr() {
    show::<ValueExpr>(vs::any())
}
pub fn debug_use_declaration() {
    show::<UseDeclaration>(vs::any())
}
pub fn debug_macro() {
    show::<Macro>(vs::any())
}
pub fn debug_extern_block() {
    show::<ExternBlock>(vs::any())
}
pub fn debug_extern_crate() {
    show::<ExternCrate>(vs::any())
}
pub fn debug_punctuated() {
    show::<Punctuated<NamedField>>(vs::any())
}
pub fn debug_group_span() {
    show::<GroupSpan>(vs::any())
}
pub fn debug_error() {
    show::<Error>(vs::any())
}
