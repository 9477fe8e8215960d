//! A copy of any value is equal to it; defaults are empty.
use crate::vs;
use proc_macro2::*;
use quote::ToTokens;
use venial::*;

fn copy<T: Clone>(x: T) {
    let y = x.clone();
    vs::same(y, x, "C21 a clone is equal to the original");
}

pub fn clone_item() {
    copy::<Item>(vs::any())
}
pub fn clone_struct() {
    copy::<Struct>(vs::any())
}
pub fn clone_fields() {
    copy::<Fields>(vs::any())
}
pub fn clone_tuple_fields() {
    copy::<TupleFields>(vs::any())
}
pub fn clone_named_fields() {
    copy::<NamedFields>(vs::any())
}
pub fn clone_enum() {
    copy::<Enum>(vs::any())
}
pub fn clone_enum_variant() {
    copy::<EnumVariant>(vs::any())
}
pub fn clone_enum_variant_value() {
    copy::<EnumVariantValue>(vs::any())
}
pub fn clone_constant() {
    copy::<Constant>(vs::any())
}
pub fn clone_type_alias() {
    copy::<TypeAlias>(vs::any())
}
pub fn clone_union() {
    copy::<Union>(vs::any())
}
pub fn clone_module() {
    copy::<Module>(vs::any())
}
pub fn clone_trait() {
    copy::<Trait>(vs::any())
}
pub fn clone_impl() {
    copy::<Impl>(vs::any())
}
pub fn clone_impl_member() {
    copy::<ImplMember>(vs::any())
}
pub fn clone_trait_member() {
    copy::<TraitMember>(vs::any())
}
pub fn clone_function() {
    copy::<Function>(vs::any())
}
pub fn clone_fn_qualifiers() {
    copy::<FnQualifiers>(vs::any())
}
pub fn clone_fn_param() {
    copy::<FnParam>(vs::any())
}
pub fn clone_fn_receiver_param() {
    copy::<FnReceiverParam>(vs::any())
}
pub fn clone_fn_typed_param() {
    copy::<FnTypedParam>(vs::any())
}
pub fn clone_tuple_field() {
    copy::<TupleField>(vs::any())
}
pub fn clone_named_field() {
    copy::<NamedField>(vs::any())
}
pub fn clone_attribute() {
    copy::<Attribute>(vs::any())
}
pub fn clone_attribute_value() {
    copy::<AttributeValue>(vs::any())
}
pub fn clone_vis_marker() {
    copy::<VisMarker>(vs::any())
}
pub fn clone_path() {
    copy::<Path>(vs::any())
}
pub fn clone_path_segment() {
    copy::<PathSegment>(vs::any())
}
pub fn clone_generic_param_list() {
    copy::<GenericParamList>(vs::any())
}
pub fn clone_generic_param() {
    copy::<GenericParam>(vs::any())
}
pub fn clone_generic_bound() {
    copy::<GenericBound>(vs::any())
}
pub fn clone_generic_arg_list() {
    copy::<GenericArgList>(vs::any())
}
pub fn clone_generic_arg() {
    copy::<GenericArg>(vs::any())
}
pub fn clone_lifetime() {
    copy::<Lifetime>(vs::any())
}
pub fn clone_where_clause() {
    copy::<WhereClause>(vs::any())
}
pub fn clone_where_clause_predicate() {
    copy::<WhereClausePredicate>(vs::any())
}
pub fn clone_type_expr() {
    copy::<TypeExpr>(vs::any())
}
pub fn clone_value_expr() {
    copy::<ValueExpr>(vs::any())
}
pub fn clone_use_declaration() {
    copy::<UseDeclaration>(vs::any())
}
pub fn clone_macro() {
    copy::<Macro>(vs::any())
}
pub fn clone_extern_block() {
    copy::<ExternBlock>(vs::any())
}
pub fn clone_extern_crate() {
    copy::<ExternCrate>(vs::any())
}
pub fn clone_punctuated() {
    copy::<Punctuated<NamedField>>(vs::any())
}
pub fn clone_group_span() {
    copy::<GroupSpan>(vs::any())
}
pub fn clone_error() {
    copy::<Error>(vs::any())
}

pub fn default_params() {
    let p = GenericParamList::default();
    vs::require(p.params.inner.is_empty(), "C21 a default list is empty");
    vs::require(p.tk_l_bracket.as_char() == '<' && p.tk_r_bracket.as_char() == '>', "C21 a default parameter list has its brackets");
}
pub fn default_where() {
    let w = WhereClause::default();
    vs::require(w.items.inner.is_empty(), "C21 a default list is empty");
    vs::require(w.tk_where == "where", "C21 a default where clause has its keyword");
}
pub fn default_list() {
    let l: Punctuated<NamedField> = Punctuated::default();
    vs::require(l.inner.is_empty() && l.len() == 0 && l.is_empty(), "C21 a default list is empty");
    vs::require(!l.skip_last, "C21 a default list has no comma to leave out");
    let n: Punctuated<NamedField> = Punctuated::new();
    vs::require(n.inner.is_empty(), "C21 a new list is empty");
}
/// Clearing an old value in place gives the same as a clone.
fn over<T: Clone>(mut old: T, x: T) {
    old.clone_from(&x);
    vs::same(old, x, "C21 a clone is equal to the original");
}
pub fn over_item() {
    over::<Item>(vs::any(), vs::any())
}
pub fn over_list() {
    over::<Punctuated<NamedField>>(vs::any(), vs::any())
}
pub fn over_error() {
    over::<Error>(vs::any(), vs::any())
}
