//! The location a node reports is the one of its printed tokens.
use crate::vs;
use proc_macro2::*;
use quote::spanned::Spanned;
use quote::ToTokens;
use venial::*;

macro_rules! span {
    ($n:ident, $T:ty) => {
        pub fn $n() {
            let x: $T = vs::any();
            vs::same(x.span(), x.to_token_stream().__span(), concat!("C02 ", stringify!($T), "::span() is the location of the printed tokens"));
        }
    };
}
span! {span_attribute, Attribute}
span! {span_attribute_value, AttributeValue}
span! {span_item, Item}
span! {span_enum, Enum}
span! {span_enum_variant, EnumVariant}
span! {span_enum_variant_value, EnumVariantValue}
span! {span_function, Function}
span! {span_generic_bound, GenericBound}
span! {span_generic_param, GenericParam}
span! {span_generic_param_list, GenericParamList}
span! {span_named_field, NamedField}
span! {span_struct, Struct}
span! {span_fields, Fields}
span! {span_tuple_field, TupleField}
span! {span_type_expr, TypeExpr}
span! {span_union, Union}
span! {span_vis_marker, VisMarker}
span! {span_where_clause, WhereClause}
span! {span_where_clause_predicate, WhereClausePredicate}

pub fn span_inline_args() {
    let l: GenericParamList = vs::any();
    let x = l.as_inline_args();
    vs::same(x.span(), x.to_token_stream().__span(), "C02 InlineGenericArgs::span() is the location of the printed tokens");
}
