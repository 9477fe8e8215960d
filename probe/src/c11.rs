//! Queries on fields, variants and attributes.
use crate::vs;
use proc_macro2::*;
use venial::*;

pub fn field_names() {
    let x: Struct = vs::any();
    let r: Vec<String> = x.field_names().into_iter().collect();
    let mut e: Vec<String> = Vec::new();
    match &x.fields {
        Fields::Unit => {}
        Fields::Tuple(t) => {
            let mut i: usize = 0;
            for _f in t.fields.inner.iter() {
                e.push(i.to_string());
                i += 1;
            }
        }
        Fields::Named(n) => {
            for f in n.fields.inner.iter() {
                e.push(f.0.name.to_string());
            }
        }
    }
    vs::same(r, e, "C11 field_names() has one name per field, in order");
}

pub fn field_tokens() {
    let x: Struct = vs::any();
    let r: Vec<TokenTree> = x.field_tokens().into_iter().collect();
    let mut e: Vec<TokenTree> = Vec::new();
    match &x.fields {
        Fields::Unit => {}
        Fields::Tuple(t) => {
            let mut i: usize = 0;
            for _f in t.fields.inner.iter() {
                e.push(TokenTree::Literal(Literal::usize_unsuffixed(i)));
                i += 1;
            }
        }
        Fields::Named(n) => {
            for f in n.fields.inner.iter() {
                e.push(TokenTree::Ident(f.0.name.clone()));
            }
        }
    }
    vs::same(r, e, "C11 field_tokens() has one token per field, in order");
}

pub fn field_types() {
    let x: Struct = vs::any();
    let r: Vec<&TypeExpr> = x.field_types().into_iter().collect();
    let mut e: Vec<&TypeExpr> = Vec::new();
    match &x.fields {
        Fields::Unit => {}
        Fields::Tuple(t) => {
            for f in t.fields.inner.iter() {
                e.push(&f.0.ty);
            }
        }
        Fields::Named(n) => {
            for f in n.fields.inner.iter() {
                e.push(&f.0.ty);
            }
        }
    }
    vs::same(r, e, "C11 field_types() has one type per field, in order");
}

pub fn is_c_enum() {
    let x: Enum = vs::any();
    let r = x.is_c_enum();
    for v in x.variants.inner.iter() {
        match &v.0.fields {
            Fields::Unit => {}
            _ => {
                vs::require(!r, "C11 is_c_enum() is false when a variant has a body");
                return;
            }
        }
    }
    vs::require(r, "C11 is_c_enum() is true when no variant has a body");
}

pub fn is_empty_variant() {
    let x: EnumVariant = vs::any();
    let r = x.is_empty_variant();
    let e = match &x.fields {
        Fields::Unit => true,
        _ => false,
    };
    vs::require(r == e, "C11 is_empty_variant() is true exactly for unit variants");
}

pub fn get_single_type() {
    let x: EnumVariant = vs::any();
    let r = x.get_single_type();
    if let Fields::Tuple(t) = &x.fields {
        if t.fields.inner.len() == 1 {
            match r {
                Some(f) => vs::same(f, &t.fields.inner[0].0, "C11 get_single_type() is the only tuple field"),
                None => vs::unreachable("C11 get_single_type() is present for a one-field tuple variant"),
            }
            return;
        }
    }
    vs::require(r.is_none(), "C11 get_single_type() is none unless there is exactly one tuple field");
}

pub fn single_path_segment() {
    let x: Attribute = vs::any();
    let r = x.get_single_path_segment();
    let mut ids: Vec<&Ident> = Vec::new();
    for t in x.path.iter() {
        if let TokenTree::Ident(i) = t {
            ids.push(i);
        }
    }
    if ids.len() == 1 {
        match r {
            Some(i) => vs::same(i, ids[0], "C11 get_single_path_segment() is the only segment"),
            None => vs::unreachable("C11 get_single_path_segment() is present for a one-segment path"),
        }
    } else {
        vs::require(r.is_none(), "C11 get_single_path_segment() is none unless there is exactly one segment");
    }
}

fn value(x: &AttributeValue, r: &[TokenTree]) {
    match x {
        AttributeValue::Group(_, t) => vs::same(r, t, "C11 get_value_tokens() is the group's contents"),
        AttributeValue::Equals(_, t) => vs::same(r, t, "C11 get_value_tokens() is what follows `=`"),
        AttributeValue::Empty => vs::require(r.is_empty(), "C11 get_value_tokens() is empty for a bare path"),
    }
}
pub fn attribute_value() {
    let x: AttributeValue = vs::any();
    value(&x, x.get_value_tokens());
}
pub fn attribute_value2() {
    let x: Attribute = vs::any();
    value(&x.value, x.get_value_tokens());
}
pub fn group_span_new() {
    let g: Group = vs::any();
    let s = GroupSpan::new(&g);
    vs::same(s.span, g.span(), "C02 GroupSpan::new keeps the location");
    vs::same(s.delimiter, g.delimiter(), "C02 GroupSpan::new keeps the delimiter");
}

pub fn is_static() {
    let x: Constant = vs::any();
    if x.tk_const_or_static == "static" {
        vs::require(x.is_static(), "C11 is_static() is true for a static");
    } else if x.tk_const_or_static == "const" {
        vs::require(!x.is_static(), "C11 is_static() is false for a const");
    }
}
