//! Generic parameters: classes, constructors, per-class queries.
use crate::vs;
use proc_macro2::*;
use venial::*;

#[derive(Clone, Copy, PartialEq)]
enum Class {
    Lifetime,
    Const,
    Ty,
    Other,
}
fn class_of(p: &GenericParam) -> Class {
    match &p.tk_prefix {
        None => Class::Ty,
        Some(TokenTree::Punct(c)) if c.as_char() == '\'' => Class::Lifetime,
        Some(TokenTree::Ident(i)) if i == "const" => Class::Const,
        Some(_) => Class::Other,
    }
}
fn is(c: Class, d: Class) -> bool {
    c as u8 == d as u8
}

pub fn classes() {
    let p: GenericParam = vs::any();
    let c = class_of(&p);
    vs::require(p.is_lifetime() == is(c, Class::Lifetime), "C12 is_lifetime() is true exactly for the prefix `'`");
    vs::require(p.is_const() == is(c, Class::Const), "C12 is_const() is true exactly for the prefix `const`");
    vs::require(p.is_ty() == is(c, Class::Ty), "C12 is_ty() is true exactly without a prefix");
}

fn named(p: &GenericParam, name: &str) {
    vs::same(p.name.to_string(), name.to_string(), "C12 constructor uses the given name");
}
fn bound(p: &GenericParam, b: Vec<TokenTree>) {
    match &p.bound {
        None => vs::unreachable("C12 constructor keeps the bound"),
        Some(g) => {
            vs::require(g.tk_colon.as_char() == ':', "C12 constructor introduces the bound with a colon");
            vs::same(&g.tokens, b, "C12 constructor keeps the bound's tokens");
        }
    }
}
fn apostrophe(p: &GenericParam) {
    match &p.tk_prefix {
        Some(TokenTree::Punct(c)) => {
            vs::require(c.as_char() == '\'', "C12 lifetime constructor uses an apostrophe");
            vs::require(
                match c.spacing() {
                    Spacing::Joint => true,
                    Spacing::Alone => false,
                },
                "C12 lifetime constructor joins the apostrophe to the name",
            );
        }
        _ => vs::unreachable("C12 lifetime constructor uses an apostrophe"),
    }
}

pub fn new_lifetime() {
    let n: &str = vs::any();
    vs::panics();
    let p = GenericParam::lifetime(n);
    vs::require(p.is_lifetime(), "C12 lifetime() creates a lifetime parameter");
    apostrophe(&p);
    named(&p, n);
    vs::require(p.bound.is_none(), "C12 lifetime() creates no bound");
}
pub fn new_bounded_lifetime() {
    let n: &str = vs::any();
    let b: Vec<TokenTree> = vs::any();
    vs::panics();
    let p = GenericParam::bounded_lifetime(n, b.clone());
    vs::require(p.is_lifetime(), "C12 bounded_lifetime() creates a lifetime parameter");
    apostrophe(&p);
    named(&p, n);
    bound(&p, b);
}
pub fn new_ty() {
    let n: &str = vs::any();
    vs::panics();
    let p = GenericParam::ty(n);
    vs::require(p.is_ty(), "C12 ty() creates a type parameter");
    named(&p, n);
    vs::require(p.bound.is_none(), "C12 ty() creates no bound");
}
pub fn new_bounded_ty() {
    let n: &str = vs::any();
    let b: Vec<TokenTree> = vs::any();
    vs::panics();
    let p = GenericParam::bounded_ty(n, b.clone());
    vs::require(p.is_ty(), "C12 bounded_ty() creates a type parameter");
    named(&p, n);
    bound(&p, b);
}
pub fn new_const() {
    let n: &str = vs::any();
    let b: Vec<TokenTree> = vs::any();
    vs::panics();
    let p = GenericParam::const_param(n, b.clone());
    vs::require(p.is_const(), "C12 const_param() creates a const parameter");
    named(&p, n);
    bound(&p, b);
}

fn of_class<'a>(l: &'a Option<GenericParamList>, c: Class) -> Vec<&'a GenericParam> {
    let mut v = Vec::new();
    if let Some(l) = l {
        for p in l.params.inner.iter() {
            if is(class_of(&p.0), c) {
                v.push(&p.0);
            }
        }
    }
    v
}
macro_rules! queries {
    ($a:ident, $b:ident, $c:ident, $T:ty) => {
        pub fn $a() {
            let x: $T = vs::any();
            let r: Vec<&GenericParam> = x.get_lifetime_params().collect();
            let e = of_class(&x.generic_params, Class::Lifetime);
            vs::same(r, e, "C12 get_lifetime_params() is exactly the lifetime parameters, in order");
        }
        pub fn $b() {
            let x: $T = vs::any();
            let r: Vec<&GenericParam> = x.get_type_params().collect();
            let e = of_class(&x.generic_params, Class::Ty);
            vs::same(r, e, "C12 get_type_params() is exactly the type parameters, in order");
        }
        pub fn $c() {
            let x: $T = vs::any();
            let r: Vec<&GenericParam> = x.get_const_params().collect();
            let e = of_class(&x.generic_params, Class::Const);
            vs::same(r, e, "C12 get_const_params() is exactly the const parameters, in order");
        }
    };
}
queries! {struct_lifetimes, struct_types, struct_consts, Struct}
queries! {enum_lifetimes, enum_types, enum_consts, Enum}
queries! {union_lifetimes, union_types, union_consts, Union}
