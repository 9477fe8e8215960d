//! Item accessors.
use crate::vs;
use proc_macro2::*;
use venial::*;

pub fn attributes() {
    let x: Item = vs::any();
    let r = x.attributes();
    match &x {
        Item::Struct(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::Enum(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::Union(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::Module(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::Trait(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::Impl(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::TypeAlias(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::Function(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::Constant(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::UseDeclaration(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::Macro(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::ExternBlock(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        Item::ExternCrate(d) => vs::same(r, &d.attributes, "C10 attributes() is the declaration's list"),
        _ => vs::assume(false),
    }
}

pub fn generic_params() {
    let x: Item = vs::any();
    let r = x.generic_params();
    match &x {
        Item::Struct(d) => match (&r, &d.generic_params) {
            (Some(a), Some(b)) => vs::same(*a, b, "C10 generic_params() is the declaration's list"),
            (None, None) => {}
            _ => vs::unreachable("C10 generic_params() is present exactly when the declaration has them"),
        },
        Item::Enum(d) => match (&r, &d.generic_params) {
            (Some(a), Some(b)) => vs::same(*a, b, "C10 generic_params() is the declaration's list"),
            (None, None) => {}
            _ => vs::unreachable("C10 generic_params() is present exactly when the declaration has them"),
        },
        Item::Union(d) => match (&r, &d.generic_params) {
            (Some(a), Some(b)) => vs::same(*a, b, "C10 generic_params() is the declaration's list"),
            (None, None) => {}
            _ => vs::unreachable("C10 generic_params() is present exactly when the declaration has them"),
        },
        Item::Module(d) => vs::require(r.is_none(), "C10 generic_params() is none for this kind"),
        Item::Trait(d) => match (&r, &d.generic_params) {
            (Some(a), Some(b)) => vs::same(*a, b, "C10 generic_params() is the declaration's list"),
            (None, None) => {}
            _ => vs::unreachable("C10 generic_params() is present exactly when the declaration has them"),
        },
        Item::Impl(d) => match (&r, &d.impl_generic_params) {
            (Some(a), Some(b)) => vs::same(*a, b, "C10 generic_params() is the declaration's list"),
            (None, None) => {}
            _ => vs::unreachable("C10 generic_params() is present exactly when the declaration has them"),
        },
        Item::TypeAlias(d) => vs::require(r.is_none(), "C10 generic_params() is none for this kind"),
        Item::Function(d) => match (&r, &d.generic_params) {
            (Some(a), Some(b)) => vs::same(*a, b, "C10 generic_params() is the declaration's list"),
            (None, None) => {}
            _ => vs::unreachable("C10 generic_params() is present exactly when the declaration has them"),
        },
        Item::Constant(d) => vs::require(r.is_none(), "C10 generic_params() is none for this kind"),
        Item::UseDeclaration(d) => vs::require(r.is_none(), "C10 generic_params() is none for this kind"),
        Item::Macro(d) => vs::require(r.is_none(), "C10 generic_params() is none for this kind"),
        Item::ExternBlock(d) => vs::require(r.is_none(), "C10 generic_params() is none for this kind"),
        Item::ExternCrate(d) => vs::require(r.is_none(), "C10 generic_params() is none for this kind"),
        _ => vs::assume(false),
    }
}

pub fn name() {
    let x: Item = vs::any();
    let r = x.name();
    match &x {
        Item::Struct(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::Enum(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::Union(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::Module(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::Trait(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::Impl(d) => vs::require(r.is_none(), "C10 name() is none for this kind"),
        Item::TypeAlias(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::Function(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::Constant(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::UseDeclaration(d) => vs::require(r.is_none(), "C10 name() is none for this kind"),
        Item::Macro(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        Item::ExternBlock(d) => vs::require(r.is_none(), "C10 name() is none for this kind"),
        Item::ExternCrate(d) => match &r {
            Some(n) => vs::same(n, &d.name, "C10 name() is the declaration's name"),
            None => vs::unreachable("C10 name() is present"),
        },
        _ => vs::assume(false),
    }
}

pub fn attributes_mut() {
    let mut x: Item = vs::any();
    let y = x.clone();
    let n: Vec<Attribute> = vs::any();
    *x.attributes_mut() = n.clone();
    vs::same(x.attributes(), &n, "C10 attributes_mut() gives access to the list");
    *x.attributes_mut() = y.attributes().clone();
    vs::same(&x, &y, "C10 attributes_mut() gives access to nothing else");
}

pub fn generic_params_mut() {
    let mut x: Item = vs::any();
    let y = x.clone();
    let n: GenericParamList = vs::any();
    let has = x.generic_params().is_some();
    match x.generic_params_mut() {
        Some(p) => {
            vs::require(has, "C10 generic_params_mut() only where generic_params()");
            *p = n.clone();
        }
        None => vs::require(!has, "C10 generic_params_mut() wherever generic_params()"),
    }
    if has {
        match x.generic_params() {
            Some(p) => vs::same(p, &n, "C10 generic_params_mut() gives access to the list"),
            None => vs::unreachable("C10 generic_params_mut() keeps the list"),
        }
        match (x.generic_params_mut(), y.generic_params()) {
            (Some(p), Some(q)) => *p = q.clone(),
            _ => {}
        }
        vs::same(&x, &y, "C10 generic_params_mut() gives access to nothing else");
    }
}

pub fn as_struct() {
    let x: Item = vs::any();
    let r = x.as_struct();
    match &x {
        Item::Struct(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_struct() returns the declaration"),
            None => vs::unreachable("C10 as_struct() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_struct() is none for other kinds"),
    }
}

pub fn as_enum() {
    let x: Item = vs::any();
    let r = x.as_enum();
    match &x {
        Item::Enum(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_enum() returns the declaration"),
            None => vs::unreachable("C10 as_enum() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_enum() is none for other kinds"),
    }
}

pub fn as_union() {
    let x: Item = vs::any();
    let r = x.as_union();
    match &x {
        Item::Union(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_union() returns the declaration"),
            None => vs::unreachable("C10 as_union() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_union() is none for other kinds"),
    }
}

pub fn as_module() {
    let x: Item = vs::any();
    let r = x.as_module();
    match &x {
        Item::Module(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_module() returns the declaration"),
            None => vs::unreachable("C10 as_module() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_module() is none for other kinds"),
    }
}

pub fn as_trait() {
    let x: Item = vs::any();
    let r = x.as_trait();
    match &x {
        Item::Trait(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_trait() returns the declaration"),
            None => vs::unreachable("C10 as_trait() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_trait() is none for other kinds"),
    }
}

pub fn as_impl() {
    let x: Item = vs::any();
    let r = x.as_impl();
    match &x {
        Item::Impl(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_impl() returns the declaration"),
            None => vs::unreachable("C10 as_impl() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_impl() is none for other kinds"),
    }
}

pub fn as_type_alias() {
    let x: Item = vs::any();
    let r = x.as_type_alias();
    match &x {
        Item::TypeAlias(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_type_alias() returns the declaration"),
            None => vs::unreachable("C10 as_type_alias() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_type_alias() is none for other kinds"),
    }
}

pub fn as_function() {
    let x: Item = vs::any();
    let r = x.as_function();
    match &x {
        Item::Function(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_function() returns the declaration"),
            None => vs::unreachable("C10 as_function() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_function() is none for other kinds"),
    }
}

pub fn as_constant() {
    let x: Item = vs::any();
    let r = x.as_constant();
    match &x {
        Item::Constant(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_constant() returns the declaration"),
            None => vs::unreachable("C10 as_constant() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_constant() is none for other kinds"),
    }
}

pub fn as_use_declaration() {
    let x: Item = vs::any();
    let r = x.as_use_declaration();
    match &x {
        Item::UseDeclaration(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_use_declaration() returns the declaration"),
            None => vs::unreachable("C10 as_use_declaration() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_use_declaration() is none for other kinds"),
    }
}

pub fn as_macro() {
    let x: Item = vs::any();
    let r = x.as_macro();
    match &x {
        Item::Macro(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_macro() returns the declaration"),
            None => vs::unreachable("C10 as_macro() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_macro() is none for other kinds"),
    }
}

pub fn as_extern_block() {
    let x: Item = vs::any();
    let r = x.as_extern_block();
    match &x {
        Item::ExternBlock(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_extern_block() returns the declaration"),
            None => vs::unreachable("C10 as_extern_block() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_extern_block() is none for other kinds"),
    }
}

pub fn as_extern_crate() {
    let x: Item = vs::any();
    let r = x.as_extern_crate();
    match &x {
        Item::ExternCrate(d) => match r {
            Some(e) => vs::same(e, d, "C10 as_extern_crate() returns the declaration"),
            None => vs::unreachable("C10 as_extern_crate() returns the declaration"),
        },
        _ => vs::require(r.is_none(), "C10 as_extern_crate() is none for other kinds"),
    }
}
