//! Type queries on the type-checked program.
use crate::val::*;
use rustc_public::mir::Mutability;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum TK {
    Adt { name: Rc<str>, is_enum: bool },
    Tuple,
    Ref(Ty, bool),
    Int,
    Bool,
    Char,
    Str,
    Vec(Ty),
    Array(Ty, u32),
    TokenStream,
    Ident,
    Punct,
    Group,
    Literal,
    Span,
    Box(Ty),
    Closure,
    FnDef,
    FnPtr,
    Never,
    Iter(Ty),
    Other,
}

pub struct TyInfo {
    pub tk: TK,
    /// fields of each variant (tuple / struct: one variant)
    pub vars: Vec<Vec<Ty>>,
    pub var_names: Vec<String>,
    pub field_names: Vec<Vec<String>>,
    pub discrs: Vec<i128>,
}

thread_local! { static CACHE: RefCell<HashMap<Ty, Rc<TyInfo>>> = Default::default(); static TT: RefCell<Option<Ty>> = Default::default(); static TS: RefCell<Option<Ty>> = Default::default(); static UNIT_ENUM: RefCell<HashMap<&'static str, Ty>> = Default::default(); }

pub fn first_ty(a: &GenericArgs) -> Option<Ty> {
    a.0.iter().find_map(|x| match x {
        GenericArgKind::Type(t) => Some(*t),
        _ => None,
    })
}

fn compute(ty: Ty) -> TyInfo {
    let mut r = TyInfo { tk: TK::Other, vars: vec![], var_names: vec![], field_names: vec![], discrs: vec![] };
    if let TyKind::RigidTy(k) = ty.kind() {
        match k {
            RigidTy::Bool => r.tk = TK::Bool,
            RigidTy::Char => r.tk = TK::Char,
            RigidTy::Int(_) | RigidTy::Uint(_) => r.tk = TK::Int,
            RigidTy::Str => r.tk = TK::Str,
            RigidTy::Slice(t) => r.tk = TK::Vec(t),
            RigidTy::Array(t, n) => {
                r.tk = TK::Vec(t);
                if let Ok(n) = n.eval_target_usize() {
                    if n <= 64 {
                        r.tk = TK::Array(t, n as u32);
                        r.vars = vec![vec![t; n as usize]];
                    }
                }
            }
            RigidTy::Ref(_, t, m) => r.tk = TK::Ref(t, m == Mutability::Mut),
            RigidTy::RawPtr(t, m) => r.tk = TK::Ref(t, m == Mutability::Mut),
            RigidTy::Never => r.tk = TK::Never,
            RigidTy::Tuple(ts) => {
                r.tk = TK::Tuple;
                r.vars = vec![ts.clone()];
                r.var_names = vec!["".into()];
                r.field_names = vec![(0..ts.len()).map(|i| i.to_string()).collect()];
                r.discrs = vec![0];
            }
            RigidTy::FnDef(..) => r.tk = TK::FnDef,
            RigidTy::FnPtr(..) => r.tk = TK::FnPtr,
            RigidTy::Closure(..) => r.tk = TK::Closure,
            RigidTy::Adt(d, args) => {
                let name = d.name().to_string();
                r.tk = match name.as_str() {
                    "std::vec::Vec" | "alloc::vec::Vec" | "std::collections::VecDeque" => {
                        TK::Vec(first_ty(&args).unwrap())
                    }
                    "std::string::String" | "alloc::string::String" => TK::Str,
                    "std::boxed::Box" | "alloc::boxed::Box" => TK::Box(first_ty(&args).unwrap()),
                    "proc_macro2::TokenStream" => TK::TokenStream,
                    "proc_macro2::Ident" => TK::Ident,
                    "proc_macro2::Punct" => TK::Punct,
                    "proc_macro2::Group" => TK::Group,
                    "proc_macro2::Literal" => TK::Literal,
                    "proc_macro2::Span" => TK::Span,
                    _ => TK::Adt { name: Rc::from(name.as_str()), is_enum: d.kind().is_enum() },
                };
                if let TK::Adt { .. } = r.tk {
                    if name == "proc_macro2::TokenTree" {
                        TT.with(|t| *t.borrow_mut() = Some(ty));
                    }
                    if !d.kind().is_union() {
                        for v in d.variants_iter() {
                            let fs = v.fields();
                            r.vars.push(fs.iter().map(|f| f.ty_with_args(&args)).collect());
                            r.field_names.push(fs.iter().map(|f| f.name.to_string()).collect());
                            r.var_names.push(v.name().to_string());
                            r.discrs.push(if d.kind().is_enum() {
                                d.discriminant_for_variant(v.idx()).val as i128
                            } else {
                                0
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    r
}

pub fn info(ty: Ty) -> Rc<TyInfo> {
    if let Some(r) = CACHE.with(|c| c.borrow().get(&ty).cloned()) {
        return r;
    }
    let r = Rc::new(compute(ty));
    CACHE.with(|c| c.borrow_mut().insert(ty, r.clone()));
    r
}
pub fn tt_ty() -> Option<Ty> {
    TT.with(|t| *t.borrow())
}
/// field type of a TokenTree variant: 0 Group, 1 Ident, 2 Punct, 3 Literal
pub fn tok_field_ty(v: u32) -> Option<Ty> {
    tt_ty().map(|t| info(t).vars[v as usize][0])
}
pub fn set_named(n: &'static str, t: Ty) {
    UNIT_ENUM.with(|m| m.borrow_mut().insert(n, t));
}
pub fn named(n: &'static str) -> Option<Ty> {
    UNIT_ENUM.with(|m| m.borrow().get(n).cloned())
}
pub fn sinfo(s: SymId) -> Option<Rc<TyInfo>> {
    sym_ty(s).map(info)
}
pub fn adt_name(ty: Ty) -> String {
    match &info(ty).tk {
        TK::Adt { name, .. } => name.to_string(),
        _ => String::new(),
    }
}
pub fn is_signed(ty: Ty) -> bool {
    matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_)))
}

/// The canonical value of a symbol, by its type.
pub fn val_of_sym(s: SymId) -> Val {
    let Some(ty) = sym_ty(s) else { return Val::Sym(s) };
    match &info(ty).tk {
        TK::Vec(t) => Val::list(vec![Node::Sub(mk_sub(SubKind::OfSym(s), Some(*t)))]),
        TK::Array(_, n) => Val::list((0..*n).map(|i| Node::Elem(child_val(s, 0, i))).collect()),
        TK::TokenStream => Val::list(vec![Node::Sub(mk_sub(SubKind::OfSym(s), tt_ty()))]),
        TK::Ref(t, _) | TK::Box(t) => Val::imm(val_of_sym(mk_sym(SymKind::Child(s, 0, 0), Some(*t)))),
        TK::Str => Val::Str(Rc::new(StrV::OfSym(s))),
        TK::Span => Val::Span(Rc::new(SpanV::Sym(s))),
        TK::Tuple => {
            let n = info(ty).vars[0].len();
            Val::agg(0, (0..n).map(|i| child_val(s, 0, i as u32)).collect())
        }
        TK::FnDef => Val::unit(),
        _ => Val::Sym(s),
    }
}
pub fn child(s: SymId, v: u32, f: u32) -> SymId {
    let t = sinfo(s).and_then(|i| i.vars.get(v as usize).and_then(|x| x.get(f as usize).cloned()));
    mk_sym(SymKind::Child(s, v, f), t)
}
pub fn child_val(s: SymId, v: u32, f: u32) -> Val {
    val_of_sym(child(s, v, f))
}
pub fn is_structlike(s: SymId) -> bool {
    match sinfo(s) {
        Some(i) => match &i.tk {
            TK::Adt { is_enum, .. } => !is_enum && i.vars.len() == 1,
            TK::Tuple => true,
            _ => false,
        },
        None => false,
    }
}
pub fn is_enumlike(s: SymId) -> bool {
    match sinfo(s) {
        Some(i) => matches!(&i.tk, TK::Adt { is_enum: true, .. }),
        None => false,
    }
}
