//! Intrinsics of the probe crate: arbitrary values, assumptions and obligations.
use crate::cmp;
use crate::exec::*;
use crate::models::{key_of, M};
use crate::state::*;
use crate::types::*;
use crate::val::*;
use rustc_public::ty::*;
use std::rc::Rc;

fn text(st: &State, v: &Val) -> String {
    match st.deref(v) {
        Ok(Val::Str(s)) => match &*s {
            StrV::Const(c) => c.to_string(),
            _ => "?".into(),
        },
        _ => "?".into(),
    }
}
fn record(ix: &mut Ix, st: &State, what: &str, v: cmp::Verdicts) {
    ix.obligations += 1;
    *ix.obl_by.entry(what.split(' ').next().unwrap_or("").to_string()).or_default() += 1;
    for (s, m) in v.ne.into_iter().take(1) {
        let t = s.taint.clone().or(if s.lost { Some(Rc::from("forgotten facts")) } else { None });
        if let Some(t) = t {
            *ix.stats.undecided.entry(format!("{}: {} (imprecise: {})", what, m, t)).or_default() += 1;
        } else {
            ix.report(&s, what, &m);
        }
    }
    for u in v.undecided {
        *ix.stats.undecided.entry(format!("{}: {}", what, u)).or_default() += 1;
    }
    let _ = st;
}

pub fn intrinsic(
    ix: &mut Ix,
    st: &mut State,
    def: FnDef,
    name: &str,
    ga: &GenericArgs,
    a: &[Val],
    roots: &Option<Rc<Roots>>,
    stack: &Rc<Stack>,
) -> R<M> {
    let _ = (def, roots, stack);
    let key = key_of(name);
    let unit = || Ok(M::Val(Val::unit()));
    match key.as_str() {
        "vs::any" => {
            let t = first_ty(ga).unwrap();
            let s = fresh_sym(Some(t), "x");
            Ok(M::Val(val_of_sym(s)))
        }
        "vs::same_tokens" | "vs::same" => {
            let what = text(st, &a[2]);
            let (x, y) = (a[0].clone(), a[1].clone());
            if key == "vs::same_tokens" {
                ix.strict = what.contains("[loc]");
            } else {
                ix.strict = true;
            }
            let v = cmp::explore(ix, st, 6000, &mut |ix, s| cmp::eq_val(ix, s, &x, &y, 14));
            ix.strict = false;
            record(ix, st, &what, v);
            unit()
        }
        "vs::require" => {
            let what = text(st, &a[1]);
            let c = a[0].clone();
            let v = cmp::explore(ix, st, 2000, &mut |ix, s| {
                Ok(if ix.bool_of(s, &c)? { cmp::Cmp::Eq } else { cmp::Cmp::Ne("condition is false".into()) })
            });
            record(ix, st, &what, v);
            unit()
        }
        "vs::assume" => {
            if ix.bool_of(st, &a[0])? {
                unit()
            } else {
                Err(Stop::Dead)
            }
        }
        "vs::unreachable" => {
            let what = text(st, &a[0]);
            let v = cmp::Verdicts { eq: vec![], ne: vec![(st.clone(), "reachable".into())], undecided: vec![] };
            record(ix, st, &what, v);
            Err(Stop::Dead)
        }
        "vs::elsewhere" => {
            let w = text(st, &a[0]);
            ix.prune.extend(w.split(' ').map(|s| s.to_string()));
            unit()
        }
        "vs::no_panic" => {
            ix.obligations += 1;
            let w = text(st, &a[0]);
            *ix.obl_by.entry(w.split(' ').next().unwrap_or("").to_string()).or_default() += 1;
            st.must = Some(Rc::from(w.as_str()));
            unit()
        }
        "vs::bounded" => {
            let n = match &a[0] {
                Val::Int(i) => *i as usize,
                v => return bad(format!("vs::bounded({:?})", v)),
            };
            crate::state::SMALL.with(|x| x.set(n));
            unit()
        }
        "vs::formatter" => Ok(M::Val(a[0].clone())),
        "vs::panics" => {
            // panics on this path are intended from here on
            st.may_panic = true;
            st.must = None;
            unit()
        }
        k if k.starts_with("vs::") => bad(format!("unknown intrinsic {}", k)),
        _ => Ok(M::Skip),
    }
}
