//! Models of library functions (proc_macro2, quote, std) in the abstract domain.
use crate::exec::*;
use crate::state::*;
use crate::types::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

pub enum M {
    Val(Val),
    Outs(Vec<Out>),
    Redirect(FnDef, GenericArgs, Vec<Val>),
    Inst(Instance, Vec<Val>),
    Skip,
}

/// Drop generic arguments from a definition path and keep the last two segments.
pub fn key_of(name: &str) -> String {
    let mut out = String::new();
    let mut depth = 0i32;
    let cs: Vec<char> = name.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '<' {
            depth += 1;
        } else if c == '>' && !(i > 0 && cs[i - 1] == '-') {
            depth -= 1;
        } else if depth == 0 {
            out.push(c);
        }
        i += 1;
    }
    let segs: Vec<&str> = out.split("::").filter(|s| !s.is_empty()).collect();
    let n = segs.len();
    if n >= 2 {
        format!("{}::{}", segs[n - 2], segs[n - 1])
    } else {
        out
    }
}

fn tys(ga: &GenericArgs) -> Vec<Ty> {
    ga.0.iter()
        .filter_map(|x| match x {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        })
        .collect()
}
pub fn ty_args(t: &[Ty]) -> GenericArgs {
    GenericArgs(t.iter().map(|t| GenericArgKind::Type(*t)).collect())
}

pub fn nth(st: &State, n: &[Node], k: &Lin) -> R<Option<Val>> {
    if k.syms.is_empty() && k.lens.is_empty() {
        if k.c < 0 {
            return Ok(None);
        }
        let mut cur = n.to_vec();
        for _ in 0..k.c {
            match st.uncons(&cur)? {
                None => return Ok(None),
                Some((_, r)) => cur = r,
            }
        }
        return Ok(st.uncons(&cur)?.map(|x| x.0));
    }
    // distance from the end
    let d = st.list_len(n)?.add(k, -1);
    if d.syms.is_empty() && d.lens.is_empty() {
        if d.c <= 0 {
            return Ok(None);
        }
        let mut cur = n.to_vec();
        for _ in 0..d.c - 1 {
            match st.unsnoc(&cur)? {
                None => return Ok(None),
                Some((_, r)) => cur = r,
            }
        }
        return Ok(st.unsnoc(&cur)?.map(|x| x.0));
    }
    let (a, b) = split_at(st, n, k)?;
    let _ = a;
    Ok(st.uncons(&b)?.map(|x| x.0))
}
pub fn prefix(st: &State, n: &[Node], k: &Lin) -> R<Vec<Node>> {
    Ok(split_at(st, n, k)?.0)
}
pub fn suffix(st: &State, n: &[Node], k: &Lin) -> R<Vec<Node>> {
    Ok(split_at(st, n, k)?.1)
}
/// Split a list at a position.
pub fn split_at(st: &State, n: &[Node], k: &Lin) -> R<(Vec<Node>, Vec<Node>)> {
    if k.syms.is_empty() && k.lens.is_empty() {
        if k.c < 0 {
            return Err(Stop::Panic("negative index".into()));
        }
        let f = st.flat(n);
        let mut l = Lin::default();
        for i in 0..=f.len() {
            if l.syms.is_empty() && l.lens.is_empty() && l.c == k.c {
                return Ok((f[..i].to_vec(), f[i..].to_vec()));
            }
            if i < f.len() {
                if !matches!(f[i], Node::Elem(_) | Node::Sub(_)) {
                    break;
                }
                l = l.add(&st.list_len(&f[i..i + 1])?, 1);
            }
        }
        let mut cur = n.to_vec();
        let mut pre = vec![];
        for _ in 0..k.c {
            match st.uncons(&cur)? {
                None => return Err(Stop::Panic("index out of bounds".into())),
                Some((v, r)) => {
                    pre.push(Node::Elem(v));
                    cur = r;
                }
            }
        }
        return Ok((pre, cur));
    }
    let d = st.list_len(n)?.add(k, -1);
    if d.syms.is_empty() && d.lens.is_empty() {
        if d.c < 0 {
            return Err(Stop::Panic("index out of bounds".into()));
        }
        let mut cur = n.to_vec();
        let mut suf = vec![];
        for _ in 0..d.c {
            match st.unsnoc(&cur)? {
                None => return Err(Stop::Panic("index out of bounds".into())),
                Some((v, r)) => {
                    suf.insert(0, Node::Elem(v));
                    cur = r;
                }
            }
        }
        return Ok((cur, suf));
    }
    // a node boundary at exactly that length?
    let f = st.flat(n);
    let mut l = Lin::default();
    for i in 0..=f.len() {
        let diff = l.add(k, -1);
        if diff.syms.is_empty() && diff.lens.is_empty() && diff.c == 0 {
            return Ok((f[..i].to_vec(), f[i..].to_vec()));
        }
        if i < f.len() {
            l = l.add(&st.list_len(&f[i..i + 1])?, 1);
        }
    }
    // symbolic position inside an unknown list
    if let (1, true) = (k.syms.len(), k.lens.is_empty()) {
        let (s, c) = k.syms.iter().next().unwrap();
        if *c == 1 && k.c == 0 && f.len() == 1 {
            if let Node::Sub(x) = &f[0] {
                let (a, b) = (
                    mk_sub(SubKind::OfSym(mk_sym(SymKind::Op(Rc::from("splitL"), vec![Val::Sym(*s), Val::Int(*x as i128)], 0), None)), sub_ty(*x)),
                    mk_sub(SubKind::OfSym(mk_sym(SymKind::Op(Rc::from("splitR"), vec![Val::Sym(*s), Val::Int(*x as i128)], 0), None)), sub_ty(*x)),
                );
                return Err(Stop::Fork(vec![Assume::Exp(*x, vec![Node::Sub(a), Node::Sub(b)])]));
            }
        }
    }
    bad("symbolic position")
}

pub fn to_tokens_def(ix: &mut Ix) -> Option<FnDef> {
    let d = *ix.shims.get("to_tokens")?;
    let b = d.body()?;
    for bb in &b.blocks {
        if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
            if let Ok(t) = func.ty(b.locals()) {
                if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = t.kind() {
                    if d.name().ends_with("ToTokens::to_tokens") {
                        return Some(d);
                    }
                }
            }
        }
    }
    None
}
pub fn to_tokens_inst(ix: &mut Ix, ty: Ty) -> Option<Instance> {
    let d = to_tokens_def(ix)?;
    Instance::resolve(d, &ty_args(&[ty])).ok()
}

fn list_of(st: &State, v: &Val) -> R<Option<Vec<Node>>> {
    match st.deref(v)? {
        Val::List(n) => Ok(Some(n.to_vec())),
        _ => Ok(None),
    }
}
fn iter_val(nodes: Vec<Node>, by_ref: bool) -> Val {
    Val::Iter(Rc::new(IterV { nodes, by_ref }))
}
/// Owned item nodes of an iterator: references are made explicit.
pub fn item_nodes(st: &State, it: &IterV) -> R<Vec<Node>> {
    if !it.by_ref {
        return Ok(it.nodes.clone());
    }
    let mut out = vec![];
    for n in st.flat(&it.nodes) {
        match n {
            Node::Elem(v) => out.push(Node::Elem(Val::imm(v))),
            Node::Sub(s) => {
                let f = fresh_sym(sub_ty(s), "e");
                let m = MapRec { formal: f, cases: vec![(vec![], vec![Node::Elem(Val::imm(val_of_sym(f)))])] };
                out.push(Node::Map(Rc::new(m), s));
            }
            Node::Map(m, s) => {
                let cases = m
                    .cases
                    .iter()
                    .map(|(g, n)| {
                        let n2 = n
                            .iter()
                            .map(|x| match x {
                                Node::Elem(v) => Ok(Node::Elem(Val::imm(v.clone()))),
                                _ => bad("references into mapped list"),
                            })
                            .collect::<R<Vec<_>>>()?;
                        Ok((g.clone(), n2))
                    })
                    .collect::<R<Vec<_>>>()?;
                out.push(Node::Map(Rc::new(MapRec { formal: m.formal, cases }), s));
            }
            _ => return bad("references into printed list"),
        }
    }
    Ok(out)
}
/// Apply a function to every explicit element (in mapped lists too).
pub fn map_elems(nodes: &[Node], f: &dyn Fn(&Val) -> R<Vec<Node>>) -> R<Vec<Node>> {
    let mut out = vec![];
    for n in nodes {
        match n {
            Node::Elem(v) => out.extend(f(v)?),
            Node::Map(m, s) => {
                let cases = m
                    .cases
                    .iter()
                    .map(|(g, n)| Ok((g.clone(), map_elems(n, f)?)))
                    .collect::<R<Vec<_>>>()?;
                out.push(canon(Node::Map(Rc::new(MapRec { formal: m.formal, cases }), *s)));
            }
            Node::Sub(s) => {
                let fo = fresh_sym(sub_ty(*s), "e");
                let r = f(&val_of_sym(fo))?;
                out.push(canon(Node::Map(
                    Rc::new(MapRec { formal: fo, cases: vec![(vec![], r)] }),
                    *s,
                )));
            }
            o => out.push(o.clone()),
        }
    }
    Ok(out)
}
/// Recognise identity and printing maps.
pub fn canon(n: Node) -> Node {
    if let Node::Map(m, s) = &n {
        if m.cases.is_empty() {
            return n;
        }
        let f = val_of_sym(m.formal);
        if m.cases.iter().all(|(_, x)| x.len() == 1 && x[0] == Node::Elem(f.clone())) {
            return Node::Sub(*s);
        }
        if let Some(p) = print_formal(m.formal) {
            if m.cases.iter().all(|(_, x)| *x == p) {
                return if is_tt(m.formal) { Node::Sub(*s) } else { Node::PrintEach(*s) };
            }
        }
    }
    n
}
fn is_tt(s: SymId) -> bool {
    matches!(crate::subst::tok_kind(s), Some(None))
}
/// Printed form of an arbitrary element: a printable symbol or a pair of those.
pub fn print_formal(s: SymId) -> Option<Vec<Node>> {
    let i = sinfo(s)?;
    match &i.tk {
        TK::Tuple => {
            if i.vars[0].len() != 2 {
                return None;
            }
            let mut r = vec![];
            for k in 0..2 {
                r.extend(print_formal(child(s, 0, k))?);
            }
            Some(r)
        }
        TK::Adt { .. } | TK::Ident | TK::Punct | TK::Group | TK::Literal => Some(match crate::subst::tok_kind(s) {
            Some(Some(k)) => vec![Node::Elem(Val::agg(k, vec![Val::Sym(s)]))],
            Some(None) => vec![Node::Elem(Val::Sym(s))],
            None => vec![Node::Print(s)],
        }),
        _ => None,
    }
}

pub fn text_of(st: &State, v: &Val) -> Option<StrV> {
    match v {
        Val::Str(s) => Some((**s).clone()),
        Val::Sym(s) => match sinfo(*s).map(|i| i.tk.clone()) {
            Some(TK::Ident) | Some(TK::Literal) | Some(TK::Str) => match st.exp.get(s) {
                Some(Known::Text(t)) => Some(StrV::Const(t.clone())),
                _ => Some(StrV::OfSym(*s)),
            },
            _ => None,
        },
        Val::Tok(t) => match &**t {
            TokV::Ident { text, .. } | TokV::Lit { text, .. } => Some(text.clone()),
            TokV::Respan { base, .. } => text_of(st, &Val::Sym(*base)),
            _ => None,
        },
        _ => None,
    }
}
fn norm_text(st: &State, s: StrV) -> StrV {
    match &s {
        StrV::OfSym(x) => match st.exp.get(x) {
            Some(Known::Text(t)) => StrV::Const(t.clone()),
            _ => s,
        },
        _ => s,
    }
}
pub fn text_eq(st: &State, a: StrV, b: StrV) -> R<bool> {
    let (a, b) = (norm_text(st, a), norm_text(st, b));
    if a == b {
        return Ok(true);
    }
    match (&a, &b) {
        (StrV::Const(x), StrV::Const(y)) => Ok(x == y),
        (StrV::OfSym(s), StrV::Const(t)) | (StrV::Const(t), StrV::OfSym(s)) => {
            for m in text_class(st, *s) {
                if let Some(Known::Text(u)) = st.exp.get(&m) {
                    return Ok(u == t);
                }
                if !possible_text(m, t) {
                    return Ok(false);
                }
                match st.get_bound(m) {
                    bd if !bd.allows_text(t) => return Ok(false),
                    _ => {}
                }
                if text_facts(st).iter().any(|(n, x, y, v)| *x == StrV::OfSym(m) && matches!(y, StrV::Const(p) if text_pred(n, t, p) == Some(!v))) {
                    return Ok(false);
                }
            }
            Err(Stop::Fork(vec![Assume::TextEq(*s, t.clone()), Assume::TextNe(*s, t.clone())]))
        }
        (StrV::OfInt(x), StrV::OfInt(y)) => {
            let d = st.lin(x)?.add(&st.lin(y)?, -1);
            st.lin_cmp(&d, "eq")
        }
        (StrV::OfSym(x), StrV::OfSym(y)) => {
            let (cx, cy) = (text_class(st, *x), text_class(st, *y));
            if cx.contains(y) {
                return Ok(true);
            }
            let differ = text_facts(st).iter().any(|(n, p, q, v)| {
                let (StrV::OfSym(p), StrV::OfSym(q)) = (p, q) else { return false };
                &**n == "text_eq" && !v && ((cx.contains(p) && cy.contains(q)) || (cx.contains(q) && cy.contains(p)))
            });
            if differ {
                return Ok(false);
            }
            for (a, b) in [(&cx, &cy), (&cy, &cx)] {
                for m in a {
                    // a proper part of the other text
                    if let SymKind::Op(n, vs, _) = sym_kind(*m) {
                        if &*n == "strip" {
                            if let Some(Val::Str(o)) = vs.first() {
                                if matches!(&**o, StrV::OfSym(o) if b.contains(o)) {
                                    return Ok(false);
                                }
                            }
                        }
                    }
                    if let Some(Known::Text(t)) = st.exp.get(m) {
                        if b.iter().any(|k| !st.text_bound(*k).allows_text(t)) {
                            return Ok(false);
                        }
                    }
                }
            }
            bad("undecided text comparison")
        }
        (StrV::OfSym(k), o) | (o, StrV::OfSym(k)) if changed_from(st, *k, o) => Ok(false),
        (StrV::Display(v), StrV::Const(t)) | (StrV::Const(t), StrV::Display(v)) => display_is(st, &st.deref(v)?, t),
        _ => bad("undecided text comparison"),
    }
}
/// Is this text a proper change of the other one?
fn changed_from(st: &State, k: SymId, o: &StrV) -> bool {
    match sym_kind(k) {
        SymKind::Op(n, vs, _) if &*n == "strip" => matches!(vs.first(), Some(Val::Str(x)) if norm_text(st, (**x).clone()) == *o),
        _ => false,
    }
}
/// Can an identifier or literal token have this text at all?
fn possible_text(s: SymId, t: &str) -> bool {
    match sinfo(s).map(|i| i.tk.clone()) {
        Some(TK::Ident) => {
            let t = t.strip_prefix("r#").unwrap_or(t);
            t.starts_with(|c: char| c == '_' || c.is_alphabetic()) && t.chars().all(|c| c == '_' || c.is_alphanumeric())
        }
        Some(TK::Literal) => t.contains(|c: char| c.is_ascii_digit() || c == '"' || c == '\''),
        _ => true,
    }
}
/// Is the displayed form of a token (tree) this text?
fn display_is(st: &State, v: &Val, t: &Rc<str>) -> R<bool> {
    let tk = match v {
        Val::Sym(s) => sinfo(*s).map(|i| i.tk.clone()),
        Val::Tok(k) => match &**k {
            TokV::Punct { .. } => Some(TK::Punct),
            TokV::Group { .. } => Some(TK::Group),
            _ => None,
        },
        Val::Agg(_, f) if f.len() == 1 => return display_is(st, &f[0], t),
        _ => None,
    };
    if let Some(x) = text_of(st, v) {
        return text_eq(st, x, StrV::Const(t.clone()));
    }
    match tk {
        Some(TK::Punct) => {
            let mut c = t.chars();
            let (Some(ch), None) = (c.next(), c.next()) else { return Ok(false) };
            let d = st.lin(&st.punct_ch(v))?.add(&Lin::c(ch as i128), -1);
            st.lin_cmp(&d, "eq")
        }
        Some(TK::Group) => match st.variant_of(&st.group_delim(v))? {
            3 => bad("text of an invisible group"),
            _ if t.starts_with(['(', '[', '{']) => bad("text of a group"),
            _ => Ok(false),
        },
        Some(TK::Adt { name, is_enum: true }) if name.ends_with("TokenTree") => {
            st.variant_of(v)?;
            match st.as_agg(v) {
                Some((_, f)) if f.len() == 1 => display_is(st, &f[0], t),
                _ => bad("undecided text comparison"),
            }
        }
        _ => bad("undecided text comparison"),
    }
}
/// What has been assumed about pairs of texts.
fn text_facts(st: &State) -> Vec<(Rc<str>, StrV, StrV, bool)> {
    let mut r = vec![];
    for s in &st.text_facts {
        if let (SymKind::Op(n, vs, _), Some(Known::Int(i))) = (sym_kind(*s), st.exp.get(s)) {
            if let [Val::Str(x), Val::Str(y)] = &vs[..] {
                r.push((n, (**x).clone(), (**y).clone(), *i != 0));
            }
        }
    }
    r
}
fn text_class(st: &State, s: SymId) -> Vec<SymId> {
    let mut c = vec![s];
    let f = text_facts(st);
    loop {
        let n = c.len();
        for (k, x, y, v) in &f {
            if let (true, true, StrV::OfSym(x), StrV::OfSym(y)) = (&**k == "text_eq", *v, x, y) {
                if c.contains(x) && !c.contains(y) {
                    c.push(*y);
                }
                if c.contains(y) && !c.contains(x) {
                    c.push(*x);
                }
            }
        }
        if c.len() == n {
            return c;
        }
    }
}
fn text_pred(n: &str, t: &str, p: &str) -> Option<bool> {
    Some(match n {
        "starts_with" => t.starts_with(p),
        "ends_with" => t.ends_with(p),
        "contains" => t.contains(p),
        "eq_ignore_ascii_case" => t.eq_ignore_ascii_case(p),
        _ => return None,
    })
}
/// Equality of texts where both outcomes are explored when nothing is known.
pub fn text_eq_fork(st: &State, a: StrV, b: StrV) -> R<bool> {
    match text_eq(st, a.clone(), b.clone()) {
        Err(Stop::Bad(m)) => match (norm_text(st, a), norm_text(st, b)) {
            (StrV::OfSym(x), StrV::OfSym(y)) => {
                let (x, y) = (x.min(y), x.max(y));
                text_op(st, "text_eq", StrV::OfSym(x), StrV::OfSym(y))
            }
            _ => bad(m),
        },
        r => r,
    }
}
/// A predicate on texts, assumed either way when nothing is known.
pub fn text_op(st: &State, n: &str, a: StrV, b: StrV) -> R<bool> {
    let (a, b) = (norm_text(st, a), norm_text(st, b));
    if let (StrV::Const(x), StrV::Const(y)) = (&a, &b) {
        if let Some(r) = text_pred(n, x, y) {
            return Ok(r);
        }
    }
    if let (StrV::OfSym(s), StrV::Const(y)) = (&a, &b) {
        if let Bound::Text { neg: false, set } = st.text_bound(*s) {
            let rs: Vec<Option<bool>> = set.iter().map(|x| text_pred(n, x, y)).collect();
            if !rs.is_empty() && rs.iter().all(|r| *r == rs[0]) {
                if let Some(r) = rs[0] {
                    return Ok(r);
                }
            }
            // a finite set: decide by cases
            let mut v: Vec<Assume> = set.iter().map(|x| Assume::TextEq(*s, x.clone())).collect();
            if v.len() > 1 {
                return Err(Stop::Fork(std::mem::take(&mut v)));
            }
        }
    }
    if !matches!((&a, &b), (StrV::OfSym(_), StrV::OfSym(_) | StrV::Const(_))) {
        return bad(format!("{} of a formatted text", n));
    }
    let k = mk_sym(SymKind::Op(Rc::from(n), vec![Val::Str(Rc::new(a)), Val::Str(Rc::new(b))], 0), named("bool"));
    match st.exp.get(&k) {
        Some(Known::Int(i)) => Ok(*i != 0),
        _ => Err(Stop::Fork(vec![Assume::IntEq(k, 1), Assume::IntEq(k, 0)])),
    }
}
/// Semantic equality as computed by PartialEq.
pub fn val_eq(st: &State, a: &Val, b: &Val) -> R<bool> {
    let (a, b) = (st.deref(a)?, st.deref(b)?);
    if let (Some(x), Some(y)) = (text_of(st, &a), text_of(st, &b)) {
        return text_eq_fork(st, x, y);
    }
    match (&a, &b) {
        (Val::List(x), Val::List(y)) => {
            let (mut x, mut y) = (x.to_vec(), y.to_vec());
            loop {
                match (st.uncons(&x)?, st.uncons(&y)?) {
                    (None, None) => return Ok(true),
                    (Some((p, r)), Some((q, s))) => {
                        if !val_eq(st, &p, &q)? {
                            return Ok(false);
                        }
                        x = r;
                        y = s;
                    }
                    _ => return Ok(false),
                }
            }
        }
        (Val::Int(_), _) | (_, Val::Int(_)) | (Val::Lin(_), _) | (_, Val::Lin(_)) => {
            let d = st.lin(&a)?.add(&st.lin(&b)?, -1);
            st.lin_cmp(&d, "eq")
        }
        (Val::Opaque(_), _) | (_, Val::Opaque(_)) => bad("comparison of unknown values"),
        _ => {
            if a == b {
                return Ok(true);
            }
            let scalar = |v: &Val| matches!(v, Val::Sym(s) if matches!(sinfo(*s).map(|i| i.tk.clone()), Some(TK::Int | TK::Char | TK::Bool)));
            if scalar(&a) && scalar(&b) {
                let d = st.lin(&a)?.add(&st.lin(&b)?, -1);
                return st.lin_cmp(&d, "eq");
            }
            let (k, l) = (st.variant_of(&a)?, st.variant_of(&b)?);
            if k != l {
                return Ok(false);
            }
            match (st.as_agg(&a), st.as_agg(&b)) {
                (Some((_, x)), Some((_, y))) => {
                    for (p, q) in x.iter().zip(&y) {
                        if !val_eq(st, p, q)? {
                            return Ok(false);
                        }
                    }
                    Ok(true)
                }
                _ => bad("comparison"),
            }
        }
    }
}

fn span_of(st: &State, v: &Val) -> R<SpanV> {
    match st.deref(v)? {
        Val::Span(s) => Ok((*s).clone()),
        _ => bad("not a span"),
    }
}
fn tok_arg(st: &State, v: &Val) -> R<Val> {
    st.deref(v)
}
fn set_span(st: &mut State, r: &Val, sp: SpanV) -> R<M> {
    let p = st.innermost(r)?;
    let v = st.read_ptr(&p)?;
    let n = match &v {
        Val::Sym(s) => {
            if st.tok_span(&v) == sp {
                v.clone()
            } else {
                Val::Tok(Rc::new(TokV::Respan { base: *s, span: sp }))
            }
        }
        Val::Tok(t) => match &**t {
            TokV::Respan { base, .. } if st.tok_span(&Val::Sym(*base)) == sp => Val::Sym(*base),
            _ => Val::Tok(Rc::new(crate::subst::respan(t, sp))),
        },
        _ => return bad("set_span"),
    };
    st.write_ptr(&p, n)?;
    Ok(M::Val(Val::unit()))
}
fn valid_ident(s: &str) -> bool {
    let b = s.strip_prefix("r#").unwrap_or(s);
    let mut c = b.chars();
    match c.next() {
        Some(x) if x.is_alphabetic() || x == '_' => c.all(|x| x.is_alphanumeric() || x == '_'),
        _ => false,
    }
}

/// Convert the range value `lo..hi` to an iterator where possible.
fn range_iter(st: &State, lo: &Val, hi: &Val) -> R<Option<Vec<Node>>> {
    let (a, b) = (st.lin(lo)?, st.lin(hi)?);
    if a.syms.is_empty() && a.lens.is_empty() && b.syms.is_empty() && b.lens.is_empty() {
        if b.c - a.c > 64 {
            return Ok(None);
        }
        return Ok(Some((a.c..b.c).map(|i| Node::Elem(Val::Int(i))).collect()));
    }
    if a != Lin::default() {
        return Ok(None);
    }
    if b.syms.is_empty() && b.lens.len() == 1 && b.c >= 0 {
        let (s, k) = b.lens.iter().next().unwrap();
        if *k == 1 {
            let f = fresh_sym(sub_ty(*s), "e");
            let idx = Val::Sym(mk_sym(SymKind::Attr(f, Attr::Idx), named("usize")));
            let m = MapRec { formal: f, cases: vec![(vec![], vec![Node::Elem(idx)])] };
            let mut n = vec![Node::Map(Rc::new(m), *s)];
            for i in 0..b.c {
                let mut l = Lin { lens: [(*s, 1)].into_iter().collect(), ..Default::default() };
                l.c = i;
                n.push(Node::Elem(l.to_val()));
            }
            return Ok(Some(n));
        }
    }
    Ok(None)
}
/// Replace element positions (of the element itself) by the position within the whole list.
pub fn as_iter(st: &State, v: &Val) -> R<Option<IterV>> {
    match v {
        Val::Iter(i) => Ok(Some((**i).clone())),
        Val::List(n) => Ok(Some(IterV { nodes: n.to_vec(), by_ref: false })),
        Val::Agg(0, f) if f.len() == 2 => match range_iter(st, &f[0], &f[1]) {
            Ok(Some(n)) => Ok(Some(IterV { nodes: n, by_ref: false })),
            Ok(None) => Ok(None),
            Err(Stop::Bad(_)) => Ok(None),
            Err(e) => Err(e),
        },
        _ => Ok(None),
    }
}

fn is_range_ty(t: Ty) -> bool {
    adt_name(t).ends_with("ops::Range")
}

/// Call a closure-like value with explicit arguments.
pub fn call_fn(ix: &mut Ix, st: &mut State, fty: Ty, fv: Val, args: Vec<Val>) -> R<M> {
    match fty.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => {
            let v = match &fv {
                Val::Ref(_) => fv.clone(),
                _ => return bad("closure reference"),
            };
            // keep a reference to the inner callable
            match st.deref1(&v)? {
                r @ Val::Ref(_) if matches!(info(t).tk, TK::Ref(..)) => call_fn(ix, st, t, r, args),
                _ => call_fn_ref(ix, st, t, v, args),
            }
        }
        TyKind::RigidTy(RigidTy::Closure(..)) => {
            let c = st.new_cell(fv);
            call_fn_ref(ix, st, fty, Val::place(c), args)
        }
        _ => call_fn_ref(ix, st, fty, fv, args),
    }
}
/// `fv` is a reference to the callable of type `fty`.
fn call_fn_ref(_ix: &mut Ix, st: &mut State, fty: Ty, fv: Val, args: Vec<Val>) -> R<M> {
    match fty.kind() {
        TyKind::RigidTy(RigidTy::Closure(d, ca)) => {
            let Ok(inst) = Instance::resolve_closure(d, &ca, ClosureKind::Fn) else { return bad("closure") };
            let Some(b) = _ix.body(inst) else { return bad("closure body") };
            let self_ty = b.body.locals()[1].ty;
            let sv = if matches!(info(self_ty).tk, TK::Ref(..)) { fv } else { st.deref1(&fv)? };
            let mut a = vec![sv];
            a.extend(args);
            Ok(M::Inst(inst, a))
        }
        TyKind::RigidTy(RigidTy::FnDef(d, a)) => Ok(M::Redirect(d, a, args)),
        TyKind::RigidTy(RigidTy::FnPtr(_)) => match st.deref(&fv)? {
            Val::FnPtr(i) => Ok(M::Inst(i, args)),
            _ => bad("function pointer"),
        },
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => {
            let v = st.deref1(&fv)?;
            call_fn(_ix, st, t, Val::imm(v), args)
        }
        _ => bad(format!("call of {}", fty)),
    }
}

fn shim(ix: &mut Ix, st: &State, name: &str, ga: &[Ty], args: Vec<Val>, roots: &Option<Rc<Roots>>, stack: &Rc<Stack>) -> R<Vec<Out>> {
    let Some(d) = ix.shims.get(name).cloned() else { return bad(format!("no shim {}", name)) };
    let Ok(i) = Instance::resolve(d, &ty_args(ga)) else { return bad(format!("shim {}", name)) };
    Ok(ix.call(st.clone(), i, args, roots.clone(), Some(stack.clone())))
}
fn shim_iter(ix: &mut Ix, st: &State, name: &str, ga: &[Ty], args: Vec<Val>, roots: &Option<Rc<Roots>>, stack: &Rc<Stack>) -> R<M> {
    let mut o = shim(ix, st, name, ga, args, roots, stack)?;
    for x in &mut o {
        if let End::Ret(v) = &x.end {
            if let Val::List(n) = v {
                x.end = End::Ret(iter_val(n.to_vec(), false));
            }
        }
    }
    Ok(M::Outs(o))
}

fn impl_in_venial(def: FnDef, ga: &GenericArgs) -> bool {
    match Instance::resolve(def, ga) {
        Ok(i) => i.def.krate().name == "venial" || i.def.krate().name == "probe",
        Err(_) => false,
    }
}
fn list_mut(st: &State, r: &Val) -> R<(Ptr, Vec<Node>)> {
    let p = st.innermost(r)?;
    match st.read_ptr(&p)? {
        Val::List(n) => Ok((p, n.to_vec())),
        v => bad(format!("list expected, got {:?}", v)),
    }
}
/// Nodes appended to a token stream for items of any printable kind.
fn ts_items(st: &State, nodes: Vec<Node>) -> R<Vec<Node>> {
    map_elems(&nodes, &|v| {
        let v = st.deref(v)?;
        match &v {
            Val::List(n) => Ok(n.to_vec()),
            Val::Agg(..) => Ok(vec![Node::Elem(v.clone())]),
            _ => match st.print_simple(&v) {
                Some(p) => Ok(p),
                None => bad("token stream item"),
            },
        }
    })
}

pub fn model(ix: &mut Ix, st: &mut State, def: FnDef, ga: &GenericArgs, a: &[Val], roots: &Option<Rc<Roots>>, stack: &Rc<Stack>) -> R<M> {
    let name = def.name().to_string();
    let krate = def.krate().name.to_string();
    if krate == "venial" {
        return Ok(M::Skip);
    }
    if krate == "probe" {
        return crate::harness::intrinsic(ix, st, def, &name, ga, a, roots, stack);
    }
    let key = key_of(&name);
    let t = tys(ga);
    let v = |x: Val| Ok(M::Val(x));
    match key.as_str() {
        // ---- panics ----
        "panicking::panic" | "panicking::panic_fmt" | "rt::panic_fmt" | "panicking::panic_display" | "panicking::panic_explicit"
        | "panicking::panic_str_2015" | "panicking::unreachable_display" | "rt::begin_panic" | "option::unwrap_failed" | "option::expect_failed"
        | "result::unwrap_failed" | "panicking::panic_nounwind" | "panicking::assert_failed" | "panicking::panic_cannot_unwind"
        | "panicking::unimplemented_default_msg" | "panicking::unreachable_default_msg" | "panicking::todo_default_msg"
        | "panicking::panic_const_div_by_zero" => Err(Stop::Panic(key.clone())),
        "Argument::new_debug" | "Argument::new_display" | "Argument::new_lower_hex" => {
            v(Val::agg(7, vec![st.deref(&a[0])?, Val::bool(key == "Argument::new_display" && !impl_in_venial_iter(&t))]))
        }
        "Arguments::new" | "Arguments::from_str" | "Arguments::new_const" | "Arguments::from_str_nonconst" | "Arguments::new_v1" => {
            v(Val::agg(8, a.to_vec()))
        }
        "fmt::format" | "format::format_inner" | "hint::must_use" if key == "hint::must_use" => v(a[0].clone()),
        "fmt::format" | "format::format_inner" => v(fmt_text(st, &a[0])?),
        "Formatter::pad" | "Formatter::write_str" | "Formatter::write_fmt" | "Formatter::write_char" | "DebugStruct::finish" | "DebugTuple::finish" | "DebugList::finish"
        | "Write::write_str" | "Write::write_fmt" => {
            if let Ok(p) = st.innermost(&a[0]) {
                if let Ok(Val::Str(x)) = st.read_ptr(&p) {
                    let y = match key.as_str() {
                        k if k.ends_with("write_str") || k.ends_with("pad") => text_of(st, &st.deref(&a[1])?),
                        k if k.ends_with("write_fmt") => match fmt_text(st, &a[1])? {
                            Val::Str(s) => Some((*s).clone()),
                            _ => None,
                        },
                        k if k.ends_with("write_char") => match st.as_int(&a[1]) {
                            Some(c) => char::from_u32(c as u32).map(|c| StrV::Const(Rc::from(c.to_string().as_str()))),
                            None => None,
                        },
                        _ => None,
                    };
                    let Some(y) = y else { return bad("formatted text") };
                    st.write_ptr(&p, Val::Str(Rc::new(concat(vec![(*x).clone(), y]))))?;
                }
            }
            v(Val::agg(0, vec![Val::unit()]))
        }
        k if k.starts_with("Formatter::debug_") && k.ends_with("_finish") => v(Val::agg(0, vec![Val::unit()])),
        "Formatter::debug_c_like_enum_write_str" => v(Val::agg(0, vec![Val::unit()])),
        "Formatter::alternate" | "Formatter::sign_plus" | "Formatter::sign_minus" | "Formatter::sign_aware_zero_pad" => {
            v(Val::Sym(fresh_sym(Some(Ty::bool_ty()), "flag")))
        }
        "DebugMap::finish" | "DebugSet::finish" | "DebugStruct::finish_non_exhaustive" | "DebugTuple::finish_non_exhaustive" | "DebugList::finish_non_exhaustive" => {
            v(Val::agg(0, vec![Val::unit()]))
        }
        "Formatter::debug_map" | "Formatter::debug_set" => v(Val::Opaque(fresh_id())),
        "DebugMap::entry" | "DebugMap::entries" | "DebugSet::entry" | "DebugSet::entries" | "DebugMap::key" | "DebugMap::value" => v(a[0].clone()),
        "Formatter::debug_struct" | "Formatter::debug_tuple" | "Formatter::debug_list" => v(Val::Opaque(fresh_id())),
        "DebugStruct::field" | "DebugTuple::field" | "DebugList::entry" | "DebugList::entries" => v(a[0].clone()),
        "Debug::fmt" | "Display::fmt" => {
            if impl_in_venial(def, ga) {
                Ok(M::Skip)
            } else {
                if let Ok(p) = st.innermost(&a[1]) {
                    if let Ok(Val::Str(x)) = st.read_ptr(&p) {
                        if key == "Debug::fmt" {
                            return bad("debug text");
                        }
                        let d = st.deref(&a[0])?;
                        let y = display_text(st, &d);
                        st.write_ptr(&p, Val::Str(Rc::new(concat(vec![(*x).clone(), y]))))?;
                    }
                }
                v(Val::agg(0, vec![Val::unit()]))
            }
        }

        // ---- function traits ----
        "FnOnce::call_once" | "FnMut::call_mut" | "Fn::call" => {
            let args = match &a[1] {
                Val::Agg(0, f) => f.to_vec(),
                _ => return bad("call arguments"),
            };
            if key == "FnOnce::call_once" {
                call_fn(ix, st, t[0], a[0].clone(), args)
            } else {
                // self is a reference to the callable
                match t[0].kind() {
                    TyKind::RigidTy(RigidTy::Ref(..)) => {
                        let inner = st.deref1(&a[0])?;
                        call_fn(ix, st, t[0], inner, args)
                    }
                    _ => call_fn_ref(ix, st, t[0], a[0].clone(), args),
                }
            }
        }

        // ---- clone / eq / default / convert ----
        "Clone::clone" | "ToOwned::to_owned" => {
            let x = st.deref1(&a[0])?;
            if let Ok(i) = Instance::resolve(def, ga) {
                if i.def.krate().name == "venial" && !crate::is_derived(&i) {
                    return Ok(M::Skip);
                }
            }
            if matches!(x, Val::Opaque(_)) {
                return v(x);
            }
            v(x)
        }
        "Clone::clone_from" => {
            let x = st.deref1(&a[1])?;
            let p = st.innermost(&a[0])?;
            st.write_ptr(&p, x)?;
            v(Val::unit())
        }
        "PartialEq::eq" | "PartialEq::ne" => {
            if let Ok(i) = Instance::resolve(def, ga) {
                if i.def.krate().name == "venial" {
                    return Ok(M::Skip);
                }
            }
            let e = val_eq(st, &a[0], &a[1])?;
            v(Val::bool(e == (key == "PartialEq::eq")))
        }
        "intrinsics::discriminant_value" | "mem::discriminant" => {
            let x = st.deref1(&a[0])?;
            let k = st.variant_of(&x)?;
            v(Val::Int(info(t[0]).discrs.get(k as usize).cloned().unwrap_or(k as i128)))
        }
        "Default::default" => match &info(t[0]).tk {
            TK::Vec(_) | TK::Array(..) | TK::TokenStream => v(Val::list(vec![])),
            TK::Str => v(Val::str("")),
            TK::Int | TK::Bool => v(Val::Int(0)),
            TK::Adt { name, .. } if name.ends_with("option::Option") => v(Val::none()),
            TK::Ref(x, _) if matches!(info(*x).tk, TK::Str) => v(Val::imm(Val::str(""))),
            _ => Ok(M::Skip),
        },
        "From::from" | "Into::into" => {
            let target = if key == "From::from" { t[0] } else { t[1] };
            if matches!(info(target).tk, TK::Str) {
                return match text_of(st, &st.deref(&a[0])?) {
                    Some(s) => v(Val::Str(Rc::new(s))),
                    None => Ok(M::Skip),
                };
            }
            if t.len() == 2 && t[0] == t[1] {
                return v(a[0].clone());
            }
            if impl_in_venial(def, ga) {
                return Ok(M::Skip);
            }
            match (&info(target).tk, &a[0]) {
                (TK::TokenStream, x) => match st.print_simple(&st.deref(x)?) {
                    Some(p) => v(Val::list(p)),
                    None => match x {
                        Val::Agg(_, _) => v(Val::list(vec![Node::Elem(x.clone())])),
                        Val::List(_) => v(x.clone()),
                        _ => bad("token stream conversion"),
                    },
                },
                (TK::Vec(_), Val::List(_)) => v(a[0].clone()),
                (TK::Vec(_), Val::Ref(_)) => v(st.deref1(&a[0])?),
                _ => Ok(M::Skip),
            }
        }
        "mem::take" => {
            let p = st.innermost(&a[0])?;
            let x = st.read_ptr(&p)?;
            let d = match &x {
                Val::List(_) => Val::list(vec![]),
                Val::Str(_) => Val::str(""),
                Val::Int(_) => Val::Int(0),
                Val::Agg(..) | Val::Sym(_) if adt_name(t[0]).ends_with("option::Option") => Val::none(),
                _ => return Ok(M::Skip),
            };
            st.write_ptr(&p, d)?;
            v(x)
        }
        "mem::replace" => {
            let Val::Ref(p) = &a[0] else { return bad("mem::replace") };
            let x = st.read_ptr(p)?;
            st.write_ptr(p, a[1].clone())?;
            v(x)
        }
        "mem::swap" => {
            let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) else { return bad("mem::swap") };
            let (x, y) = (st.read_ptr(p)?, st.read_ptr(q)?);
            st.write_ptr(p, y)?;
            st.write_ptr(q, x)?;
            v(Val::unit())
        }
        "mem::drop" | "mem::forget" => v(Val::unit()),

        // ---- references ----
        "Deref::deref" | "DerefMut::deref_mut" | "Borrow::borrow" | "AsRef::as_ref" | "BorrowMut::borrow_mut" | "Vec::as_slice" | "Vec::as_mut_slice"
        | "String::as_str" | "slice::as_ref" | "Vec::as_ref" | "array::as_slice" => {
            let x = st.deref1(&a[0])?;
            match &x {
                Val::List(_) | Val::Str(_) => v(a[0].clone()),
                Val::Ref(_) => v(x),
                Val::Sym(_) if key.starts_with("AsRef") => v(a[0].clone()),
                _ => Ok(M::Skip),
            }
        }
        "Box::new" | "Rc::new" => {
            let c = st.new_cell(a[0].clone());
            v(Val::place(c))
        }
        "Box::new_uninit" => {
            let c = st.new_cell(Val::Uninit);
            v(Val::place(c))
        }
        "boxed::box_assume_init_into_vec_unsafe" => v(st.deref1(&a[0])?),
        "slice::into_vec" => v(st.deref(&a[0])?),

        // ---- options ----
        "Option::is_some" | "Option::is_none" => {
            let x = st.deref(&a[0])?;
            let k = st.variant_of(&x)?;
            v(Val::bool((k == 1) == (key == "Option::is_some")))
        }
        "Result::is_ok" | "Result::is_err" => {
            let x = st.deref(&a[0])?;
            let k = st.variant_of(&x)?;
            v(Val::bool((k == 0) == (key == "Result::is_ok")))
        }
        "Option::as_ref" | "Option::as_mut" | "Option::as_deref" | "Option::as_deref_mut" => {
            let Val::Ref(p) = &a[0] else { return bad("as_ref") };
            let x = st.read_ptr(p)?;
            if st.variant_of(&x)? == 0 {
                return v(Val::none());
            }
            let mutable = key.ends_with("mut");
            let inner = match p {
                Ptr::Place(c, pr) if mutable => {
                    let mut pr = pr.to_vec();
                    pr.push(Proj::F(1, 0));
                    Val::Ref(Ptr::Place(*c, Rc::new(pr)))
                }
                _ => Val::imm(st.field(&x, Some(1), 0)?),
            };
            if key.contains("deref") {
                // Vec / String dereference to themselves
                match st.deref1(&inner)? {
                    Val::List(_) | Val::Str(_) => {}
                    r @ Val::Ref(_) => return v(Val::some(r)),
                    _ => return bad("as_deref"),
                }
            }
            v(Val::some(inner))
        }
        "Option::unwrap" | "Option::expect" => {
            if st.variant_of(&a[0])? == 0 {
                return Err(Stop::Panic(key.clone()));
            }
            v(st.field(&a[0], Some(1), 0)?)
        }
        "Option::take" => {
            let Val::Ref(p) = &a[0] else { return bad("take") };
            let x = st.read_ptr(p)?;
            st.write_ptr(p, Val::none())?;
            v(x)
        }
        "Option::replace" => {
            let Val::Ref(p) = &a[0] else { return bad("replace") };
            let x = st.read_ptr(p)?;
            st.write_ptr(p, Val::some(a[1].clone()))?;
            v(x)
        }
        "Option::insert" | "Option::get_or_insert" | "Option::get_or_insert_with" => {
            let Val::Ref(p) = &a[0] else { return bad("insert") };
            let Ptr::Place(c, pr) = p else { return bad("insert") };
            let inner = {
                let mut pr = pr.to_vec();
                pr.push(Proj::F(1, 0));
                Val::Ref(Ptr::Place(*c, Rc::new(pr)))
            };
            if key != "Option::insert" {
                let x = st.read_ptr(p)?;
                if st.variant_of(&x)? == 1 {
                    return v(inner);
                }
            }
            if key == "Option::get_or_insert_with" {
                let p = p.clone();
                let inst_args = match call_fn(ix, st, t[1], a[1].clone(), vec![])? {
                    M::Inst(i, ar) => (i, ar),
                    M::Redirect(d, g, ar) => match Instance::resolve(d, &g) {
                        Ok(i) => (i, ar),
                        Err(_) => return bad("get_or_insert_with"),
                    },
                    _ => return bad("get_or_insert_with"),
                };
                let r2 = Some(Rc::new(Roots { prev: roots.clone(), cells: vec![*c] }));
                let mut outs = ix.call(st.clone(), inst_args.0, inst_args.1, r2, Some(stack.clone()));
                for o in &mut outs {
                    if let End::Ret(x) = &o.end {
                        let x = x.clone();
                        o.st.write_ptr(&p, Val::some(x))?;
                        o.end = End::Ret(inner.clone());
                    }
                }
                return Ok(M::Outs(outs));
            }
            st.write_ptr(&p.clone(), Val::some(a[1].clone()))?;
            v(inner)
        }
        "Option::cloned" | "Option::copied" => {
            if st.variant_of(&a[0])? == 0 {
                return v(Val::none());
            }
            let x = st.field(&a[0], Some(1), 0)?;
            v(Val::some(st.deref1(&x)?))
        }
        "Option::unwrap_or" => {
            if st.variant_of(&a[0])? == 0 {
                v(a[1].clone())
            } else {
                v(st.field(&a[0], Some(1), 0)?)
            }
        }

        // ---- lists ----
        "Vec::new" | "Vec::with_capacity" | "TokenStream::new" | "VecDeque::new" => v(Val::list(vec![])),
        "String::new" | "String::with_capacity" => v(Val::str("")),
        "Vec::push" | "VecDeque::push_back" => {
            let (p, mut n) = list_mut(st, &a[0])?;
            n.push(Node::Elem(a[1].clone()));
            st.write_ptr(&p, Val::list(n))?;
            v(Val::unit())
        }
        "Vec::pop" | "VecDeque::pop_back" => {
            let (p, n) = list_mut(st, &a[0])?;
            match st.unsnoc(&n)? {
                None => v(Val::none()),
                Some((x, r)) => {
                    st.write_ptr(&p, Val::list(r))?;
                    v(Val::some(x))
                }
            }
        }
        "VecDeque::pop_front" => {
            let (p, n) = list_mut(st, &a[0])?;
            match st.uncons(&n)? {
                None => v(Val::none()),
                Some((x, r)) => {
                    st.write_ptr(&p, Val::list(r))?;
                    v(Val::some(x))
                }
            }
        }
        "Vec::insert" => {
            let (p, n) = list_mut(st, &a[0])?;
            let k = st.lin(&a[1])?;
            let (mut x, y) = split_at(st, &n, &k)?;
            x.push(Node::Elem(a[2].clone()));
            x.extend(y);
            st.write_ptr(&p, Val::list(x))?;
            v(Val::unit())
        }
        "Vec::remove" => {
            let (p, n) = list_mut(st, &a[0])?;
            let k = st.lin(&a[1])?;
            let (mut x, y) = split_at(st, &n, &k)?;
            match st.uncons(&y)? {
                None => Err(Stop::Panic("remove out of bounds".into())),
                Some((e, r)) => {
                    x.extend(r);
                    st.write_ptr(&p, Val::list(x))?;
                    v(e)
                }
            }
        }
        "Vec::split_off" => {
            let (p, n) = list_mut(st, &a[0])?;
            let k = st.lin(&a[1])?;
            let (x, y) = split_at(st, &n, &k)?;
            st.write_ptr(&p, Val::list(x))?;
            v(Val::list(y))
        }
        "Vec::truncate" => {
            let (p, n) = list_mut(st, &a[0])?;
            let k = st.lin(&a[1])?;
            let d = k.add(&st.list_len(&n)?, -1);
            if !st.lin_cmp(&Lin::default().add(&d, -1), "le")? {
                let x = prefix(st, &n, &k)?;
                st.write_ptr(&p, Val::list(x))?;
            }
            v(Val::unit())
        }
        "Vec::clear" => {
            let (p, _) = list_mut(st, &a[0])?;
            st.write_ptr(&p, Val::list(vec![]))?;
            v(Val::unit())
        }
        "Vec::append" => {
            let (p, mut n) = list_mut(st, &a[0])?;
            let (q, m) = list_mut(st, &a[1])?;
            n.extend(m);
            st.write_ptr(&p, Val::list(n))?;
            st.write_ptr(&q, Val::list(vec![]))?;
            v(Val::unit())
        }
        "Vec::extend_from_slice" => {
            let (p, mut n) = list_mut(st, &a[0])?;
            match list_of(st, &a[1])? {
                Some(m) => n.extend(m),
                None => return bad("extend_from_slice"),
            }
            st.write_ptr(&p, Val::list(n))?;
            v(Val::unit())
        }
        "slice::reverse" => bad("reverse"),
        "Vec::reserve" => v(Val::unit()),
        "Vec::len" | "slice::len" | "VecDeque::len" => match list_of(st, &a[0])? {
            Some(n) => v(st.list_len(&n)?.to_val()),
            None => bad("len"),
        },
        "Vec::is_empty" | "slice::is_empty" | "TokenStream::is_empty" | "VecDeque::is_empty" => match list_of(st, &a[0])? {
            Some(n) => {
                // certain elements make it non-empty without looking further
                let f = st.flat(&n);
                if f.iter().any(|x| matches!(x, Node::Elem(_))) {
                    return v(Val::bool(false));
                }
                v(Val::bool(st.uncons(&n)?.is_none()))
            }
            None => bad("is_empty"),
        },
        "slice::first" | "slice::last" | "VecDeque::front" | "VecDeque::back" => match list_of(st, &a[0])? {
            Some(n) => {
                let r = if key.ends_with("first") || key.ends_with("front") { st.uncons(&n)? } else { st.unsnoc(&n)? };
                v(match r {
                    None => Val::none(),
                    Some((x, _)) => Val::some(Val::imm(x)),
                })
            }
            None => bad("first"),
        },
        "slice::split_first" | "slice::split_last" => match list_of(st, &a[0])? {
            Some(n) => {
                let r = if key.ends_with("first") { st.uncons(&n)? } else { st.unsnoc(&n)? };
                v(match r {
                    None => Val::none(),
                    Some((x, r)) => Val::some(Val::agg(0, vec![Val::imm(x), Val::imm(Val::list(r))])),
                })
            }
            None => bad("split_first"),
        },
        "slice::last_mut" | "slice::first_mut" => {
            let (p, n) = list_mut(st, &a[0])?;
            let Ptr::Place(c, pr) = &p else { return bad("last_mut") };
            let last = key == "slice::last_mut";
            let r = if last { st.unsnoc(&n)? } else { st.uncons(&n)? };
            match r {
                None => v(Val::none()),
                Some((x, r)) => {
                    let mut f;
                    let i;
                    if last {
                        f = r;
                        f.push(Node::Elem(x));
                        i = f.len() - 1;
                    } else {
                        f = vec![Node::Elem(x)];
                        f.extend(r);
                        i = 0;
                    }
                    let q = Ptr::Place(*c, pr.clone());
                    st.write_ptr(&q, Val::list(f))?;
                    let mut pr = pr.to_vec();
                    pr.push(Proj::I(i as u32));
                    v(Val::some(Val::Ref(Ptr::Place(*c, Rc::new(pr)))))
                }
            }
        }
        "slice::get" => match (list_of(st, &a[0])?, st.lin(&a[1])) {
            (Some(n), Ok(k)) => v(match nth(st, &n, &k)? {
                None => Val::none(),
                Some(x) => Val::some(Val::imm(x)),
            }),
            _ => bad("get"),
        },
        "slice::split_at" => match list_of(st, &a[0])? {
            Some(n) => {
                let k = st.lin(&a[1])?;
                let (x, y) = split_at(st, &n, &k)?;
                v(Val::agg(0, vec![Val::imm(Val::list(x)), Val::imm(Val::list(y))]))
            }
            None => bad("split_at"),
        },
        "slice::to_vec" => v(st.deref(&a[0])?),
        "slice::contains" => shim_any(ix, st, "contains", &t, a, roots, stack),
        "slice::iter" | "VecDeque::iter" => match list_of(st, &a[0])? {
            Some(n) => v(iter_val(n, true)),
            None => bad("iter"),
        },
        "slice::iter_mut" => {
            let (p, n) = list_mut(st, &a[0])?;
            let Ptr::Place(c, pr) = &p else { return bad("iter_mut") };
            let f = st.flat(&n);
            if f.iter().all(|x| matches!(x, Node::Elem(_))) {
                let it = (0..f.len())
                    .map(|i| {
                        let mut q = pr.to_vec();
                        q.push(Proj::I(i as u32));
                        Node::Elem(Val::Ref(Ptr::Place(*c, Rc::new(q))))
                    })
                    .collect();
                st.write_ptr(&p, Val::list(f))?;
                v(iter_val(it, false))
            } else {
                bad("iter_mut over unknown list")
            }
        }
        "Index::index" | "IndexMut::index_mut" => {
            if impl_in_venial(def, ga) {
                return Ok(M::Skip);
            }
            let Some(n) = list_of(st, &a[0])? else { return bad("index") };
            let iname = adt_name(t[1]);
            let mutable = key.starts_with("IndexMut");
            let agg = |i: usize| -> R<Lin> {
                match &a[1] {
                    Val::Agg(_, f) => st.lin(&f[i]),
                    _ => bad("index range"),
                }
            };
            let r = if iname.ends_with("RangeFull") {
                n
            } else if iname.ends_with("RangeTo") {
                prefix(st, &n, &agg(0)?)?
            } else if iname.ends_with("RangeFrom") {
                suffix(st, &n, &agg(0)?)?
            } else if iname.ends_with("ops::Range") {
                let (lo, hi) = (agg(0)?, agg(1)?);
                suffix(st, &prefix(st, &n, &hi)?, &lo)?
            } else if iname.ends_with("RangeInclusive") {
                let (lo, hi) = (agg(0)?, agg(1)?.add(&Lin::c(1), 1));
                suffix(st, &prefix(st, &n, &hi)?, &lo)?
            } else if iname.ends_with("RangeToInclusive") {
                prefix(st, &n, &agg(0)?.add(&Lin::c(1), 1))?
            } else {
                let k = st.lin(&a[1])?;
                return match nth(st, &n, &k)? {
                    None => Err(Stop::Panic("index out of bounds".into())),
                    Some(x) => {
                        if mutable {
                            let (p, n) = list_mut(st, &a[0])?;
                            let f = st.flat(&n);
                            let i = k.c as usize;
                            if let (Ptr::Place(c, pr), true) =
                                (&p, k.syms.is_empty() && k.lens.is_empty() && f[..=i].iter().all(|x| matches!(x, Node::Elem(_))))
                            {
                                st.write_ptr(&p, Val::list(f))?;
                                let mut pr = pr.to_vec();
                                pr.push(Proj::I(i as u32));
                                return v(Val::Ref(Ptr::Place(*c, Rc::new(pr))));
                            }
                            return bad("index_mut");
                        }
                        v(Val::imm(x))
                    }
                };
            };
            if mutable {
                return bad("mutable slice");
            }
            v(Val::imm(Val::list(r)))
        }
        "array::map" => {
            let Some(n) = list_of(st, &a[0])? else { return bad("array map") };
            // [T; N]::map: generic args T, N, F, U
            let tt: Vec<Ty> = t.clone();
            shim_list_map(ix, st, &tt, n, a[1].clone(), roots, stack)
        }

        // ---- iterators ----
        "IntoIterator::into_iter" => {
            if impl_in_venial(def, ga) {
                return Ok(M::Skip);
            }
            match &a[0] {
                Val::List(n) => v(iter_val(n.to_vec(), false)),
                Val::Iter(_) => v(a[0].clone()),
                Val::Ref(p) => match st.read_ptr(p)? {
                    Val::List(n) => {
                        if let TK::Ref(_, true) = info(t[0]).tk {
                            return bad("mutable iteration");
                        }
                        v(iter_val(n.to_vec(), true))
                    }
                    Val::Iter(_) => v(a[0].clone()),
                    x if adt_name_of_ref(t[0]).ends_with("option::Option") => {
                        if st.variant_of(&x)? == 0 {
                            v(iter_val(vec![], false))
                        } else {
                            v(iter_val(vec![Node::Elem(Val::imm(st.field(&x, Some(1), 0)?))], false))
                        }
                    }
                    _ => v(a[0].clone()),
                },
                x if is_range_ty(t[0]) => match as_iter(st, x)? {
                    Some(i) => v(Val::Iter(Rc::new(i))),
                    None => v(a[0].clone()),
                },
                x if adt_name(t[0]).ends_with("option::Option") => {
                    if st.variant_of(x)? == 0 {
                        v(iter_val(vec![], false))
                    } else {
                        v(iter_val(vec![Node::Elem(st.field(x, Some(1), 0)?)], false))
                    }
                }
                _ => Ok(M::Skip),
            }
        }
        "Option::iter" => {
            let x = st.deref(&a[0])?;
            if st.variant_of(&x)? == 0 {
                v(iter_val(vec![], false))
            } else {
                v(iter_val(vec![Node::Elem(Val::imm(st.field(&x, Some(1), 0)?))], false))
            }
        }
        "iter::once" | "once::once" => v(iter_val(vec![Node::Elem(a[0].clone())], false)),
        "iter::empty" | "empty::empty" => v(iter_val(vec![], false)),
        "intrinsics::saturating_sub" => {
            let d = st.lin(&a[0])?.add(&st.lin(&a[1])?, -1);
            if !matches!(t[0].kind(), TyKind::RigidTy(RigidTy::Uint(_))) {
                // no bound is known to be reached
                return v(d.to_val());
            }
            v(if st.lin_cmp(&d, "lt")? { Val::Int(0) } else { d.to_val() })
        }
        "Iterator::next" | "Peekable::next" => {
            let p = st.innermost(&a[0])?;
            match st.read_ptr(&p)? {
                Val::Iter(it) => match st.uncons(&it.nodes)? {
                    None => {
                        st.write_ptr(&p, iter_val(vec![], it.by_ref))?;
                        v(Val::none())
                    }
                    Some((x, r)) => {
                        st.write_ptr(&p, iter_val(r, it.by_ref))?;
                        v(Val::some(if it.by_ref { Val::imm(x) } else { x }))
                    }
                },
                Val::Agg(0, f) if f.len() == 2 && is_range_ty(t[0]) => {
                    let d = st.lin(&f[0])?.add(&st.lin(&f[1])?, -1);
                    if st.lin_cmp(&d, "lt")? {
                        let n = st.lin(&f[0])?.add(&Lin::c(1), 1).to_val();
                        st.write_ptr(&p, Val::agg(0, vec![n, f[1].clone()]))?;
                        v(Val::some(f[0].clone()))
                    } else {
                        v(Val::none())
                    }
                }
                _ => Ok(M::Skip),
            }
        }
        "DoubleEndedIterator::next_back" => {
            let p = st.innermost(&a[0])?;
            match st.read_ptr(&p)? {
                Val::Iter(it) => match st.unsnoc(&it.nodes)? {
                    None => v(Val::none()),
                    Some((x, r)) => {
                        st.write_ptr(&p, iter_val(r, it.by_ref))?;
                        v(Val::some(if it.by_ref { Val::imm(x) } else { x }))
                    }
                },
                _ => Ok(M::Skip),
            }
        }
        "Peekable::peek" | "Peekable::peek_mut" => {
            let p = st.innermost(&a[0])?;
            match st.read_ptr(&p)? {
                Val::Iter(it) => match st.uncons(&it.nodes)? {
                    None => v(Val::none()),
                    Some((x, _)) => v(Val::some(Val::imm(if it.by_ref { Val::imm(x) } else { x }))),
                },
                _ => Ok(M::Skip),
            }
        }
        "Peekable::next_if" | "Peekable::next_if_eq" => {
            let s = if key == "Peekable::next_if" { "next_if" } else { "next_if_eq" };
            Ok(M::Outs(shim(ix, st, s, &t, a.to_vec(), roots, stack)?))
        }
        "Iterator::peekable" | "Iterator::fuse" | "Iterator::by_ref" => match &a[0] {
            Val::Iter(_) | Val::Ref(_) => v(a[0].clone()),
            _ => Ok(M::Skip),
        },
        "Iterator::cloned" | "Iterator::copied" => match &a[0] {
            Val::Iter(it) => {
                if it.by_ref {
                    v(iter_val(it.nodes.clone(), false))
                } else {
                    let f = st.flat(&it.nodes);
                    let n = map_elems(&f, &|x| Ok(vec![Node::Elem(st.deref1(x)?)]))?;
                    v(iter_val(n, false))
                }
            }
            _ => Ok(M::Skip),
        },
        "Iterator::enumerate" => match as_iter(st, &a[0])? {
            Some(it) => {
                let n = item_nodes(st, &it)?;
                let mut out = vec![];
                let mut pos = Lin::default();
                for x in st.flat(&n) {
                    match &x {
                        Node::Elem(e) => {
                            out.push(Node::Elem(Val::agg(0, vec![pos.clone().to_val(), e.clone()])));
                        }
                        Node::Sub(s) if pos == Lin::default() => {
                            let f = fresh_sym(sub_ty(*s), "e");
                            let idx = Val::Sym(mk_sym(SymKind::Attr(f, Attr::Idx), named("usize")));
                            let e = Node::Elem(Val::agg(0, vec![idx, val_of_sym(f)]));
                            out.push(Node::Map(Rc::new(MapRec { formal: f, cases: vec![(vec![], vec![e])] }), *s));
                        }
                        Node::Map(m, s) if pos == Lin::default() && m.cases.iter().all(|c| c.1.len() == 1) => {
                            let idx = Val::Sym(mk_sym(SymKind::Attr(m.formal, Attr::Idx), named("usize")));
                            let cases = m
                                .cases
                                .iter()
                                .map(|(g, n)| match &n[0] {
                                    Node::Elem(e) => {
                                        Ok((g.clone(), vec![Node::Elem(Val::agg(0, vec![idx.clone(), e.clone()]))]))
                                    }
                                    _ => bad("enumerate"),
                                })
                                .collect::<R<Vec<_>>>()?;
                            out.push(Node::Map(Rc::new(MapRec { formal: m.formal, cases }), *s));
                        }
                        _ => {
                            return match st.uncons(&n) {
                                Err(e) => Err(e),
                                Ok(_) => bad("enumerate"),
                            }
                        }
                    }
                    pos = pos.add(&st.list_len(&[x.clone()])?, 1);
                }
                v(iter_val(out, false))
            }
            None => Ok(M::Skip),
        },
        "Iterator::chain" => match (as_iter(st, &a[0])?, as_iter(st, &a[1])?) {
            (Some(x), Some(y)) => {
                let mut n = item_nodes(st, &x)?;
                n.extend(item_nodes(st, &y)?);
                v(iter_val(n, false))
            }
            _ => bad("chain"),
        },
        "Iterator::skip" | "Iterator::take" => match as_iter(st, &a[0])? {
            Some(it) => {
                let k = st.lin(&a[1])?;
                let d = k.add(&st.list_len(&it.nodes)?, -1);
                // beyond the end: everything
                if st.lin_cmp(&Lin::default().add(&d, -1), "le")? {
                    return v(iter_val(if key == "Iterator::skip" { vec![] } else { it.nodes.clone() }, it.by_ref));
                }
                let (x, y) = split_at(st, &it.nodes, &k)?;
                v(iter_val(if key == "Iterator::skip" { y } else { x }, it.by_ref))
            }
            None => Ok(M::Skip),
        },
        "Iterator::rev" => match as_iter(st, &a[0])? {
            Some(it) => {
                let f = st.flat(&it.nodes);
                if f.iter().all(|x| matches!(x, Node::Elem(_))) {
                    v(iter_val(f.into_iter().rev().collect(), it.by_ref))
                } else {
                    bad("reversal of unknown list")
                }
            }
            None => Ok(M::Skip),
        },
        "Iterator::map" | "Iterator::filter" | "Iterator::filter_map" | "Iterator::flat_map" | "Iterator::inspect" | "Iterator::take_while"
        | "Iterator::skip_while" | "Iterator::map_while" | "Iterator::flatten" | "Iterator::zip" => {
            let mut a = a.to_vec();
            if let Val::Agg(..) = &a[0] {
                match as_iter(st, &a[0])? {
                    Some(i) => a[0] = Val::Iter(Rc::new(i)),
                    None => {}
                }
            }
            let is_it = match &a[0] {
                Val::Iter(_) => true,
                Val::Ref(_) => matches!(st.deref(&a[0])?, Val::Iter(_)),
                _ => is_range_ty(t[0]) || impl_in_venial_iter(&t),
            };
            if !is_it {
                return Ok(M::Skip);
            }
            let nm = key.split("::").nth(1).unwrap().to_string();
            shim_iter(ix, st, &nm, &t, a, roots, stack)
        }
        "Iterator::any" | "Iterator::all" | "Iterator::find" | "Iterator::find_map" | "Iterator::position" | "Iterator::fold" | "Iterator::for_each"
        | "Iterator::count" | "Iterator::last" | "Iterator::nth" | "Iterator::try_fold" | "Iterator::eq" | "Iterator::partition" => {
            let mut a = a.to_vec();
            if let Val::Agg(..) = &a[0] {
                if is_range_ty(t[0]) {
                    if let Some(i) = as_iter(st, &a[0])? {
                        a[0] = Val::Iter(Rc::new(i));
                    }
                }
            }
            if key == "Iterator::last" {
                if let Val::Iter(it) = &a[0] {
                    return v(match st.unsnoc(&it.nodes)? {
                        None => Val::none(),
                        Some((x, _)) => Val::some(if it.by_ref { Val::imm(x) } else { x }),
                    });
                }
            }
            if key == "Iterator::count" {
                if let Val::Iter(it) = &a[0] {
                    return v(st.list_len(&it.nodes)?.to_val());
                }
            }
            let nm = key.split("::").nth(1).unwrap().to_string();
            if !ix.shims.contains_key(&nm) {
                return bad(format!("no shim {}", nm));
            }
            Ok(M::Outs(shim(ix, st, &nm, &t, a, roots, stack)?))
        }
        "ExactSizeIterator::len" => match st.deref(&a[0])? {
            Val::Iter(it) => v(st.list_len(&it.nodes)?.to_val()),
            _ => Ok(M::Skip),
        },
        "Iterator::size_hint" => v(Val::Opaque(fresh_id())),
        "Iterator::collect" | "FromIterator::from_iter" | "Extend::extend" => {
            if impl_in_venial(def, ga) {
                return Ok(M::Skip);
            }
            let (target, src) = match key.as_str() {
                "Iterator::collect" => (t[1], a[0].clone()),
                "FromIterator::from_iter" => (t[0], a[0].clone()),
                _ => (t[0], a[1].clone()),
            };
            if key == "Iterator::collect" {
                // user-defined collections
                if let TK::Adt { name, .. } = &info(target).tk {
                    if name.starts_with("venial") {
                        return Ok(M::Skip);
                    }
                }
            }
            let it = match &src {
                Val::Iter(i) => (**i).clone(),
                Val::List(n) => IterV { nodes: n.to_vec(), by_ref: false },
                Val::Ref(p) => match st.read_ptr(p)? {
                    Val::List(n) => IterV { nodes: n.to_vec(), by_ref: true },
                    Val::Iter(i) => {
                        let e = iter_val(vec![], i.by_ref);
                        st.write_ptr(&p.clone(), e)?;
                        (*i).clone()
                    }
                    _ => return bad("collect from unknown source"),
                },
                x if adt_name(if key == "Iterator::collect" { t[0] } else { *t.last().unwrap() }).ends_with("option::Option") => {
                    if st.variant_of(x)? == 0 {
                        IterV { nodes: vec![], by_ref: false }
                    } else {
                        IterV { nodes: vec![Node::Elem(st.field(x, Some(1), 0)?)], by_ref: false }
                    }
                }
                x => match as_iter(st, x)? {
                    Some(i) => i,
                    None => return bad("collect from unknown source"),
                },
            };
            let items = match &info(target).tk {
                TK::TokenStream => ts_items(st, if it.by_ref { it.nodes } else { it.nodes })?,
                TK::Vec(e) => {
                    if key == "Extend::extend" && it.by_ref && !matches!(info(*e).tk, TK::Ref(..)) {
                        it.nodes
                    } else {
                        item_nodes(st, &it)?
                    }
                }
                TK::Str => {
                    let n = st.flat(&it.nodes);
                    let mut parts = vec![];
                    for x in n {
                        match x {
                            Node::Elem(v) => match text_of(st, &st.deref(&v)?) {
                                Some(s) => parts.push(s),
                                None => return bad("string from iterator"),
                            },
                            _ => return bad("string from iterator"),
                        }
                    }
                    return v(Val::Str(Rc::new(concat(parts))));
                }
                TK::Adt { name, .. } if name.ends_with("result::Result") || name.ends_with("option::Option") => {
                    let nm = if name.ends_with("Result") { "collect_result" } else { "collect_option" };
                    let TyKind::RigidTy(RigidTy::Adt(_, ra)) = target.kind() else { return bad("collect") };
                    let rt = tys(&ra);
                    let TK::Vec(e) = info(rt[0]).tk else { return bad("collect into unknown collection") };
                    let mut g = vec![t[0], e];
                    g.extend(rt[1..].iter().cloned());
                    return Ok(M::Outs(shim(ix, st, nm, &g, vec![Val::Iter(Rc::new(it))], roots, stack)?));
                }
                _ => return bad(format!("collect into {}", target)),
            };
            if key == "Extend::extend" {
                let (p, mut n) = list_mut(st, &a[0])?;
                n.extend(items);
                st.write_ptr(&p, Val::list(n))?;
                return v(Val::unit());
            }
            v(Val::list(items))
        }

        // ---- strings ----
        "ToString::to_string" | "SpecToString::spec_to_string" => {
            let x = st.deref(&a[0])?;
            if let Some(s) = text_of(st, &x) {
                return v(Val::Str(Rc::new(s)));
            }
            if impl_in_venial_iter(&t) {
                return shim_any(ix, st, "display", &t[..1], &a[..1], roots, stack);
            }
            v(Val::Str(Rc::new(display_text(st, &x))))
        }
        "str::to_string" | "str::to_owned" | "String::from" | "String::clone" => v(st.deref(&a[0])?),
        "String::push_str" | "String::push" => {
            let p = st.innermost(&a[0])?;
            let x = text_of(st, &st.read_ptr(&p)?);
            let y = if key == "String::push" {
                match st.as_int(&a[1]) {
                    Some(c) => char::from_u32(c as u32).map(|c| StrV::Const(Rc::from(c.to_string().as_str()))),
                    None => None,
                }
            } else {
                text_of(st, &st.deref(&a[1])?)
            };
            match (x, y) {
                (Some(x), Some(y)) => {
                    st.write_ptr(&p, Val::Str(Rc::new(concat(vec![x, y]))))?;
                    v(Val::unit())
                }
                _ => bad("push_str"),
            }
        }
        "str::is_empty" | "String::is_empty" => match text_of(st, &st.deref(&a[0])?) {
            Some(StrV::Const(s)) => v(Val::bool(s.is_empty())),
            Some(StrV::OfSym(s)) if matches!(sinfo(s).map(|i| i.tk.clone()), Some(TK::Ident | TK::Literal)) => v(Val::bool(false)),
            Some(x) => v(Val::bool(text_eq(st, x, StrV::Const(Rc::from("")))?)),
            None => bad("is_empty"),
        },

        "str::starts_with" | "str::ends_with" | "str::contains" | "str::eq_ignore_ascii_case" | "str::strip_prefix" | "str::strip_suffix"
        | "str::trim_start_matches" | "str::trim_end_matches" => {
            let n = key.rsplit("::").next().unwrap();
            let pat = st.deref(&a[1])?;
            // a known text and an unknown character
            if let (None, "contains", Some(StrV::Const(c))) = (text_of(st, &pat), n, text_of(st, &st.deref(&a[0])?)) {
                if matches!(&pat, Val::Sym(s) if matches!(sinfo(*s).map(|i| i.tk.clone()), Some(TK::Char))) {
                    for ch in c.chars() {
                        if val_eq(st, &pat, &Val::Int(ch as u32 as i128))? {
                            return v(Val::bool(true));
                        }
                    }
                    return v(Val::bool(false));
                }
            }
            let p = match (text_of(st, &pat), st.as_int(&pat)) {
                (Some(t), _) => t,
                (None, Some(c)) if matches!(pat, Val::Int(_)) || matches!(&pat, Val::Sym(s) if matches!(sinfo(*s).map(|i| i.tk.clone()), Some(TK::Char))) => match char::from_u32(c as u32) {
                    Some(c) => StrV::Const(Rc::from(c.to_string().as_str())),
                    None => return bad("string pattern"),
                },
                _ => return bad("string pattern"),
            };
            let Some(x) = text_of(st, &st.deref(&a[0])?) else { return bad("text predicate") };
            let pred = match n {
                "strip_prefix" | "trim_start_matches" => "starts_with",
                "strip_suffix" | "trim_end_matches" => "ends_with",
                n => n,
            };
            let r = text_op(st, pred, x.clone(), p.clone())?;
            if pred == n {
                return v(Val::bool(r));
            }
            let opt = n.starts_with("strip");
            if !r {
                return v(if opt { Val::none() } else { a[0].clone() });
            }
            let y = match (norm_text(st, x.clone()), &p) {
                (StrV::Const(c), StrV::Const(q)) => Val::str(match n {
                    "strip_prefix" => c.strip_prefix(&**q).unwrap_or(&c),
                    "strip_suffix" => c.strip_suffix(&**q).unwrap_or(&c),
                    "trim_start_matches" => c.trim_start_matches(&**q),
                    _ => c.trim_end_matches(&**q),
                }),
                (x, StrV::Const(q)) if !q.is_empty() => {
                    let k = mk_sym(SymKind::Op(Rc::from("strip"), vec![Val::Str(Rc::new(x)), Val::str(q), Val::str(n)], 0), named("str"));
                    Val::Sym(k)
                }
                _ => return bad("string pattern"),
            };
            let y = match y {
                Val::Ref(_) => y,
                y => Val::imm(y),
            };
            v(if opt { Val::some(y) } else { y })
        }

        "str::trim" | "str::trim_start" | "str::trim_end" | "str::to_lowercase" | "str::to_uppercase" | "str::to_ascii_lowercase"
        | "str::to_ascii_uppercase" => {
            let n = key.rsplit("::").next().unwrap();
            let trim = n.starts_with("trim");
            let Some(x) = text_of(st, &st.deref(&a[0])?) else { return bad("text function") };
            let x = norm_text(st, x);
            let y = match &x {
                StrV::Const(c) => StrV::Const(Rc::from(match n {
                    "trim" => c.trim().to_string(),
                    "trim_start" => c.trim_start().to_string(),
                    "trim_end" => c.trim_end().to_string(),
                    "to_lowercase" => c.to_lowercase(),
                    "to_uppercase" => c.to_uppercase(),
                    "to_ascii_lowercase" => c.to_ascii_lowercase(),
                    _ => c.to_ascii_uppercase(),
                }.as_str())),
                // the text of a token has no space at its ends
                StrV::OfSym(k) if trim && matches!(sinfo(*k).map(|i| i.tk.clone()), Some(TK::Ident | TK::Literal)) => x.clone(),
                _ => {
                    let vx = Val::Str(Rc::new(x.clone()));
                    let k = mk_sym(SymKind::Op(Rc::from("changes"), vec![vx.clone(), Val::str(n)], 0), named("bool"));
                    match st.exp.get(&k) {
                        Some(Known::Int(0)) => x.clone(),
                        Some(Known::Int(_)) => StrV::OfSym(mk_sym(SymKind::Op(Rc::from("strip"), vec![vx, Val::str(n)], 0), named("str"))),
                        _ => return Err(Stop::Fork(vec![Assume::IntEq(k, 1), Assume::IntEq(k, 0)])),
                    }
                }
            };
            let y = Val::Str(Rc::new(y));
            v(if trim { Val::imm(y) } else { y })
        }

        // ---- proc_macro2 ----
        "Ident::new" | "Ident::new_raw" => {
            let s = text_of(st, &st.deref(&a[0])?);
            let span = span_of(st, &a[1])?;
            match s {
                Some(s) => {
                    if let StrV::Const(c) = &s {
                        if !valid_ident(c) {
                            return Err(Stop::Panic("malformed identifier".into()));
                        }
                    }
                    // the text of an identifier may be that of a raw one, which Ident::new refuses
                    if let (StrV::OfSym(x), "Ident::new") = (&s, key.as_str()) {
                        let free = !matches!(st.text_bound(*x), Bound::Text { neg: false, .. });
                        if free && matches!(sinfo(*x).map(|i| i.tk.clone()), Some(TK::Ident)) {
                            let k = mk_sym(SymKind::Op(Rc::from("raw"), vec![Val::Sym(*x)], 0), named("bool"));
                            match st.exp.get(&k) {
                                Some(Known::Int(0)) => {}
                                Some(Known::Int(_)) => return Err(Stop::Panic("the text of a raw identifier given to Ident::new".into())),
                                _ => return Err(Stop::Fork(vec![Assume::IntEq(k, 1), Assume::IntEq(k, 0)])),
                            }
                        }
                    }
                    v(Val::Tok(Rc::new(TokV::Ident { text: s, span })))
                }
                None => bad("Ident::new"),
            }
        }
        "Punct::new" => v(Val::Tok(Rc::new(TokV::Punct { ch: a[0].clone(), sp: a[1].clone(), span: SpanV::CallSite }))),
        "Punct::as_char" => v(st.punct_ch(&tok_arg(st, &a[0])?)),
        "Punct::spacing" => v(st.punct_sp(&tok_arg(st, &a[0])?)),
        "Group::new" => {
            let Some(n) = list_of(st, &a[1])? else { return bad("Group::new") };
            v(Val::Tok(Rc::new(TokV::Group { delim: a[0].clone(), inner: n, span: SpanV::CallSite })))
        }
        "Group::delimiter" => v(st.group_delim(&tok_arg(st, &a[0])?)),
        "Group::stream" => v(Val::list(st.group_inner(&tok_arg(st, &a[0])?))),
        "Group::span" | "Ident::span" | "Punct::span" | "Literal::span" => v(Val::Span(Rc::new(st.tok_span(&tok_arg(st, &a[0])?)))),
        "Group::span_open" | "Group::span_close" => {
            let s = st.tok_span(&tok_arg(st, &a[0])?);
            v(Val::Span(Rc::new(SpanV::Other(Rc::new(s), if key == "Group::span_open" { "open" } else { "close" }))))
        }
        "Group::delim_span" => {
            let s = st.tok_span(&tok_arg(st, &a[0])?);
            v(Val::Span(Rc::new(s)))
        }
        "DelimSpan::join" => v(a[0].clone()).and_then(|_| v(st.deref(&a[0])?)),
        "DelimSpan::open" | "DelimSpan::close" => {
            let s = span_of(st, &a[0])?;
            v(Val::Span(Rc::new(SpanV::Other(Rc::new(s), if key.ends_with("open") { "open" } else { "close" }))))
        }
        "Group::set_span" | "Ident::set_span" | "Punct::set_span" | "Literal::set_span" => {
            let sp = span_of(st, &a[1])?;
            set_span(st, &a[0], sp)
        }
        "Literal::string" => {
            let s = text_of(st, &st.deref(&a[0])?);
            match s {
                Some(s) => v(Val::Tok(Rc::new(TokV::Lit {
                    text: concat(vec![StrV::Const(Rc::from("\"")), s, StrV::Const(Rc::from("\""))]),
                    span: SpanV::CallSite,
                }))),
                None => bad("Literal::string"),
            }
        }
        k if k.starts_with("Literal::") && k.ends_with("_unsuffixed") && a.len() == 1 => v(Val::Tok(Rc::new(TokV::Lit {
            text: StrV::OfInt(a[0].clone()),
            span: SpanV::CallSite,
        }))),
        k if k.starts_with("Literal::") && k.ends_with("_suffixed") && a.len() == 1 => v(Val::Tok(Rc::new(TokV::Lit {
            text: concat(vec![
                StrV::OfInt(a[0].clone()),
                StrV::Const(Rc::from(k.trim_start_matches("Literal::").trim_end_matches("_suffixed"))),
            ]),
            span: SpanV::CallSite,
        }))),
        "Span::call_site" => v(Val::Span(Rc::new(SpanV::CallSite))),
        "Span::mixed_site" => v(Val::Span(Rc::new(SpanV::MixedSite))),
        "Span::join" => {
            let (x, y) = (span_of(st, &a[0])?, span_of(st, &a[1])?);
            let k = mk_sym(
                SymKind::Op(Rc::from("Span::join"), vec![Val::Span(Rc::new(x.clone())), Val::Span(Rc::new(y.clone()))], 0),
                named("bool"),
            );
            let b = ix.bool_of(st, &Val::Sym(k))?;
            v(if b { Val::some(Val::Span(Rc::new(SpanV::Join(Rc::new(x), Rc::new(y))))) } else { Val::none() })
        }
        "Span::resolved_at" => v(st.deref(&a[0])?),
        "Span::located_at" => v(st.deref(&a[1])?),
        "TokenTree::set_span" => Ok(M::Skip),

        // ---- quote ----
        "ToTokens::to_tokens" => {
            let mut x = st.deref1(&a[0])?;
            while let Val::Ref(_) = &x {
                x = st.deref1(&x)?;
            }
            let nodes: Vec<Node> = match &x {
                Val::List(n) => n.to_vec(),
                Val::Tok(_) => st.print_simple(&x).unwrap(),
                Val::Sym(s) => match st.print_simple(&x) {
                    Some(n) => n,
                    None => match sinfo(*s).map(|i| i.tk.clone()) {
                        Some(TK::Bool) => {
                            let b = ix.bool_of(st, &x)?;
                            vec![ident_node(if b { "true" } else { "false" })]
                        }
                        _ => return bad("print of scalar"),
                    },
                },
                Val::Agg(k, f) => {
                    let tn = strip_ref_name(t[0]);
                    if tn.ends_with("option::Option") {
                        if *k == 0 {
                            vec![]
                        } else {
                            let inner = Val::imm(f[0].clone());
                            let it = opt_inner(t[0]);
                            let Some(it) = it else { return bad("print of option") };
                            return Ok(M::Redirect(def, ty_args(&[it]), vec![inner, a[1].clone()]));
                        }
                    } else if tn == "proc_macro2::TokenTree" {
                        vec![Node::Elem(x.clone())]
                    } else {
                        // interpret the implementation
                        let mut ty = t[0];
                        let mut depth_arg = a[0].clone();
                        while let TK::Ref(i, _) | TK::Box(i) = info(ty).tk {
                            ty = i;
                            depth_arg = st.deref1(&depth_arg)?;
                        }
                        if ty != t[0] {
                            return Ok(M::Redirect(def, ty_args(&[ty]), vec![depth_arg, a[1].clone()]));
                        }
                        return Ok(M::Skip);
                    }
                }
                Val::Str(s) => {
                    let text = concat(vec![StrV::Const(Rc::from("\"")), (**s).clone(), StrV::Const(Rc::from("\""))]);
                    vec![Node::Elem(Val::agg(3, vec![Val::Tok(Rc::new(TokV::Lit { text, span: SpanV::CallSite }))]))]
                }
                _ => return bad(format!("print of {:?}", x)),
            };
            let (p, mut n) = list_mut(st, &a[1])?;
            n.extend(nodes);
            st.write_ptr(&p, Val::list(n))?;
            v(Val::unit())
        }
        "TokenStreamExt::append" => {
            let x = st.deref(&a[1])?;
            let nodes = match st.print_simple(&x) {
                Some(n) if !matches!(n[0], Node::Print(_)) => n,
                _ => match &x {
                    Val::Agg(..) => vec![Node::Elem(x.clone())],
                    _ => return bad("append"),
                },
            };
            let (p, mut n) = list_mut(st, &a[0])?;
            n.extend(nodes);
            st.write_ptr(&p, Val::list(n))?;
            v(Val::unit())
        }
        "TokenStreamExt::append_all" | "TokenStreamExt::append_separated" | "TokenStreamExt::append_terminated" => {
            let nm = key.split("::").nth(1).unwrap().to_string();
            let mut g = t.clone();
            if !g.is_empty() {
                g.remove(0);
            }
            Ok(M::Outs(shim(ix, st, &nm, &g, a.to_vec(), roots, stack)?))
        }
        "Spanned::__span" => {
            let x = st.deref(&a[0])?;
            if let Val::Span(_) = &x {
                return v(x);
            }
            let mut ty = t[0];
            let mut arg = a[0].clone();
            while let TK::Ref(i, _) = info(ty).tk {
                ty = i;
                arg = st.deref1(&arg)?;
            }
            let mut o = shim(ix, st, "print", &[ty], vec![arg], roots, stack)?;
            for y in &mut o {
                if let End::Ret(Val::List(n)) = &y.end {
                    let n = n.to_vec();
                    y.end = End::Ret(Val::Span(Rc::new(SpanV::Over(n))));
                }
            }
            Ok(M::Outs(o))
        }
        _ => Ok(M::Skip),
    }
}
fn impl_in_venial_iter(t: &[Ty]) -> bool {
    t.first().map_or(false, |t| adt_name(*t).starts_with("venial"))
}
fn adt_name_of_ref(t: Ty) -> String {
    match info(t).tk {
        TK::Ref(x, _) => adt_name(x),
        _ => String::new(),
    }
}
fn strip_ref_name(t: Ty) -> String {
    let mut t = t;
    while let TK::Ref(x, _) | TK::Box(x) = info(t).tk {
        t = x;
    }
    adt_name(t)
}
fn opt_inner(t: Ty) -> Option<Ty> {
    let mut t = t;
    while let TK::Ref(x, _) | TK::Box(x) = info(t).tk {
        t = x;
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(_, a)) => first_ty(&a),
        _ => None,
    }
}
fn ident_node(s: &str) -> Node {
    Node::Elem(Val::agg(
        1,
        vec![Val::Tok(Rc::new(TokV::Ident { text: StrV::Const(Rc::from(s)), span: SpanV::CallSite }))],
    ))
}
pub fn concat(parts: Vec<StrV>) -> StrV {
    let mut out: Vec<StrV> = vec![];
    for p in parts {
        let ps = match p {
            StrV::Concat(v) => v,
            x => vec![x],
        };
        for q in ps {
            if matches!(&q, StrV::Const(c) if c.is_empty()) {
                continue;
            }
            match (out.last_mut(), &q) {
                (Some(StrV::Const(a)), StrV::Const(b)) => {
                    let s = format!("{}{}", a, b);
                    *a = Rc::from(s.as_str());
                }
                _ => out.push(q),
            }
        }
    }
    if out.is_empty() {
        StrV::Const(Rc::from(""))
    } else if out.len() == 1 {
        out.pop().unwrap()
    } else {
        StrV::Concat(out)
    }
}
/// Text of format arguments: a function of the template and the argument values.
fn display_text(st: &State, x: &Val) -> StrV {
    let d = st.deref(x).unwrap_or_else(|_| x.clone());
    let x = &d;
    if let Some(s) = text_of(st, x) {
        return s;
    }
    match x {
        Val::Int(_) | Val::Lin(_) => StrV::OfInt(x.clone()),
        Val::Sym(s) if matches!(sinfo(*s).map(|i| i.tk.clone()), Some(TK::Int)) => StrV::OfInt(x.clone()),
        _ => StrV::Display(x.clone()),
    }
}
/// Text of an encoded format template with plain `{}` placeholders.
fn fmt_decode(st: &State, parts: &[Val]) -> Option<StrV> {
    let Val::List(t) = st.deref(&parts[0]).ok()? else { return None };
    let Val::List(args) = st.deref(parts.get(1)?).ok()? else { return None };
    let mut by = vec![];
    for n in t.iter() {
        match n {
            Node::Elem(Val::Int(i)) => by.push(*i as u8),
            _ => return None,
        }
    }
    let mut out = vec![];
    let (mut i, mut k) = (0, 0);
    while i < by.len() && by[i] != 0 {
        if by[i] < 128 {
            let n = by[i] as usize;
            let s = String::from_utf8(by.get(i + 1..i + 1 + n)?.to_vec()).ok()?;
            out.push(StrV::Const(Rc::from(s.as_str())));
            i += 1 + n;
        } else if by[i] == 0xC0 {
            let Node::Elem(Val::Agg(7, f)) = args.get(k)? else { return None };
            if f[1] != Val::Int(1) {
                return None;
            }
            out.push(display_text(st, &f[0]));
            k += 1;
            i += 1;
        } else {
            return None;
        }
    }
    Some(concat(out))
}
fn fmt_text(st: &State, v: &Val) -> R<Val> {
    let Val::Agg(8, parts) = v else { return Ok(Val::Str(Rc::new(StrV::Fresh(fresh_id())))) };
    if parts.len() == 1 {
        return st.deref(&parts[0]);
    }
    if let Some(s) = fmt_decode(st, parts) {
        return Ok(Val::Str(Rc::new(s)));
    }
    let mut fs = vec![];
    for p in parts.iter() {
        fs.push(st.deref(p)?);
    }
    // a key that identifies template and arguments
    let k = mk_sym(SymKind::Op(Rc::from("format"), fs, 0), named("str"));
    Ok(Val::Str(Rc::new(StrV::OfSym(k))))
}
fn shim_any(ix: &mut Ix, st: &State, name: &str, t: &[Ty], a: &[Val], roots: &Option<Rc<Roots>>, stack: &Rc<Stack>) -> R<M> {
    Ok(M::Outs(shim(ix, st, name, t, a.to_vec(), roots, stack)?))
}
fn shim_list_map(ix: &mut Ix, st: &State, t: &[Ty], n: Vec<Node>, f: Val, roots: &Option<Rc<Roots>>, stack: &Rc<Stack>) -> R<M> {
    // [T; N]::map<F, U>: type arguments T, F, U
    if t.len() < 3 {
        return bad("array map");
    }
    let Some(vt) = ix.shims.get("vec_map").cloned() else { return bad("no shim vec_map") };
    let Ok(i) = Instance::resolve(vt, &ty_args(&[t[0], t[2], t[1]])) else { return bad("vec_map") };
    Ok(M::Outs(ix.call(st.clone(), i, vec![Val::list(n), f], roots.clone(), Some(stack.clone()))))
}
