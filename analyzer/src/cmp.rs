//! Equality of abstract values and token lists, deciding by case distinction where needed.
use crate::exec::*;
use crate::models;
use crate::state::*;
use crate::types::*;
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Cmp {
    Eq,
    Ne(String),
}
use Cmp::*;

pub struct Verdicts {
    pub eq: Vec<State>,
    pub ne: Vec<(State, String)>,
    pub undecided: Vec<String>,
}
impl Verdicts {
    pub fn all_eq(&self) -> bool {
        self.ne.is_empty() && self.undecided.is_empty()
    }
}

/// Decide `f` in every case of the state.
pub fn explore(ix: &mut Ix, st: &State, limit: usize, f: &mut dyn FnMut(&mut Ix, &State) -> R<Cmp>) -> Verdicts {
    let mut v = Verdicts { eq: vec![], ne: vec![], undecided: vec![] };
    let mut wl = vec![(st.clone(), 0usize)];
    let mut n = 0;
    while let Some((s, d)) = wl.pop() {
        n += 1;
        if n > limit || ix.over() {
            v.undecided.push("comparison budget".into());
            break;
        }
        match f(ix, &s) {
            Ok(Eq) => v.eq.push(s),
            Ok(Ne(m)) => v.ne.push((s, m)),
            Err(e) => {
                if d > 60 {
                    v.undecided.push(format!("comparison depth: {:?}", e));
                    continue;
                }
                ix.no_merge += 1;
                let r = ix.resolve_stop(e, s, None, "comparison");
                ix.no_merge -= 1;
                match r {
                    Ok(l) => wl.extend(l.into_iter().map(|s| (s, d + 1))),
                    Err(o) => match o.end {
                        End::Undecided(m) => v.undecided.push(m),
                        End::Panic(m) => v.undecided.push(format!("panic while printing: {}", m)),
                        End::Ret(_) => {}
                    },
                }
            }
        }
        if v.ne.len() >= 3 {
            break;
        }
    }
    v
}

fn norm(st: &State, v: &Val) -> R<Val> {
    let v = st.deref(v)?;
    Ok(match &v {
        Val::Sym(s) => match st.exp.get(s) {
            Some(Known::Int(i)) => Val::Int(*i),
            Some(Known::Variant(_)) | None => v,
            Some(Known::Text(_)) => v,
        },
        _ => v,
    })
}
pub fn norm_span(st: &State, s: &SpanV) -> SpanV {
    match s {
        SpanV::Of(x) => match st.exp.get(x) {
            Some(Known::Variant(k)) if is_enumlike(*x) => norm_span(st, &st.tok_span(&child_val(*x, *k, 0))),
            _ => s.clone(),
        },
        SpanV::Join(a, b) => {
            let (a, b) = (norm_span(st, a), norm_span(st, b));
            if a == b {
                a
            } else {
                SpanV::Join(Rc::new(a), Rc::new(b))
            }
        }
        SpanV::Other(a, k) => SpanV::Other(Rc::new(norm_span(st, a)), k),
        _ => s.clone(),
    }
}
fn eq_span(ix: &mut Ix, st: &State, a: &SpanV, b: &SpanV) -> R<Cmp> {
    let (x, y) = (norm_span(st, a), norm_span(st, b));
    if x == y {
        return Ok(Eq);
    }
    match (&x, &y) {
        (SpanV::Over(p), SpanV::Over(q)) => match eq_list(ix, st, p, q, 6)? {
            Eq => Ok(Eq),
            Ne(m) => Ok(Ne(format!("location over other tokens: {}", m))),
        },
        (SpanV::Join(a, b), SpanV::Join(c, d)) => {
            match eq_span(ix, st, a, c)? {
                Eq => {}
                n => return Ok(n),
            }
            eq_span(ix, st, b, d)
        }
        (SpanV::Over(p), o) | (o, SpanV::Over(p)) => {
            // the location over a list goes from its first to its last token
            let Some((f, rest)) = st.uncons(p)? else {
                return Ok(if *o == SpanV::CallSite { Eq } else { Ne(format!("location {} of nothing", show_span(st, o))) });
            };
            let first = st.tok_span(&f);
            let Some((l, _)) = st.unsnoc(&rest)? else { return eq_span(ix, st, &first, o) };
            let last = st.tok_span(&l);
            match o {
                SpanV::Join(a, b) => match eq_span(ix, st, a, &first)? {
                    Eq => eq_span(ix, st, b, &last),
                    n => Ok(n),
                },
                o => match eq_span(ix, st, o, &first)? {
                    Eq => bad("location of the first token only"),
                    n => Ok(n),
                },
            }
        }
        _ => {
            for s in [&x, &y] {
                if let SpanV::Of(t) = s {
                    if is_enumlike(*t) {
                        st.variant_of(&Val::Sym(*t))?;
                    }
                }
            }
            Ok(Ne(format!("location {} instead of {}", show_span(st, &x), show_span(st, &y))))
        }
    }
}
fn kind(v: &Val) -> Option<TK> {
    match v {
        Val::Sym(s) => sinfo(*s).map(|i| i.tk.clone()),
        Val::Tok(t) => Some(match &**t {
            TokV::Ident { .. } => TK::Ident,
            TokV::Punct { .. } => TK::Punct,
            TokV::Group { .. } => TK::Group,
            TokV::Lit { .. } => TK::Literal,
            TokV::Respan { base, .. } => return sinfo(*base).map(|i| i.tk.clone()),
        }),
        _ => None,
    }
}

pub fn eq_val(ix: &mut Ix, st: &State, a: &Val, b: &Val, depth: usize) -> R<Cmp> {
    let (a, b) = (norm(st, a)?, norm(st, b)?);
    if a == b {
        if matches!(a, Val::Opaque(_)) {
            return bad("unknown value");
        }
        return Ok(Eq);
    }
    if depth == 0 {
        return bad("comparison nesting");
    }
    let ne = || Ok(Ne(format!("{} instead of {}", show(st, &a), show(st, &b))));
    match (&a, &b) {
        (Val::Opaque(_), _) | (_, Val::Opaque(_)) => return bad("unknown value"),
        (Val::Uninit, _) | (_, Val::Uninit) => return bad("uninitialised value"),
        (Val::List(x), Val::List(y)) => return eq_list(ix, st, x, y, depth),
        (Val::Iter(x), Val::Iter(y)) => {
            let (p, q) = (models::item_nodes(st, x)?, models::item_nodes(st, y)?);
            return eq_list(ix, st, &p, &q, depth);
        }
        (Val::Iter(x), Val::List(y)) => {
            let p = models::item_nodes(st, x)?;
            return eq_list(ix, st, &p, y, depth);
        }
        (Val::List(x), Val::Iter(y)) => {
            let p = models::item_nodes(st, y)?;
            return eq_list(ix, st, x, &p, depth);
        }
        (Val::Span(x), Val::Span(y)) => return eq_span(ix, st, x, y),
        (Val::Str(x), Val::Str(y)) => {
            return match models::text_eq(st, (**x).clone(), (**y).clone()) {
                Ok(true) => Ok(Eq),
                Ok(false) => ne(),
                Err(Stop::Bad(_)) => eq_str(ix, st, x, y, depth),
                Err(e) => Err(e),
            };
        }
        (Val::Int(_), _) | (_, Val::Int(_)) | (Val::Lin(_), _) | (_, Val::Lin(_)) => {
            if let (Ok(x), Ok(y)) = (st.lin(&a), st.lin(&b)) {
                return match st.lin_cmp(&x.add(&y, -1), "eq") {
                    Ok(true) => Ok(Eq),
                    Ok(false) => ne(),
                    Err(e) => Err(e),
                };
            }
            // fieldless enums
            let (k, l) = (scalar(st, &a)?, scalar(st, &b)?);
            return if k == l { Ok(Eq) } else { ne() };
        }
        _ => {}
    }
    // tokens
    match (kind(&a), kind(&b)) {
        (Some(x), Some(y)) if matches!(x, TK::Ident | TK::Literal | TK::Punct | TK::Group) => {
            if x != y {
                return ne();
            }
            match x {
                TK::Ident | TK::Literal => {
                    let (p, q) = (models::text_of(st, &a), models::text_of(st, &b));
                    let (Some(p), Some(q)) = (p, q) else { return bad("token text") };
                    match models::text_eq(st, p.clone(), q.clone()) {
                        Ok(true) => {}
                        Ok(false) => return ne(),
                        Err(Stop::Bad(_)) => {
                            if let Ne(_) = eq_str(ix, st, &p, &q, depth)? {
                                return ne();
                            }
                        }
                        Err(e) => return Err(e),
                    }
                }
                TK::Punct => {
                    match eq_val(ix, st, &st.punct_ch(&a), &st.punct_ch(&b), depth - 1)? {
                        Eq => {}
                        Ne(_) => return ne(),
                    }
                    match eq_val(ix, st, &st.punct_sp(&a), &st.punct_sp(&b), depth - 1)? {
                        Eq => {}
                        Ne(_) => return Ok(Ne(format!("{} and {} differ in spacing", show(st, &a), show(st, &b)))),
                    }
                }
                _ => {
                    match eq_val(ix, st, &st.group_delim(&a), &st.group_delim(&b), depth - 1)? {
                        Eq => {}
                        Ne(_) => return Ok(Ne(format!("delimiter of {} instead of {}", show(st, &a), show(st, &b)))),
                    }
                    match eq_list(ix, st, &st.group_inner(&a), &st.group_inner(&b), depth - 1)? {
                        Eq => {}
                        Ne(m) => return Ok(Ne(format!("inside group: {}", m))),
                    }
                }
            }
            if ix.strict {
                return match eq_span(ix, st, &st.tok_span(&a), &st.tok_span(&b))? {
                    Eq => Ok(Eq),
                    Ne(m) => Ok(Ne(format!("token {}: {}", show(st, &a), m))),
                };
            }
            return Ok(Eq);
        }
        _ => {}
    }
    if let (Val::Sym(x), Val::Sym(y)) = (&a, &b) {
        if let (Some(TK::Int | TK::Char | TK::Bool), _) = (kind(&a), 0) {
            let d = Lin::sym(*x).add(&Lin::sym(*y), -1);
            return match st.lin_cmp(&d, "eq") {
                Ok(true) => Ok(Eq),
                Ok(false) => ne(),
                Err(Stop::Bad(_)) => {
                    if kind(&a) == Some(TK::Bool) {
                        Err(Stop::Fork(vec![Assume::IntEq(*x, 1), Assume::IntEq(*x, 0)]))
                    } else {
                        ne()
                    }
                }
                Err(e) => Err(e),
            };
        }
    }
    // structured values
    match (&a, &b) {
        (Val::Agg(..), _) | (_, Val::Agg(..)) | (Val::Sym(_), Val::Sym(_)) => {
            let (k, l) = (st.variant_of(&a)?, st.variant_of(&b)?);
            if k != l {
                return ne();
            }
            match (st.as_agg(&a), st.as_agg(&b)) {
                (Some((_, x)), Some((_, y))) => {
                    if x.len() != y.len() {
                        return bad("comparison of different types");
                    }
                    for (p, q) in x.iter().zip(&y) {
                        match eq_val(ix, st, p, q, depth - 1)? {
                            Eq => {}
                            n => return Ok(n),
                        }
                    }
                    Ok(Eq)
                }
                _ => bad("comparison of unknown structure"),
            }
        }
        _ => bad(format!("cannot compare {} and {}", show(st, &a), show(st, &b))),
    }
}
fn scalar(st: &State, v: &Val) -> R<i128> {
    match v {
        Val::Int(i) => Ok(*i),
        _ => st.variant_of(v).map(|k| k as i128),
    }
}
fn eq_str(ix: &mut Ix, st: &State, a: &StrV, b: &StrV, depth: usize) -> R<Cmp> {
    if a == b {
        return Ok(Eq);
    }
    let ne = || Ok(Ne(format!("text {:?} instead of {:?}", a, b)));
    match (a, b) {
        (StrV::Concat(x), StrV::Concat(y)) => {
            if x.len() != y.len() {
                return ne();
            }
            for (p, q) in x.iter().zip(y) {
                match models::text_eq(st, p.clone(), q.clone()) {
                    Ok(true) => {}
                    Ok(false) => return ne(),
                    Err(Stop::Bad(_)) => match eq_str(ix, st, p, q, depth)? {
                        Eq => {}
                        n => return Ok(n),
                    },
                    Err(e) => return Err(e),
                }
            }
            Ok(Eq)
        }
        (StrV::OfInt(x), StrV::OfInt(y)) | (StrV::Display(x), StrV::Display(y)) => eq_val(ix, st, x, y, depth - 1),
        (StrV::OfSym(x), StrV::OfSym(y)) => {
            // same formatting of equal values
            if let (SymKind::Op(n1, v1, i1), SymKind::Op(n2, v2, i2)) = (sym_kind(*x), sym_kind(*y)) {
                if n1 == n2 && i1 == i2 && v1.len() == v2.len() {
                    for (p, q) in v1.iter().zip(&v2) {
                        match eq_val(ix, st, p, q, depth - 1)? {
                            Eq => {}
                            _ => return bad("formatted text"),
                        }
                    }
                    return Ok(Eq);
                }
                return bad("formatted text");
            }
            match models::text_eq(st, a.clone(), b.clone()) {
                Ok(true) => return Ok(Eq),
                Ok(false) => return ne(),
                _ => {}
            }
            if matches!(sym_kind(*x), SymKind::Op(..)) || matches!(sym_kind(*y), SymKind::Op(..)) {
                return bad("formatted text");
            }
            ne()
        }
        (StrV::OfSym(x), _) | (_, StrV::OfSym(x)) if matches!(sym_kind(*x), SymKind::Op(..)) => bad("formatted text"),
        (StrV::Fresh(_), _) | (_, StrV::Fresh(_)) => bad("formatted text"),
        (StrV::Const(_), StrV::Const(_)) => ne(),
        _ => ne(),
    }
}

/// Remove nodes that certainly print nothing.
fn trim(st: &State, n: &[Node]) -> Vec<Node> {
    st.flat(n)
        .into_iter()
        .filter(|x| match x {
            Node::Sub(s) | Node::PrintEach(s) | Node::Map(_, s) => st.get_sbound(*s).cons_ok,
            _ => true,
        })
        .collect()
}

pub fn eq_list(ix: &mut Ix, st: &State, a: &[Node], b: &[Node], depth: usize) -> R<Cmp> {
    if depth == 0 {
        return bad("comparison nesting");
    }
    let (mut x, mut y) = (trim(st, a), trim(st, b));
    // cancel identical ends
    while !x.is_empty() && !y.is_empty() && x.last() == y.last() {
        x.pop();
        y.pop();
    }
    let mut i = 0;
    while i < x.len() && i < y.len() && x[i] == y[i] {
        i += 1;
    }
    x.drain(..i);
    y.drain(..i);
    loop {
        if x.is_empty() && y.is_empty() {
            return Ok(Eq);
        }
        if x.iter().chain(&y).any(|n| matches!(n, Node::Opq(_) | Node::Pend(_))) {
            return bad("unknown list part");
        }
        match (x.first().cloned(), y.first().cloned()) {
            (Some(Node::Elem(p)), Some(Node::Elem(q))) => {
                match eq_val(ix, st, &p, &q, depth)? {
                    Eq => {}
                    n => return Ok(n),
                }
                x.remove(0);
                y.remove(0);
            }
            (Some(p), Some(q)) => {
                if p == q {
                    x.remove(0);
                    y.remove(0);
                    continue;
                }
                if let (Some((m, s)), Some((n, t))) = (as_map(&p), as_map(&q)) {
                    if s == t && st.seqexp.get(&s).is_none() {
                        match eq_map(ix, st, &m, &n, s, depth)? {
                            Some(true) => {
                                x.remove(0);
                                y.remove(0);
                                continue;
                            }
                            Some(false) => return Err(st.split_first(s)),
                            None => return bad("mapped lists"),
                        }
                    }
                }
                // unfold one side
                if let Some(r) = open(st, &p)? {
                    x.remove(0);
                    let mut r = trim(st, &r);
                    r.append(&mut x);
                    x = r;
                    continue;
                }
                if let Some(r) = open(st, &q)? {
                    y.remove(0);
                    let mut r = trim(st, &r);
                    r.append(&mut y);
                    y = r;
                    continue;
                }
                return bad("list comparison");
            }
            (Some(p), None) => match &p {
                Node::Elem(v) => return Ok(Ne(format!("extra {}", show(st, v)))),
                _ => match open(st, &p)? {
                    Some(r) => {
                        x.remove(0);
                        let mut r = trim(st, &r);
                        r.append(&mut x);
                        x = r;
                    }
                    None => return bad("list comparison"),
                },
            },
            (None, Some(q)) => match &q {
                Node::Elem(v) => return Ok(Ne(format!("missing {}", show(st, v)))),
                _ => match open(st, &q)? {
                    Some(r) => {
                        y.remove(0);
                        let mut r = trim(st, &r);
                        r.append(&mut y);
                        y = r;
                    }
                    None => return bad("list comparison"),
                },
            },
            (None, None) => return Ok(Eq),
        }
    }
}
/// Expand a node; Err asks for a case distinction, None: already an element.
fn open(st: &State, n: &Node) -> R<Option<Vec<Node>>> {
    match n {
        Node::Elem(_) => Ok(None),
        Node::Sub(s) | Node::PrintEach(s) => Err(st.split_first(*s)),
        Node::Print(s) => Err(Stop::NeedPrint(*s)),
        Node::Map(m, s) => Ok(Some(st.map_unfold(m, *s, true)?.unwrap_or_default())),
        _ => bad("unknown list part"),
    }
}
fn as_map(n: &Node) -> Option<(MapRec, SubId)> {
    match n {
        Node::Map(m, s) => Some(((**m).clone(), *s)),
        Node::Sub(s) => {
            let f = fresh_sym(sub_ty(*s), "e");
            Some((MapRec { formal: f, cases: vec![(vec![], vec![Node::Elem(val_of_sym(f))])] }, *s))
        }
        Node::PrintEach(s) => {
            let f = fresh_sym(sub_ty(*s), "e");
            let p = models::print_formal(f)?;
            Some((MapRec { formal: f, cases: vec![(vec![], p)] }, *s))
        }
        _ => None,
    }
}
/// Do two maps agree on every element of the list?
fn eq_map(ix: &mut Ix, st: &State, m: &MapRec, n: &MapRec, s: SubId, depth: usize) -> R<Option<bool>> {
    let e = fresh_sym(sub_ty(s), "e");
    let v = val_of_sym(e);
    let mut s2 = st.clone();
    s2.bound.insert(e, st.get_sbound(s).elem);
    let (m, n) = (Rc::new(m.clone()), Rc::new(n.clone()));
    let r = explore(ix, &s2, 400, &mut |ix, st| {
        let p = st.map_apply(&m, &v)?;
        let q = st.map_apply(&n, &v)?;
        eq_list(ix, st, &p, &q, depth - 1)
    });
    if r.all_eq() {
        return Ok(Some(true));
    }
    if !r.ne.is_empty() {
        return Ok(Some(false));
    }
    Err(Stop::Bad(r.undecided.into_iter().next().unwrap_or_default()))
}

// ---- rendering for reports ----
pub fn show_span(st: &State, s: &SpanV) -> String {
    match s {
        SpanV::Of(x) => format!("of {}", show_sym(*x)),
        SpanV::CallSite => "call site".into(),
        SpanV::MixedSite => "mixed site".into(),
        SpanV::Sym(x) => show_sym(*x),
        SpanV::Join(a, b) => format!("join({}, {})", show_span(st, a), show_span(st, b)),
        SpanV::Over(n) => format!("over {}", show_nodes(st, n)),
        SpanV::Other(a, k) => format!("{} {}", k, show_span(st, a)),
    }
}
pub fn show_sym(s: SymId) -> String {
    match sym_kind(s) {
        SymKind::Root(n, l) => format!("{}#{}", l, n),
        SymKind::Child(p, v, f) => {
            let i = sinfo(p);
            let name = i
                .as_ref()
                .and_then(|i| i.field_names.get(v as usize).and_then(|x| x.get(f as usize).cloned()))
                .unwrap_or(f.to_string());
            let var = i
                .as_ref()
                .and_then(|i| if i.vars.len() > 1 { i.var_names.get(v as usize).cloned() } else { None })
                .map_or(String::new(), |v| format!("{}.", v));
            format!("{}.{}{}", show_sym(p), var, name)
        }
        SymKind::Attr(p, a) => format!("{}.{:?}", show_sym(p), a),
        SymKind::Head(x) => format!("first({})", show_sub(x)),
        SymKind::Last(x) => format!("last({})", show_sub(x)),
        SymKind::Formal(_, n) => format!("elem{}", n),
        SymKind::Op(n, _, _) => format!("{}(..)", n),
    }
}
pub fn show_sub(s: SubId) -> String {
    match sub_kind(s) {
        SubKind::OfSym(p) => show_sym(p),
        SubKind::Content(p) => format!("content({})", show_sym(p)),
        SubKind::Tail(p) => format!("tail({})", show_sub(p)),
        SubKind::Init(p) => format!("init({})", show_sub(p)),
        SubKind::Fresh(n) => format!("list{}", n),
        SubKind::Mapped(_, s) => format!("filtered {}", show_sub(s)),
    }
}
pub fn show(st: &State, v: &Val) -> String {
    match v {
        Val::Sym(s) => {
            let extra = match kind(v) {
                Some(TK::Punct) => st.as_int(&st.punct_ch(v)).and_then(|c| char::from_u32(c as u32)).map(|c| format!(" `{}`", c)),
                Some(TK::Ident) => match st.exp.get(s) {
                    Some(Known::Text(t)) => Some(format!(" `{}`", t)),
                    _ => None,
                },
                _ => match st.exp.get(s) {
                    Some(Known::Int(i)) => Some(format!("={}", i)),
                    Some(Known::Variant(k)) => {
                        return match st.as_agg(v) {
                            Some((_, f)) if f.len() == 1 => show(st, &f[0]),
                            _ => format!("{}:{}", show_sym(*s), sinfo(*s).and_then(|i| i.var_names.get(*k as usize).cloned()).unwrap_or_default()),
                        }
                    }
                    _ => None,
                },
            };
            format!("{}{}", show_sym(*s), extra.unwrap_or_default())
        }
        Val::Agg(k, f) => format!("v{}({})", k, f.iter().map(|x| show(st, x)).collect::<Vec<_>>().join(", ")),
        Val::Int(i) => i.to_string(),
        Val::Ref(Ptr::Imm(x)) => show(st, x),
        Val::List(n) => show_nodes(st, n),
        Val::Iter(n) => show_nodes(st, &n.nodes),
        Val::Span(s) => format!("span {}", show_span(st, s)),
        Val::Str(s) => match &**s {
            StrV::Const(c) => format!("{:?}", c),
            StrV::OfSym(x) => format!("text of {}", show_sym(*x)),
            o => format!("{:?}", o),
        },
        Val::Tok(t) => match &**t {
            TokV::Ident { text: StrV::Const(c), .. } => format!("new ident `{}`", c),
            TokV::Ident { .. } => "new ident".into(),
            TokV::Punct { ch, .. } => format!(
                "new punct `{}`",
                st.as_int(ch).and_then(|c| char::from_u32(c as u32)).map_or("?".to_string(), |c| c.to_string())
            ),
            TokV::Group { inner, .. } => format!("new group({})", show_nodes(st, inner)),
            TokV::Lit { .. } => "new literal".into(),
            TokV::Respan { base, .. } => format!("relocated {}", show_sym(*base)),
        },
        Val::Lin(l) => format!("{:?}", l),
        _ => format!("{:?}", v),
    }
}
pub fn show_nodes(st: &State, n: &[Node]) -> String {
    let v: Vec<String> = n
        .iter()
        .take(12)
        .map(|x| match x {
            Node::Elem(v) => show(st, v),
            Node::Sub(s) => format!("..{}", show_sub(*s)),
            Node::Print(s) => format!("print({})", show_sym(*s)),
            Node::PrintEach(s) => format!("print each {}", show_sub(*s)),
            Node::Map(_, s) => format!("map {}", show_sub(*s)),
            Node::Pend(k) => format!("pending{}", k),
            Node::Opq(_) => "?".into(),
        })
        .collect();
    format!("[{}]", v.join(" "))
}
pub fn show_assume(st: &State, a: &Assume) -> String {
    match a {
        Assume::Variant(s, k) => {
            let n = sinfo(*s).and_then(|i| i.var_names.get(*k as usize).cloned()).unwrap_or(k.to_string());
            format!("{} is {}", show_sym(*s), n)
        }
        Assume::IntEq(s, i) => format!("{} == {}", show_sym(*s), i),
        Assume::IntNotIn(s, v) => format!("{} not in {:?}", show_sym(*s), v),
        Assume::IntLe(s, i) => format!("{} <= {}", show_sym(*s), i),
        Assume::IntGe(s, i) => format!("{} >= {}", show_sym(*s), i),
        Assume::TextEq(s, t) => format!("{} is `{}`", show_sym(*s), t),
        Assume::TextNe(s, t) => format!("{} is not `{}`", show_sym(*s), t),
        Assume::Empty(s) => format!("{} is empty", show_sub(*s)),
        Assume::Cons(s) => format!("{} starts with {}", show_sub(*s), show_sym(head(*s))),
        Assume::Snoc(s) => format!("{} ends with {}", show_sub(*s), show_sym(last(*s))),
        Assume::Exp(s, n) => format!("{} = {}", show_sub(*s), show_nodes(st, n)),
        Assume::SBound(s, _) => format!("{} is restricted", show_sub(*s)),
        Assume::All(v) => v.iter().map(|a| show_assume(st, a)).collect::<Vec<_>>().join(", "),
        Assume::Choice(_) => "other outcome".into(),
    }
}
