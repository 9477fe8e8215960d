//! Summaries of parsing functions, and recursion.
//!
//! The outcomes of a parsing function whose result prints exactly the tokens it read (after what
//! its by-value arguments print) are joined per kind of result: the result becomes an arbitrary
//! value within the joined bounds and the tokens read become its printed form. A function with
//! only such outcomes is analysed once per kind of arguments; recursive functions are solved as a
//! least fixpoint over their summaries.
use crate::cmp;
use crate::exec::*;
use crate::ploop::{consumed, print_val};
use crate::state::*;
use crate::subst;
use crate::types::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

const DEPTH: u32 = 14;
/// An error outcome, joined: nothing is known about the tokens read.
pub const JOINED: &str = "after an error";

/// The only token cursor among the arguments, if it stands at the start of an arbitrary list.
pub fn cursor_arg(st: &State, args: &[Val]) -> Option<(Ptr, SubId)> {
    let mut r = None;
    for a in args {
        if let Val::Ref(_) = a {
            let Ok(p @ Ptr::Place(..)) = st.innermost(a) else { continue };
            if let Ok(Val::Iter(it)) = st.read_ptr(&p) {
                if it.by_ref {
                    continue;
                }
                let n = st.flat(&it.nodes);
                match n[..] {
                    [Node::Sub(s)] if sub_ty(s) == tt_ty() => {
                        if r.is_some() {
                            return None;
                        }
                        r = Some((p, s));
                    }
                    _ => return None,
                }
            }
        }
    }
    r
}

fn wrapper(name: &str) -> bool {
    name.ends_with("option::Option") || name.ends_with("result::Result")
}

/// Shape of a result: outcomes of different shape are kept apart.
fn key(st: &State, v: &Val, ty: Ty, depth: u32) -> Option<String> {
    let i = info(ty);
    match &i.tk {
        TK::Int | TK::Bool | TK::Char => st.as_int(v).map(|i| i.to_string()),
        TK::Adt { name, is_enum } if *is_enum && &**name != "proc_macro2::TokenTree" => {
            let (k, f) = st.as_agg(v)?;
            if depth > 0 && wrapper(name) && f.len() == 1 {
                let inner = key(st, &f[0], i.vars[k as usize][0], depth - 1)?;
                return Some(format!("{}({})", k, inner));
            }
            Some(k.to_string())
        }
        TK::Tuple if depth > 0 && i.vars[0].len() > 0 => {
            let (_, f) = st.as_agg(v)?;
            let mut r = String::new();
            for (j, t) in i.vars[0].iter().enumerate() {
                r.push_str(&key(st, f.get(j)?, *t, depth - 1)?);
                r.push(',');
            }
            Some(r)
        }
        _ => Some("_".into()),
    }
}

/// A result described by its fixed parts and the bounds of its free parts.
#[derive(Clone, PartialEq, Debug)]
enum Tm {
    /// made of arguments only
    Keep(Val),
    Agg(u32, Vec<Tm>),
    Int(i128),
    Hole(Ty, Bound),
}

/// The argument symbols of a summary: `group` only by its location and delimiter.
struct Roots2 {
    args: Vec<SymId>,
    group: Option<SymId>,
}
pub fn tokenless(ty: Ty, depth: u32) -> bool {
    let i = info(ty);
    match &i.tk {
        TK::Span | TK::Int | TK::Bool | TK::Char => true,
        TK::Adt { name, .. } => {
            &**name != "proc_macro2::TokenTree" && depth > 0 && !i.vars.is_empty() && i.vars.iter().flatten().all(|t| tokenless(*t, depth - 1))
        }
        _ => false,
    }
}

fn template(st: &State, v: &Val, ty: Ty, r: &Roots2, depth: u32) -> Option<Tm> {
    let v = &st.deref(v).ok()?;
    let i = info(ty);
    let by_arg = r.args.iter().any(|a| subst::val_mentions(v, *a));
    let by_group = match r.group {
        Some(g) => *v == Val::Sym(g) || (tokenless(ty, 4) && subst::val_mentions(v, g)),
        None => false,
    };
    let outer = match &i.tk {
        TK::Int | TK::Bool | TK::Char => return Some(Tm::Int(st.as_int(v)?)),
        TK::Adt { name, is_enum } if *is_enum && &**name != "proc_macro2::TokenTree" => depth > 0 && (wrapper(name) || depth == 3),
        TK::Tuple => depth > 0,
        _ => false,
    };
    if outer || by_arg || by_group || (r.group.is_some() && deep_group(st, v, ty, r.group?, 6)) {
        if let (Some((k, f)), TK::Adt { .. } | TK::Tuple) = (st.as_agg(v), &i.tk) {
            let is_tt = matches!(&i.tk, TK::Adt { name, .. } if &**name == "proc_macro2::TokenTree");
            if !is_tt {
                let mut fs = vec![];
                for (j, x) in f.iter().enumerate() {
                    fs.push(template(st, x, *i.vars.get(k as usize)?.get(j)?, r, depth.saturating_sub(1))?);
                }
                return Some(Tm::Agg(k, fs));
            }
        }
        if by_arg || by_group {
            return Some(Tm::Keep(v.clone()));
        }
    }
    Some(Tm::Hole(ty, st.bound_of(v, DEPTH)))
}
/// Does a part of the value tell the location of the group?
fn deep_group(st: &State, v: &Val, ty: Ty, g: SymId, depth: u32) -> bool {
    if depth == 0 {
        return false;
    }
    let i = info(ty);
    if *v == Val::Sym(g) || (tokenless(ty, 4) && subst::val_mentions(v, g)) {
        return true;
    }
    match (v, &i.tk) {
        (Val::Agg(k, f), TK::Adt { .. } | TK::Tuple) => {
            f.iter().enumerate().any(|(j, x)| i.vars.get(*k as usize).and_then(|t| t.get(j)).map_or(false, |t| deep_group(st, x, *t, g, depth - 1)))
        }
        _ => false,
    }
}
fn has_keep(t: &Tm) -> bool {
    match t {
        Tm::Keep(_) => true,
        Tm::Agg(_, f) => f.iter().any(has_keep),
        _ => false,
    }
}
fn tm_bound(t: &Tm) -> Bound {
    match t {
        Tm::Keep(_) => Bound::Lost,
        Tm::Agg(k, f) => Bound::Vars([(*k, f.iter().map(tm_bound).collect())].into_iter().collect()),
        Tm::Int(i) => Bound::int(*i),
        Tm::Hole(_, b) => b.clone(),
    }
}
fn tm_join(a: &Tm, b: &Tm, ty: Ty, wide: bool) -> Option<Tm> {
    if a == b {
        return Some(a.clone());
    }
    match (a, b) {
        (Tm::Agg(k, f), Tm::Agg(l, g)) if k == l && f.len() == g.len() => {
            let i = info(ty);
            let mut r = vec![];
            for j in 0..f.len() {
                r.push(tm_join(&f[j], &g[j], *i.vars.get(*k as usize)?.get(j)?, wide)?);
            }
            Some(Tm::Agg(*k, r))
        }
        _ => {
            if has_keep(a) || has_keep(b) {
                return None;
            }
            let (x, y) = (tm_bound(a), tm_bound(b));
            Some(Tm::Hole(ty, if wide { widen(&x, &y, Some(ty)) } else { x.join(&y) }))
        }
    }
}
/// Can a value of the type contain another one?
fn recursive(ty: Ty) -> bool {
    fn reach(ty: Ty, to: Ty, seen: &mut HashSet<Ty>) -> bool {
        let i = info(ty);
        let mut next: Vec<Ty> = i.vars.iter().flatten().cloned().collect();
        match &i.tk {
            TK::Vec(t) | TK::Array(t, _) | TK::Box(t) => next.push(*t),
            TK::Adt { .. } | TK::Tuple => {}
            _ => return false,
        }
        next.into_iter().any(|t| t == to || (seen.insert(t) && reach(t, to, seen)))
    }
    thread_local! { static R: std::cell::RefCell<HashMap<Ty, bool>> = Default::default(); }
    if let Some(r) = R.with(|x| x.borrow().get(&ty).cloned()) {
        return r;
    }
    let r = reach(ty, ty, &mut HashSet::new());
    R.with(|x| x.borrow_mut().insert(ty, r));
    r
}
/// Like join, but nesting without end becomes unknown.
fn widen(a: &Bound, b: &Bound, ty: Option<Ty>) -> Bound {
    match (a, b) {
        (Bound::Vars(x), Bound::Vars(y)) => {
            let i = ty.map(info);
            let mut r = x.clone();
            for (k, g) in y {
                match r.get_mut(k) {
                    None => {
                        r.insert(*k, g.clone());
                    }
                    Some(f) => {
                        for j in 0..f.len().min(g.len()) {
                            let t = i.as_ref().and_then(|i| i.vars.get(*k as usize)).and_then(|v| v.get(j)).cloned();
                            f[j] = widen(&f[j], &g[j], t);
                        }
                    }
                }
            }
            Bound::Vars(r)
        }
        (Bound::Arr(x), Bound::Arr(y)) if x.len() == y.len() => {
            Bound::Arr(x.iter().zip(y).map(|(x, y)| widen(x, y, None)).collect())
        }
        (Bound::Arr(_), Bound::Seq(_) | Bound::Arr(_)) | (Bound::Seq(_), Bound::Arr(_)) => widen(&a.as_seq(), &b.as_seq(), ty),
        (Bound::Seq(x), Bound::Seq(y)) => {
            let t = match ty.map(|t| info(t).tk.clone()) {
                Some(TK::Vec(t)) => Some(t),
                _ => None,
            };
            Bound::Seq(Box::new(widen_seq(x, y, t)))
        }
        (Bound::Group(p, x), Bound::Group(q, y)) => Bound::Group(Box::new(p.join(q)), Box::new(widen_seq(x, y, None))),
        _ => a.join(b),
    }
}
fn widen_seq(x: &SeqBound, y: &SeqBound, ty: Option<Ty>) -> SeqBound {
    if x.cons_ok != y.cons_ok && ty.map_or(true, recursive) {
        return SeqBound { empty_ok: x.empty_ok || y.empty_ok, ..SeqBound::lost() };
    }
    let mut r = x.join(y);
    if x.cons_ok && y.cons_ok {
        r.elem = widen(&x.elem, &y.elem, ty);
        r.head = widen(&x.head, &y.head, ty);
    }
    r
}
fn build(st: &mut State, t: &Tm) -> Val {
    match t {
        Tm::Keep(v) => v.clone(),
        Tm::Agg(k, f) => {
            let f = f.iter().map(|x| build(st, x)).collect();
            Val::agg(*k, f)
        }
        Tm::Int(i) => Val::Int(*i),
        Tm::Hole(ty, b) => {
            let s = fresh_sym(Some(*ty), "r");
            st.bound.insert(s, b.clone());
            val_of_sym(s)
        }
    }
}

/// Do the facts assumed since `base` concern only the list or things created since?
fn local(st: &State, base: usize, s: SubId, syms: u32, subs: u32) -> bool {
    fn sym_ok(x: SymId, s: SubId, syms: u32, subs: u32) -> bool {
        if x >= syms {
            return true;
        }
        match sym_kind(x) {
            SymKind::Child(p, ..) | SymKind::Attr(p, _) => sym_ok(p, s, syms, subs),
            SymKind::Head(u) | SymKind::Last(u) => sub_ok(u, s, syms, subs),
            _ => false,
        }
    }
    fn sub_ok(u: SubId, s: SubId, syms: u32, subs: u32) -> bool {
        if u == s || u >= subs {
            return true;
        }
        match sub_kind(u) {
            SubKind::OfSym(p) | SubKind::Content(p) => sym_ok(p, s, syms, subs),
            SubKind::Tail(p) | SubKind::Init(p) => sub_ok(p, s, syms, subs),
            _ => false,
        }
    }
    fn ok(a: &Assume, s: SubId, syms: u32, subs: u32) -> bool {
        match a {
            Assume::Variant(x, _)
            | Assume::IntEq(x, _)
            | Assume::IntNotIn(x, _)
            | Assume::IntLe(x, _)
            | Assume::IntGe(x, _)
            | Assume::TextEq(x, _)
            | Assume::TextNe(x, _) => sym_ok(*x, s, syms, subs),
            Assume::Empty(u) | Assume::Cons(u) | Assume::Snoc(u) | Assume::Exp(u, _) | Assume::SBound(u, _) => {
                sub_ok(*u, s, syms, subs)
            }
            Assume::All(v) => v.iter().all(|a| ok(a, s, syms, subs)),
            Assume::Choice(_) => true,
        }
    }
    st.trail_since(base).iter().all(|a| ok(a, s, syms, subs))
}

/// Where a function gets its tokens from.
#[derive(Clone, Debug)]
enum Src {
    Cursor(Ptr),
    Group(SymId),
    Stream,
}
pub struct Entry {
    src: Src,
    pub sub: SubId,
    syms: u32,
    subs: u32,
    roots: Roots2,
    /// the printed arguments
    printed: Vec<Node>,
}
fn counts() -> (u32, u32) {
    TB.with(|t| {
        let t = t.borrow();
        (t.syms.len() as u32, t.subs.len() as u32)
    })
}
/// Entry of an inlined call.
pub fn entry(ix: &Ix, st: &State, args: &[Val]) -> Option<Entry> {
    if !ix.parse_mode || ix.no_merge > 0 {
        return None;
    }
    let (ptr, sub) = cursor_arg(st, args)?;
    let (syms, subs) = counts();
    Some(Entry { src: Src::Cursor(ptr), sub, syms, subs, roots: Roots2 { args: vec![], group: None }, printed: vec![] })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rel {
    /// printed = arguments ++ tokens read
    WithArgs,
    /// printed = tokens read
    Without,
    /// the arguments, then the group itself
    Whole,
    /// an error: nothing is said about the tokens
    Junk,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Case {
    rel: Rel,
    tm: Tm,
    t: SeqBound,
    read: bool,
    lost: bool,
}

fn equal(ix: &mut Ix, st: &State, a: &[Node], b: &[Node]) -> bool {
    let was = std::mem::replace(&mut ix.strict, true);
    let r = cmp::explore(ix, st, 300, &mut |ix, s| cmp::eq_list(ix, s, a, b, 12)).all_eq();
    ix.strict = was;
    r
}

/// What the first token can be, of a list that starts with the printed form of something.
fn first_token(ix: &mut Ix, st: &State, n: &[Node], depth: u32) -> Option<Bound> {
    let n = st.flat(n);
    match n.first() {
        None => None,
        Some(Node::Elem(v)) => Some(st.bound_of(v, DEPTH)),
        Some(Node::Print(s)) if depth > 0 => {
            let ty = sym_ty(*s)?;
            let mut r: Option<Bound> = None;
            let inst = crate::models::to_tokens_inst(ix, ty)?;
            for (st, m) in crate::ploop::print_unfolded(ix, st, &val_of_sym(*s), inst).ok()? {
                let mut m = m;
                if m == [Node::Print(*s)] {
                    return None;
                }
                m.extend(n[1..].iter().cloned());
                // at the end of the list: no first token
                if st.flat(&m).is_empty() {
                    continue;
                }
                let b = first_token(ix, &st, &m, depth - 1)?;
                r = Some(match r {
                    None => b,
                    Some(x) => x.join(&b),
                });
            }
            r
        }
        Some(Node::Sub(s)) => {
            let b = st.get_sbound(*s);
            if b.empty_ok && n.len() > 1 {
                return None;
            }
            Some(if b.head.is_top() { b.elem } else { b.head })
        }
        _ => None,
    }
}
/// Is the outcome's result printed as the tokens it read, and nothing else changed?
fn describe(ix: &mut Ix, pre: &State, st: &State, v: &Val, ty: Ty, e: &Entry) -> Option<(String, Case)> {
    let cc = match &e.src {
        Src::Cursor(Ptr::Place(c, _)) => Some(*c),
        Src::Cursor(_) => return None,
        _ => None,
    };
    let is_err = matches!(&info(ty).tk, TK::Adt { name, .. } if name.ends_with("result::Result"))
        && matches!(st.as_agg(v), Some((1, _)));
    let joined = is_err && st.taint.as_deref() == Some(JOINED);
    if (st.taint.is_some() != pre.taint.is_some() && !joined) || st.may_panic != pre.may_panic {
        return None;
    }
    for (c, x) in pre.cells.iter() {
        if Some(*c) != cc {
            if let Some(y) = st.cells.get(c) {
                if x != y {
                    return None;
                }
            }
        }
    }
    if !local(st, pre.trail_len(), e.sub, e.syms, e.subs) {
        return None;
    }
    let (read, t) = match &e.src {
        Src::Cursor(p) => {
            let Ok(Val::Iter(it)) = st.read_ptr(p) else { return None };
            let mut t = st.seq_bound(&it.nodes, DEPTH);
            t.top = Bound::Top;
            t.depth0 = None;
            if let Some(Node::Print(_)) = st.flat(&it.nodes).first() {
                t.head = first_token(ix, st, &it.nodes, 3).unwrap_or(Bound::Lost);
            }
            (consumed(st, e.sub, &it.nodes)?, t)
        }
        _ => (st.flat(&[Node::Sub(e.sub)]), SeqBound::empty()),
    };
    let k = key(st, v, ty, 2)?;
    let has_read = !read.is_empty();
    let mk = |rel: Rel, r: &Roots2| -> Option<(String, Case)> {
        Some((format!("{}{:?}", k, rel), Case { rel, tm: template(st, v, ty, r, 3)?, t: t.clone(), read: has_read, lost: st.lost && !pre.lost }))
    };
    if joined {
        return mk(Rel::Junk, &e.roots);
    }
    if let Ok(cases) = print_val(ix, st, v, ty) {
        let mut want = e.printed.clone();
        want.extend(read.iter().cloned());
        if cases.iter().all(|(s, n)| equal(ix, s, &want, n)) {
            return mk(Rel::WithArgs, &e.roots);
        }
        if !e.printed.is_empty() && cases.iter().all(|(s, n)| equal(ix, s, &read, n)) {
            return mk(Rel::Without, &e.roots);
        }
        if let Src::Group(g) = &e.src {
            let mut want = e.printed.clone();
            want.push(Node::Elem(Val::agg(0, vec![Val::Sym(*g)])));
            if cases.iter().all(|(s, n)| equal(ix, s, &want, n)) {
                return mk(Rel::Whole, &e.roots);
            }
        }
        if ix.trace {
            for (s, n) in cases.iter().take(2) {
                eprintln!("   read {}\n   printed {}", cmp::show_nodes(s, &want), cmp::show_nodes(s, n));
            }
        }
    }
    if is_err {
        return mk(Rel::Junk, &e.roots);
    }
    None
}
fn join(a: &mut Case, b: &Case, ty: Ty, wide: bool) -> Option<()> {
    a.tm = tm_join(&a.tm, &b.tm, ty, wide)?;
    a.t = if wide { widen_seq(&a.t, &b.t, tt_ty()) } else { a.t.join(&b.t) };
    a.read |= b.read;
    a.lost |= b.lost;
    Some(())
}
/// The states after a call with this outcome; `subst`: argument symbol -> its value.
fn instantiate(ix: &mut Ix, pre: &State, c: &Case, ty: Ty, e: &Entry, to: (&Src, SubId), args: &[(SymId, Val)]) -> Option<Vec<Out>> {
    let mut m = pre.clone();
    m.lost |= c.lost;
    let formal = build(&mut m, &c.tm);
    let mut actual = formal.clone();
    for (f, v) in args {
        actual = subst::val(&actual, *f, v)?;
    }
    let sub = to.1;
    if c.rel == Rel::Junk {
        if let Src::Cursor(p) = to.0 {
            let (d, u) = (fresh_sub(tt_ty()), fresh_sub(tt_ty()));
            m.seqexp.insert(sub, Rc::new(vec![Node::Sub(d), Node::Sub(u)]));
            m.write_ptr(p, Val::Iter(Rc::new(IterV { nodes: vec![Node::Sub(u)], by_ref: false }))).ok()?;
        }
        m.taint(JOINED);
        return Some(vec![Out { st: m, end: End::Ret(actual) }]);
    }
    if !c.read && c.rel != Rel::Whole {
        // nothing read: what is known about the following tokens
        match to.0 {
            Src::Cursor(_) => {
                m.sbound.insert(sub, c.t.clone());
            }
            _ => {
                m.seqexp.insert(sub, Rc::new(vec![]));
            }
        }
        return Some(vec![Out { st: m, end: End::Ret(actual) }]);
    }
    let mut outs = vec![];
    for (mut m, n) in print_val(ix, &m, &formal, ty).ok()? {
        let mut n = m.flat(&n);
        if c.rel != Rel::Without {
            (m, n) = strip(ix, m, n, &e.printed)?;
        }
        if c.rel == Rel::Whole {
            n = match &n[..] {
                [Node::Elem(Val::Agg(0, f))] => match &f[0] {
                    Val::Tok(t) => match &**t {
                        TokV::Group { inner, .. } => inner.clone(),
                        _ => return None,
                    },
                    // the group as it was
                    _ => vec![Node::Sub(sub)],
                },
                _ => return None,
            };
        }
        for (f, v) in args {
            n = subst::nodes(&n, *f, v)?;
        }
        if let Src::Cursor(p) = to.0 {
            let u = fresh_sub(tt_ty());
            rest_of(sub, u);
            m.sbound.insert(u, c.t.clone());
            n.push(Node::Sub(u));
            m.write_ptr(p, Val::Iter(Rc::new(IterV { nodes: vec![Node::Sub(u)], by_ref: false }))).ok()?;
        }
        if n != [Node::Sub(sub)] {
            m.seqexp.insert(sub, Rc::new(n));
        }
        outs.push(Out { st: m, end: End::Ret(actual.clone()) });
    }
    Some(outs)
}

/// What is printed after the arguments.
fn strip(ix: &mut Ix, m: State, n: Vec<Node>, pr: &[Node]) -> Option<(State, Vec<Node>)> {
    let mut m = m;
    for _ in 0..40 {
        let (p, n) = (m.flat(pr), m.flat(&n));
        let k = p.iter().zip(&n).take_while(|(a, b)| a == b).count();
        if k == p.len() {
            return Some((m, n[k..].to_vec()));
        }
        let s = match (&p[k], n.get(k)) {
            (Node::Print(s), _) => *s,
            (_, Some(Node::Print(s))) => *s,
            _ => {
                if ix.trace {
                    eprintln!("   prints {} not after {}", cmp::show_nodes(&m, &n), cmp::show_nodes(&m, &p));
                }
                return None;
            }
        };
        ix.no_merge += 1;
        let r = ix.resolve_stop(Stop::NeedPrint(s), m, None, "print");
        ix.no_merge -= 1;
        let mut r = r.ok()?;
        if r.len() != 1 {
            return None;
        }
        m = r.pop()?;
    }
    None
}

pub fn at_return(ix: &mut Ix, pre: &State, outs: Vec<Out>, b: &Rc<BodyInfo>, e: &Entry) -> Vec<Out> {
    let rets = outs.iter().filter(|o| matches!(o.end, End::Ret(_))).count();
    if rets < 2 {
        return outs;
    }
    let ty = b.body.ret_local().ty;
    let mut rest = vec![];
    let mut groups: Vec<(String, Case, Vec<Out>)> = vec![];
    for o in outs {
        let d = match &o.end {
            End::Ret(v) => describe(ix, pre, &o.st, v, ty, e),
            _ => None,
        };
        match d {
            Some((k, c)) if c.rel != Rel::Junk => match groups.iter_mut().find(|g| g.0 == k) {
                Some(g) => {
                    if join(&mut g.1, &c, ty, false).is_some() {
                        g.2.push(o)
                    } else {
                        rest.push(o)
                    }
                }
                None => groups.push((k, c, vec![o])),
            },
            _ => rest.push(o),
        }
    }
    for (_, c, g) in groups {
        if g.len() == 1 {
            rest.extend(g);
            continue;
        }
        match instantiate(ix, pre, &c, ty, e, (&e.src, e.sub), &[]) {
            Some(o) if o.len() < g.len() => {
                ix.stats.merges += 1;
                rest.extend(o);
            }
            _ => rest.extend(g),
        }
    }
    rest
}

/// Values that mean the same in every state.
fn closed(v: &Val) -> bool {
    match v {
        Val::Int(_) | Val::FnPtr(_) => true,
        Val::Str(s) => matches!(&**s, StrV::Const(_)),
        Val::Agg(_, f) => f.iter().all(closed),
        Val::Ref(Ptr::Imm(x)) => closed(x),
        _ => false,
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Arg {
    Cursor,
    Const(Val),
    /// any value of this shape within the bound; behind a reference?
    Any(String, Bound, bool),
    Group(Bound, bool),
    Stream(bool),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    inst: Instance,
    args: Vec<Arg>,
    sb: SeqBound,
    top: bool,
}
pub struct Sum {
    cases: Option<Rc<Vec<(String, Case)>>>,
    entry: Rc<Entry>,
    done: bool,
    running: Option<usize>,
    fresh: bool,
    low: usize,
    runs: usize,
}
#[derive(Default)]
pub struct Sums {
    map: std::collections::HashMap<Key, Sum>,
    prov: Vec<Key>,
    low: usize,
    pub depth: usize,
    changes: u64,
    pub n: u64,
}

/// A value of the same outer shape, made of new symbols; and which symbol stands for what.
fn abstract_arg(st: &State, m: &mut State, v: &Val, ty: Ty, depth: u32, out: &mut Vec<(SymId, Val)>) -> Option<Val> {
    let v = &st.deref(v).ok()?;
    if closed(v) {
        return Some(v.clone());
    }
    let i = info(ty);
    match &i.tk {
        TK::Adt { name, is_enum } if *is_enum && &**name != "proc_macro2::TokenTree" => {
            let (k, f) = st.as_agg(v)?;
            if depth > 0 && wrapper(name) {
                let mut fs = vec![];
                for (j, x) in f.iter().enumerate() {
                    fs.push(abstract_arg(st, m, x, i.vars[k as usize][j], depth - 1, out)?);
                }
                return Some(Val::agg(k, fs));
            }
        }
        TK::Tuple if depth > 0 => {
            let (_, f) = st.as_agg(v)?;
            let mut fs = vec![];
            for (j, x) in f.iter().enumerate() {
                fs.push(abstract_arg(st, m, x, *i.vars[0].get(j)?, depth - 1, out)?);
            }
            return Some(Val::agg(0, fs));
        }
        TK::Ident | TK::Punct | TK::Literal | TK::Group | TK::Vec(_) | TK::Adt { .. } => {}
        _ => return None,
    }
    if has_iter(v) {
        return None;
    }
    let s = fresh_sym(Some(ty), "arg");
    m.bound.insert(s, st.bound_of(v, DEPTH));
    out.push((s, v.clone()));
    Some(val_of_sym(s))
}
fn has_iter(v: &Val) -> bool {
    match v {
        Val::Iter(_) | Val::Ref(_) | Val::FnPtr(_) | Val::Opaque(_) | Val::Uninit => true,
        Val::Agg(_, f) => f.iter().any(has_iter),
        _ => false,
    }
}

struct Call {
    key: Key,
    src: Src,
    sub: SubId,
    /// actual values of the formal arguments, in the order they are abstracted
    actual: Vec<Val>,
    group: Option<SymId>,
}
fn call_key(st: &State, inst: Instance, args: &[Val], tys: &[Ty]) -> Option<Call> {
    if args.len() != tys.len() {
        return None;
    }
    let cur = cursor_arg(st, args);
    let mut src = cur.as_ref().map(|(p, s)| (Src::Cursor(p.clone()), *s));
    let mut ks = vec![];
    let mut actual = vec![];
    let mut group = None;
    let mut tmp = State::default();
    for (a, ty) in args.iter().zip(tys) {
        if let (Val::Ref(_), Some((p, _))) = (a, &cur) {
            if st.innermost(a).ok().as_ref() == Some(p) {
                ks.push(Arg::Cursor);
                continue;
            }
        }
        if closed(a) {
            ks.push(Arg::Const(a.clone()));
            continue;
        }
        let (t, byref) = match &info(*ty).tk {
            TK::Ref(t, false) => (*t, true),
            TK::Ref(_, true) => return None,
            _ => (*ty, false),
        };
        let v = st.deref(a).ok()?;
        if cur.is_none() {
            match (&info(t).tk, &v) {
                (TK::Group, Val::Sym(g)) => {
                    if src.is_some() {
                        return None;
                    }
                    let [Node::Sub(s)] = st.flat(&st.group_inner(&v))[..] else { return None };
                    src = Some((Src::Group(*g), s));
                    group = Some(*g);
                    let d = st.bound_of(&st.group_delim(&v), DEPTH);
                    ks.push(Arg::Group(d, byref));
                    continue;
                }
                (TK::TokenStream, Val::List(n)) => {
                    if src.is_some() {
                        return None;
                    }
                    let [Node::Sub(s)] = st.flat(n)[..] else { return None };
                    src = Some((Src::Stream, s));
                    ks.push(Arg::Stream(byref));
                    continue;
                }
                _ => {}
            }
        }
        let mut out = vec![];
        let f = abstract_arg(st, &mut tmp, &v, t, 2, &mut out)?;
        let b = tmp.bound_of(&f, DEPTH);
        ks.push(Arg::Any(key(&tmp, &f, t, 2)?, b, byref));
        actual.extend(out.into_iter().map(|x| x.1));
    }
    let (src, sub) = src?;
    let top = match &src {
        Src::Cursor(_) => top_level(head(sub)),
        _ => false,
    };
    let sb = st.get_sbound(sub);
    Some(Call { key: Key { inst, args: ks, sb, top }, src, sub, actual, group })
}

/// The outcomes of the function for any arguments of this kind, if all of them can be described.
pub fn summary(ix: &mut Ix, st: &State, inst: Instance, args: &[Val], stack: &Option<Rc<Stack>>) -> Option<Vec<Out>> {
    if !ix.drop_panics {
        return None;
    }
    let b = ix.body(inst)?;
    let tys: Vec<Ty> = b.body.arg_locals().iter().map(|l| l.ty).collect();
    let ty = b.body.ret_local().ty;
    if tokenless(ty, 4) {
        return None;
    }
    let c = call_key(st, inst, args, &tys)?;
    let ready = match ix.sums.map.get(&c.key) {
        Some(s) if s.done => true,
        Some(s) if s.running.is_some() => {
            ix.sums.low = ix.sums.low.min(s.running.unwrap());
            true
        }
        Some(s) if s.fresh => {
            ix.sums.low = ix.sums.low.min(s.low);
            true
        }
        _ => false,
    };
    if !ready {
        solve(ix, &c, st, args, &tys, stack);
    }
    let s = ix.sums.map.get(&c.key)?;
    if ix.trace {
        eprintln!("use of {}: done {} running {:?} fresh {} cases {:?}", inst.name(), s.done, s.running, s.fresh, s.cases.as_ref().map(|x| x.len()));
    }
    let cs = s.cases.clone()?;
    let e = s.entry.clone();
    let mut map: Vec<(SymId, Val)> = e.roots.args.iter().cloned().zip(c.actual.iter().cloned()).collect();
    if let (Some(f), Some(a)) = (e.roots.group, c.group) {
        map.push((f, Val::Sym(a)));
    }
    let mut outs = vec![];
    for (_, k) in cs.iter() {
        outs.extend(instantiate(ix, st, k, ty, &e, (&c.src, c.sub), &map)?);
    }
    Some(outs)
}
fn solve(ix: &mut Ix, c: &Call, st: &State, args: &[Val], tys: &[Ty], stack: &Option<Rc<Stack>>) {
    let depth = ix.sums.depth;
    ix.sums.depth += 1;
    let mark = ix.sums.prov.len();
    let outer_low = ix.sums.low;
    let mut runs = 0;
    // what the function gets
    let mut pre = State::default();
    let mut vs = vec![];
    let mut formals = vec![];
    let mut group = None;
    let mut cell = None;
    let mut src = Src::Stream;
    let s = match &c.src {
        Src::Group(_) => {
            let g = fresh_sym(Some(tys[c.key.args.iter().position(|a| matches!(a, Arg::Group(..))).unwrap()]), "group");
            group = Some(g);
            src = Src::Group(g);
            mk_sub(SubKind::Content(g), tt_ty())
        }
        _ => fresh_sub(tt_ty()),
    };
    if c.key.top {
        rest_of(c.sub, s);
    }
    pre.sbound.insert(s, c.key.sb.clone());
    let mut printed: Option<Vec<Node>> = Some(vec![]);
    for ((a, k), ty) in args.iter().zip(&c.key.args).zip(tys) {
        let wrap = |v: Val, r: bool| if r { Val::imm(v) } else { v };
        let v = match k {
            Arg::Cursor => {
                let x = pre.new_cell(Val::Iter(Rc::new(IterV { nodes: vec![Node::Sub(s)], by_ref: false })));
                cell = Some(x);
                src = Src::Cursor(Ptr::Place(x, Rc::new(vec![])));
                Val::place(x)
            }
            Arg::Const(v) => v.clone(),
            Arg::Group(d, r) => {
                let g = group.unwrap();
                pre.bound.insert(g, Bound::Group(Box::new(d.clone()), Box::new(c.key.sb.clone())));
                if let Bound::Set(x) = d {
                    if let (1, Val::Sym(ds)) = (x.len(), pre.group_delim(&Val::Sym(g))) {
                        let k = *x.iter().next().unwrap();
                        pre.assume(&Assume::IntEq(ds, k));
                    }
                }
                if let (Bound::Vars(x), Val::Sym(ds)) = (d, pre.group_delim(&Val::Sym(g))) {
                    if x.len() == 1 {
                        pre.assume(&Assume::Variant(ds, *x.keys().next().unwrap()));
                    }
                }
                wrap(Val::Sym(g), *r)
            }
            Arg::Stream(r) => wrap(Val::list(vec![Node::Sub(s)]), *r),
            Arg::Any(_, _, r) => {
                let t = match &info(*ty).tk {
                    TK::Ref(t, _) => *t,
                    _ => *ty,
                };
                let mut out = vec![];
                let v = st.deref(a).ok().and_then(|v| abstract_arg(st, &mut pre, &v, t, 2, &mut out)).unwrap();
                formals.extend(out.into_iter().map(|x| x.0));
                if let Some(p) = &mut printed {
                    match print_val(ix, &pre, &v, t) {
                        Ok(x) if x.len() == 1 => p.extend(x.into_iter().next().unwrap().1),
                        _ => printed = None,
                    }
                }
                wrap(v, *r)
            }
        };
        vs.push(v);
    }
    let (syms, subs) = counts();
    let ok = printed.is_some();
    let e = Rc::new(Entry { src, sub: s, syms, subs, roots: Roots2 { args: formals, group }, printed: printed.unwrap_or_default() });
    let old = ix.sums.map.remove(&c.key);
    let (cases, nruns) = match old {
        // provisional result of an earlier round: the symbols differ, start again from it only if it has no arguments
        Some(o) if e.roots.args.is_empty() && e.roots.group.is_none() => (o.cases, o.runs),
        Some(o) => (rename(&o.cases, &o.entry, &e), o.runs),
        None => (Some(Rc::new(vec![])), 0),
    };
    let cases = if ok { cases } else { None };
    ix.sums.map.insert(
        c.key.clone(),
        Sum { cases, entry: e.clone(), done: false, running: Some(depth), fresh: false, low: usize::MAX, runs: nruns },
    );
    let ty = ix.body(c.key.inst).unwrap().body.ret_local().ty;
    loop {
        runs += 1;
        ix.sums.low = usize::MAX;
        let before = ix.sums.changes;
        if ix.sums.map[&c.key].cases.is_some() {
            ix.sums.n += 1;
            let total = ix.sums.map[&c.key].runs;
            let roots = Some(Rc::new(Roots { prev: None, cells: cell.into_iter().collect() }));
            let cur = if cell.is_some() { Some(s) } else { None };
            let outs = ix.call_body(pre.clone(), c.key.inst, vs.clone(), roots, stack.clone(), cur);
            let old = ix.sums.map[&c.key].cases.clone();
            let new = (|| -> Option<Vec<(String, Case)>> {
                let mut g: Vec<(String, Case)> = old.as_ref()?.to_vec();
                for o in outs {
                    let End::Ret(v) = &o.end else {
                        if ix.trace {
                            if let End::Undecided(u) = &o.end {
                                eprintln!("summary of {}: {}", c.key.inst.name(), u);
                            }
                        }
                        return None;
                    };
                    let d = describe(ix, &pre, &o.st, v, ty, &e);
                    if ix.trace && d.is_none() {
                        eprintln!("summary of {}: not described: {}", c.key.inst.name(), cmp::show(&o.st, v));
                    }
                    let (k, d) = d?;
                    if std::env::var("VABS_LOST").is_ok() {
                        fn lost(t: &Tm) -> bool {
                            fn b(x: &Bound) -> bool {
                                match x {
                                    Bound::Lost => true,
                                    Bound::Vars(v) => v.values().flatten().any(b),
                                    Bound::Seq(s) => s.cons_ok && b(&s.elem),
                                    _ => false,
                                }
                            }
                            match t { Tm::Agg(_, f) => f.iter().any(lost), Tm::Hole(_, x) => b(x), _ => false }
                        }
                        if lost(&d.tm) {
                            eprintln!("LOSTRES {} {:?}", c.key.inst.name(), d.tm);
                        }
                    }
                    match g.iter_mut().find(|x| x.0 == k) {
                        Some(x) => join(&mut x.1, &d, ty, total > 2)?,
                        None => g.push((k, d)),
                    }
                }
                for (_, k) in &g {
                    let r = instantiate(ix, &pre, k, ty, &e, (&e.src, e.sub), &[]);
                    if ix.trace && r.is_none() {
                        eprintln!("summary of {}: not reproduced: {:?}", c.key.inst.name(), k.rel);
                    }
                    r?;
                }
                Some(g)
            })();
            if new.as_ref() != old.as_deref() {
                ix.sums.changes += 1;
            }
            let x = ix.sums.map.get_mut(&c.key).unwrap();
            x.cases = new.map(Rc::new);
            x.runs += 1;
        }
        let low = ix.sums.low;
        let changed = ix.sums.changes != before;
        if ix.trace {
            let x = &ix.sums.map[&c.key];
            eprintln!("summary of {}: run {} low {} {:?} cases", c.key.inst.name(), runs, low as i64, x.cases.as_ref().map(|r| r.len()));
        }
        if low < depth {
            let x = ix.sums.map.get_mut(&c.key).unwrap();
            x.running = None;
            x.fresh = true;
            x.low = low;
            ix.sums.prov.push(c.key.clone());
            ix.sums.low = outer_low.min(low);
            break;
        }
        if low == depth && changed && runs < 12 && !ix.over() {
            for k in ix.sums.prov[mark..].to_vec() {
                ix.sums.map.get_mut(&k).unwrap().fresh = false;
            }
            ix.sums.prov.truncate(mark);
            continue;
        }
        let conv = low != depth || !changed;
        for k in ix.sums.prov[mark..].to_vec() {
            let x = ix.sums.map.get_mut(&k).unwrap();
            x.done = true;
            if !conv {
                x.cases = None;
            }
        }
        ix.sums.prov.truncate(mark);
        let x = ix.sums.map.get_mut(&c.key).unwrap();
        x.running = None;
        x.done = true;
        if !conv {
            x.cases = None;
        }
        ix.sums.low = outer_low;
        break;
    }
    ix.sums.depth -= 1;
}
fn rename(cs: &Option<Rc<Vec<(String, Case)>>>, from: &Entry, to: &Entry) -> Option<Rc<Vec<(String, Case)>>> {
    fn tm(t: &Tm, m: &[(SymId, SymId)]) -> Option<Tm> {
        Some(match t {
            Tm::Keep(v) => {
                let mut v = v.clone();
                for (a, b) in m {
                    v = subst::val(&v, *a, &val_of_sym(*b))?;
                }
                Tm::Keep(v)
            }
            Tm::Agg(k, f) => Tm::Agg(*k, f.iter().map(|x| tm(x, m)).collect::<Option<Vec<_>>>()?),
            x => x.clone(),
        })
    }
    let mut m: Vec<(SymId, SymId)> = from.roots.args.iter().cloned().zip(to.roots.args.iter().cloned()).collect();
    if let (Some(a), Some(b)) = (from.roots.group, to.roots.group) {
        m.push((a, b));
    }
    let cs = cs.as_ref()?;
    let mut r = vec![];
    for (k, c) in cs.iter() {
        r.push((k.clone(), Case { tm: tm(&c.tm, &m)?, ..c.clone() }));
    }
    Some(Rc::new(r))
}

/// Recursion of functions that are not summarised.
pub fn too_deep(stack: &Option<Rc<Stack>>, inst: Instance) -> usize {
    let mut n = 0;
    let mut p = stack.clone();
    while let Some(x) = p {
        if x.inst == inst {
            n += 1;
        }
        p = x.prev.clone();
    }
    n
}
/// The plain values among arguments.
pub fn flags(st: &State, args: &[Val]) -> Vec<Option<i128>> {
    args.iter()
        .map(|a| match a {
            Val::Agg(k, f) if f.is_empty() => Some(*k as i128),
            Val::Sym(_) | Val::Int(_) => st.as_int(a).or_else(|| st.as_agg(a).map(|x| x.0 as i128)),
            Val::Agg(k, _) => Some(*k as i128),
            _ => None,
        })
        .collect()
}
/// Does the function call itself without having read a token?
pub fn stuck(st: &State, inst: Instance, args: &[Val], stack: &Option<Rc<Stack>>) -> (bool, bool) {
    let Some((_, s)) = cursor_arg(st, args) else { return (false, false) };
    let Some(top) = stack else { return (false, false) };
    let start = match top.cursor {
        Some(c) => st.flat(&[Node::Sub(c)]) == [Node::Sub(s)],
        None => false,
    };
    let mut same = start;
    let mut p = Some(top.clone());
    while let (true, Some(x)) = (same, p) {
        if x.inst == inst && x.flags.iter().zip(flags(st, args)).all(|(a, b)| a.is_none() || b.is_none() || *a == b) {
            return (true, start);
        }
        same = x.at_start;
        p = x.prev.clone();
    }
    (false, start)
}

/// A cursor whose first token was only looked at: forget that token, but for its bound.
pub fn retract(ix: &mut Ix, st: &mut State, args: &[Val], roots: &Option<Rc<Roots>>, all: bool) {
    for a in args {
        let Val::Ref(_) = a else { continue };
        let Ok(p @ Ptr::Place(..)) = st.innermost(a) else { continue };
        let Ok(Val::Iter(it)) = st.read_ptr(&p) else { continue };
        if it.by_ref {
            return;
        }
        let [Node::Sub(s)] = it.nodes[..] else { return };
        if sub_ty(s) != tt_ty() || st.flat(&[Node::Sub(s)]) == [Node::Sub(s)] {
            return;
        }
        // the innermost list that was taken apart
        let mut s = s;
        while let Some(n) = st.seqexp.get(&s) {
            match n[..] {
                [Node::Sub(x)] => s = x,
                _ => break,
            }
        }
        let Some(n) = st.seqexp.get(&s).cloned() else { return };
        match n[..] {
            [Node::Elem(Val::Sym(h)), Node::Sub(t)] if h == head(s) && t == tail(s) && (all || !st.seqexp.contains_key(&t)) => {
                // all tokens that were looked at
                let mut parts = vec![(h, t)];
                let mut u = t;
                while let Some(n) = st.seqexp.get(&u) {
                    match n[..] {
                        [Node::Elem(Val::Sym(x)), Node::Sub(y)] => {
                            parts.push((x, y));
                            u = y;
                        }
                        [Node::Sub(y)] => {
                            parts.push((h, y));
                            u = y;
                        }
                        [] => break,
                        _ => return,
                    }
                }
                let mut live = st.clone();
                let mut w = vec![];
                for a in args {
                    val_cells(a, &mut w);
                }
                ix.gc(&mut live, &w, roots, None);
                for (h, t) in parts {
                    for (_, v) in live.cells.iter() {
                        if mentions(v, h, t) {
                            return;
                        }
                    }
                    if args.iter().any(|v| mentions(v, h, t)) {
                        return;
                    }
                }
                let b = st.seq_bound(&[Node::Sub(s)], DEPTH);
                let f = fresh_sub(tt_ty());
                rest_of(s, f);
                st.sbound.insert(f, b);
                st.seqexp.insert(s, Rc::new(vec![Node::Sub(f)]));
            }
            _ => {}
        }
        return;
    }
}
fn sym_in(x: SymId, h: SymId, t: SubId) -> bool {
    x == h
        || match sym_kind(x) {
            SymKind::Child(p, ..) | SymKind::Attr(p, _) => sym_in(p, h, t),
            SymKind::Head(u) | SymKind::Last(u) => sub_in(u, h, t),
            SymKind::Op(_, vs, _) => vs.iter().any(|v| mentions(v, h, t)),
            _ => false,
        }
}
fn sub_in(u: SubId, h: SymId, t: SubId) -> bool {
    u == t
        || match sub_kind(u) {
            SubKind::OfSym(p) | SubKind::Content(p) => sym_in(p, h, t),
            SubKind::Tail(p) | SubKind::Init(p) => sub_in(p, h, t),
            SubKind::Mapped(_, p) => sub_in(p, h, t),
            SubKind::Fresh(_) => false,
        }
}
fn node_in(n: &Node, h: SymId, t: SubId) -> bool {
    match n {
        Node::Elem(v) => mentions(v, h, t),
        Node::Sub(u) | Node::PrintEach(u) => sub_in(*u, h, t),
        Node::Print(s) => sym_in(*s, h, t),
        Node::Map(_, u) => sub_in(*u, h, t),
        Node::Pend(_) | Node::Opq(_) => false,
    }
}
fn str_in(s: &StrV, h: SymId, t: SubId) -> bool {
    match s {
        StrV::OfSym(x) => sym_in(*x, h, t),
        StrV::OfInt(v) | StrV::Display(v) => mentions(v, h, t),
        StrV::Concat(v) => v.iter().any(|s| str_in(s, h, t)),
        StrV::Const(_) | StrV::Fresh(_) => false,
    }
}
fn span_in(s: &SpanV, h: SymId, t: SubId) -> bool {
    match s {
        SpanV::Of(x) | SpanV::Sym(x) => sym_in(*x, h, t),
        SpanV::Join(a, b) => span_in(a, h, t) || span_in(b, h, t),
        SpanV::Over(n) => n.iter().any(|n| node_in(n, h, t)),
        SpanV::Other(s, _) => span_in(s, h, t),
        SpanV::CallSite | SpanV::MixedSite => false,
    }
}
fn mentions(v: &Val, h: SymId, t: SubId) -> bool {
    match v {
        Val::Uninit | Val::Int(_) | Val::FnPtr(_) | Val::Opaque(_) => false,
        Val::Agg(_, f) => f.iter().any(|v| mentions(v, h, t)),
        Val::Lin(l) => l.syms.keys().any(|s| sym_in(*s, h, t)) || l.lens.keys().any(|u| sub_in(*u, h, t)),
        Val::Sym(s) => sym_in(*s, h, t),
        Val::Str(s) => str_in(s, h, t),
        Val::Ref(Ptr::Imm(x)) => mentions(x, h, t),
        Val::Ref(Ptr::Place(..)) => false,
        Val::List(n) => n.iter().any(|n| node_in(n, h, t)),
        Val::Iter(i) => i.nodes.iter().any(|n| node_in(n, h, t)),
        Val::Span(s) => span_in(s, h, t),
        Val::Tok(k) => match &**k {
            TokV::Ident { text, span } | TokV::Lit { text, span } => str_in(text, h, t) || span_in(span, h, t),
            TokV::Punct { ch, sp, span } => mentions(ch, h, t) || mentions(sp, h, t) || span_in(span, h, t),
            TokV::Group { delim, inner, span } => {
                mentions(delim, h, t) || inner.iter().any(|n| node_in(n, h, t)) || span_in(span, h, t)
            }
            TokV::Respan { base, span } => sym_in(*base, h, t) || span_in(span, h, t),
        },
    }
}

