//! Invariants of parsing loops.
//!
//! A parsing loop advances a token cursor and collects what it read. Its head states are described
//! by classes: the tokens read since loop entry are the printed form of the collected elements
//! (form `full`), or that of all elements with the separator of the last one missing (form `part`);
//! flags have one value per class, counters a range. The classes and the bounds of the collected
//! elements are computed as a fixpoint; an iteration that leaves the described states is not folded
//! but followed explicitly for one more round.
use crate::cmp;
use crate::exec::*;
use crate::loops::*;
use crate::state::*;
use crate::types::*;
use crate::val::*;
use rustc_public::ty::Ty;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use rustc_public::mir::mono::Instance;
use std::rc::Rc;

const DEPTH: u32 = 14;
const WIDE: i128 = i64::MAX as i128;

#[derive(Clone, PartialEq)]
struct Class {
    part: bool,
    consts: Vec<Val>,
    y: SeqBound,
    last: Option<Bound>,
    sep: Option<Val>,
    t: SeqBound,
    ints: Vec<(i128, i128)>,
    /// read but not yet collected: variant, and what is known of it
    pend: Option<(u32, Bound)>,
    exact: Option<Val>,
}

/// Type of the location of a path.
fn path_ty(st: &State, fr: &Frame, p: &Path) -> Option<Ty> {
    let walk = |mut ty: Ty, pr: &[Proj]| -> Option<Ty> {
        for e in pr {
            ty = match e {
                Proj::F(k, f) => *info(ty).vars.get(*k as usize)?.get(*f as usize)?,
                Proj::I(_) => match &info(ty).tk {
                    TK::Vec(t) | TK::Array(t, _) => *t,
                    _ => return None,
                },
            };
        }
        Some(ty)
    };
    for (i, c) in fr.cells.iter().enumerate() {
        if *c == p.0 {
            return walk(fr.b.body.locals()[i].ty, &p.1);
        }
    }
    for (i, c) in fr.cells.iter().enumerate() {
        if let Val::Ref(Ptr::Place(d, pr)) = st.cell(*c) {
            if d == p.0 && p.1.starts_with(&pr) {
                if let TK::Ref(t, _) = &info(fr.b.body.locals()[i].ty).tk {
                    return walk(*t, &p.1[pr.len()..]);
                }
            }
        }
    }
    None
}

/// The tokens a value prints; several cases if that depends on facts not yet known.
pub fn print_val(ix: &mut Ix, st: &State, v: &Val, ty: Ty) -> R<Vec<(State, Vec<Node>)>> {
    let one = |n: Vec<Node>| Ok(vec![(st.clone(), n)]);
    let v = &match v {
        Val::Ref(_) => st.deref(v)?,
        _ => v.clone(),
    };
    let i = info(ty);
    match &i.tk {
        TK::Ref(t, _) | TK::Box(t) => print_val(ix, st, v, *t),
        TK::Tuple => {
            let Some((_, f)) = st.as_agg(v) else { return bad("print of tuple") };
            let mut acc = vec![(st.clone(), vec![])];
            for (k, x) in f.iter().enumerate() {
                let mut next = vec![];
                for (s, n) in acc {
                    for (s2, mut m) in print_val(ix, &s, x, i.vars[0][k])? {
                        let mut n = n.clone();
                        n.append(&mut m);
                        next.push((s2, n));
                    }
                }
                acc = next;
            }
            Ok(acc)
        }
        TK::Vec(t) | TK::Array(t, _) => {
            let Val::List(n) = v else { return bad("print of list") };
            print_nodes(ix, st, &st.flat(n), *t)
        }
        TK::TokenStream => match v {
            Val::List(n) => one(st.flat(n)),
            _ => bad("print of stream"),
        },
        TK::Int | TK::Bool | TK::Char | TK::Str | TK::Span => one(vec![]),
        TK::Ident | TK::Punct | TK::Group | TK::Literal => match st.print_simple(v) {
            Some(n) => one(n),
            None => bad("print of token"),
        },
        TK::Adt { name, .. } => {
            if name.ends_with("option::Option") || name.ends_with("result::Result") {
                let res = name.ends_with("result::Result");
                return match st.as_agg(v) {
                    Some((k, f)) => {
                        let shown = if res { k == 0 } else { k == 1 };
                        if shown {
                            print_val(ix, st, &f[0], i.vars[k as usize][0])
                        } else {
                            one(vec![])
                        }
                    }
                    None => match v {
                        Val::Sym(s) if !res => one(vec![Node::Print(*s)]),
                        _ => bad("print of result"),
                    },
                };
            }
            if &**name == "proc_macro2::TokenTree" {
                return one(vec![Node::Elem(v.clone())]);
            }
            let inst = crate::models::to_tokens_inst(ix, ty);
            if inst.is_none() && crate::merge::tokenless(ty, 4) {
                return one(vec![]);
            }
            let Some(inst) = inst else { return bad(format!("no ToTokens for {}", ty)) };
            if let Val::Sym(s) = v {
                if ix.body(inst).is_some() {
                    return one(st.flat(&[Node::Print(*s)]));
                }
            }
            print_unfolded(ix, st, v, inst)
        }
        _ => bad(format!("print of {}", ty)),
    }
}
/// The tokens printed for the value, by its ToTokens implementation.
pub fn print_unfolded(ix: &mut Ix, st: &State, v: &Val, inst: Instance) -> R<Vec<(State, Vec<Node>)>> {
            let mut s = st.clone();
            let c = s.new_cell(Val::list(vec![]));
            let keep: Vec<CellId> = s.cells.keys().cloned().collect();
            let roots = Some(Rc::new(Roots { prev: None, cells: keep }));
            ix.no_merge += 1;
            let outs = ix.call(s, inst, vec![Val::imm(v.clone()), Val::place(c)], roots, None);
            ix.no_merge -= 1;
            let mut r = vec![];
            for o in outs {
                match o.end {
                    End::Ret(_) => {
                        let mut s = o.st;
                        let Val::List(n) = s.cell(c) else { return bad("print result") };
                        s.cells.remove(&c);
                        r.push((s, n.to_vec()));
                    }
                    End::Panic(m) => return bad(format!("panic while printing: {}", m)),
                    End::Undecided(m) => return bad(m),
                }
            }
            Ok(r)
}
pub fn print_nodes(ix: &mut Ix, st: &State, n: &[Node], ety: Ty) -> R<Vec<(State, Vec<Node>)>> {
    let mut acc = vec![(st.clone(), vec![])];
    for x in n {
        match x {
            Node::Elem(v) => {
                let mut next = vec![];
                for (s, a) in acc {
                    for (s2, mut m) in print_val(ix, &s, v, ety)? {
                        let mut a = a.clone();
                        a.append(&mut m);
                        next.push((s2, a));
                    }
                }
                acc = next;
            }
            Node::Sub(s) => {
                let p = if Some(ety) == tt_ty() { Node::Sub(*s) } else { Node::PrintEach(*s) };
                for (_, a) in &mut acc {
                    a.push(p.clone());
                }
            }
            _ => return bad("print of list part"),
        }
        if acc.len() > 200 {
            return bad("print cases");
        }
    }
    Ok(acc)
}

/// `full` = what was read ++ `rest`, in this state.
pub fn consumed(st: &State, s: SubId, cursor: &[Node]) -> Option<Vec<Node>> {
    let full = st.flat(&[Node::Sub(s)]);
    let cur = st.flat(cursor);
    if full.ends_with(&cur) {
        return Some(full[..full.len() - cur.len()].to_vec());
    }
    None
}

fn all_equal(ix: &mut Ix, cases: &[(State, Vec<Node>)], want: &[Node]) -> bool {
    // locations count: they must survive the folding too
    let was = std::mem::replace(&mut ix.strict, true);
    let r = cases.iter().all(|(s, n)| {
        let v = cmp::explore(ix, s, 300, &mut |ix, s| cmp::eq_list(ix, s, want, n, 12));
        if ix.trace && !v.all_eq() {
            eprintln!("   fold: read {}\n      printed {}\n      {:?} {:?}", cmp::show_nodes(s, want), cmp::show_nodes(s, n), v.ne.first().map(|x| x.1.clone()), v.undecided);
        }
        v.all_eq()
    });
    ix.strict = was;
    r
}

fn is_const(v: &Val) -> bool {
    match v {
        Val::Int(_) => true,
        Val::Agg(_, f) => f.is_empty(),
        _ => false,
    }
}
fn const_of(st: &State, v: &Val) -> Option<Val> {
    if let Some(i) = st.as_int(v) {
        return Some(Val::Int(i));
    }
    match v {
        Val::Sym(s) => match st.exp.get(s) {
            Some(Known::Variant(k)) if sinfo(*s).map_or(false, |i| i.vars[*k as usize].is_empty()) => Some(Val::agg(*k, vec![])),
            _ => None,
        },
        _ if is_const(v) => Some(v.clone()),
        _ => None,
    }
}
/// Values independent of this iteration's input.
fn constant_like(v: &Val) -> bool {
    fn sp(s: &SpanV) -> bool {
        matches!(s, SpanV::CallSite | SpanV::MixedSite)
    }
    match v {
        Val::Int(_) => true,
        Val::Agg(_, f) => f.iter().all(constant_like),
        Val::Tok(t) => match &**t {
            TokV::Punct { ch, sp: s, span } => constant_like(ch) && constant_like(s) && sp(span),
            TokV::Ident { text: StrV::Const(_), span } => sp(span),
            _ => false,
        },
        _ => false,
    }
}

struct Ctx {
    s: SubId,
    cur: Path,
    by_ref: bool,
    list: Path,
    ety: Ty,
    base: Vec<Node>,
    consts: Vec<Path>,
    ints: Vec<Path>,
    pend: Option<(Path, Ty)>,
    /// tokens of the pending value at loop entry
    before: Vec<Node>,
}

enum Arr {
    Fold(Class),
    /// more locations change than assumed
    Restart(Vec<Path>, Vec<Path>),
    Keep(String),
    /// this location holds tokens that are collected later
    Pend(CellId),
    /// the same head state again, nothing read
    Stuck,
}

fn ends(st: &State, v: &Val) -> R<(i128, i128)> {
    let l = st.lin(v)?;
    Ok(st.lin_range(&l))
}

fn classify(ix: &mut Ix, c: &Ctx, g: &State, b: &State, cells: &[CellId]) -> Arr {
    let d = diff(g, b, cells);
    let mut nc = vec![];
    let mut ni = vec![];
    for p in d.keys() {
        if *p == c.cur || *p == c.list || c.consts.contains(p) || c.ints.contains(p) || c.pend.as_ref().map_or(false, |(q, _)| q.0 == p.0) {
            continue;
        }
        let (Ok(x), Ok(y)) = (get(g, p), get(b, p)) else { return Arr::Keep("location".into()) };
        if const_of(g, &x).is_some() && const_of(b, &y).is_some() {
            nc.push(p.clone());
        } else if g.lin(&x).is_ok() && b.lin(&y).is_ok() {
            ni.push(p.clone());
        } else if c.pend.is_none() && c.list.0 != p.0 && c.cur.0 != p.0 {
            return Arr::Pend(p.0);
        } else {
            return Arr::Keep(format!("changes {}", cmp::show(b, &y)));
        }
    }
    let mut consts = vec![];
    for p in &c.consts {
        let Ok(v) = get(b, p) else { return Arr::Keep("flag".into()) };
        match const_of(b, &v) {
            Some(Val::Int(i)) if i != 0 && i != 1 => ni.push(p.clone()),
            Some(v) => consts.push(v),
            None => ni.push(p.clone()),
        }
    }
    if !nc.is_empty() || !ni.is_empty() {
        return Arr::Restart(nc, ni);
    }
    let (Ok(Val::Iter(it)), Ok(Val::List(l))) = (get(b, &c.cur), get(b, &c.list)) else { return Arr::Keep("cursor".into()) };
    // a step that reads nothing must at least change a flag
    let moved = match get(g, &c.cur) {
        Ok(Val::Iter(i0)) => b.flat(&i0.nodes) != b.flat(&it.nodes),
        _ => true,
    };
    if d.is_empty() || !moved && c.consts.iter().zip(&consts).all(|(p, v)| get(g, p).map_or(false, |x| const_of(g, &x).as_ref() == Some(v))) {
        return Arr::Stuck;
    }
    let Some(read) = consumed(b, c.s, &it.nodes) else { return Arr::Keep("cursor moved back".into()) };
    let l = b.flat(&l);
    if !l.starts_with(&c.base) {
        return Arr::Keep("list rewritten".into());
    }
    let rel = l[c.base.len()..].to_vec();
    let mut ints = vec![];
    for p in &c.ints {
        match get(b, p).and_then(|v| ends(b, &v)) {
            Ok(r) => ints.push(r),
            Err(_) => return Arr::Keep("counter".into()),
        }
    }
    let t = {
        let mut t = b.seq_bound(&it.nodes, DEPTH);
        t.top = Bound::Top;
        t.depth0 = None;
        t
    };
    let yb = |b: &State, n: &[Node]| {
        let mut y = b.seq_bound(n, DEPTH);
        y.head = Bound::Top;
        y.top = Bound::Top;
        y.depth0 = None;
        y
    };
    // tokens read but not yet collected
    let (mut pend, mut after) = (None, vec![]);
    if let Some((p, ty)) = &c.pend {
        let Ok(v) = get(b, p) else { return Arr::Keep("pending".into()) };
        let Some((k, _)) = b.as_agg(&v) else { return Arr::Keep("pending value".into()) };
        match print_val(ix, b, &v, *ty) {
            Ok(mut r) if r.len() == 1 => after = r.pop().unwrap().1,
            _ => return Arr::Keep("pending print".into()),
        }
        pend = Some((k, b.bound_of(&v, DEPTH)));
    }
    let mk = |part: bool, y: SeqBound, last: Option<Bound>, sep: Option<Val>| Class {
        part,
        consts: consts.clone(),
        y,
        last,
        sep,
        t: t.clone(),
        ints: ints.clone(),
        pend: pend.clone(),
        exact: None,
    };
    match print_nodes(ix, b, &rel, c.ety) {
        Ok(mut cases) => {
            for (_, n) in &mut cases {
                n.extend(after.iter().cloned());
            }
            if all_equal(ix, &cases, &read) {
                return Arr::Fold(mk(false, yb(b, &rel), None, None));
            }
        }
        Err(e) => return Arr::Keep(format!("{:?}", e)),
    }
    if c.pend.is_some() {
        return Arr::Keep("not collected".into());
    }
    if let (Some(Node::Elem(v)), TK::Tuple) = (rel.last(), &info(c.ety).tk) {
        let tys = info(c.ety).vars[0].clone();
        if let (Some((_, f)), 2) = (b.as_agg(v), tys.len()) {
            let n = rel.len() - 1;
            if let Ok(cs) = print_nodes(ix, b, &rel[..n], c.ety) {
                let mut cases = vec![];
                for (s, a) in cs {
                    match print_val(ix, &s, &f[0], tys[0]) {
                        Ok(r) => {
                            for (s2, mut m) in r {
                                let mut a = a.clone();
                                a.append(&mut m);
                                cases.push((s2, a));
                            }
                        }
                        Err(e) => return Arr::Keep(format!("{:?}", e)),
                    }
                }
                if all_equal(ix, &cases, &read) {
                    let sep = if constant_like(&f[1]) { Some(f[1].clone()) } else { None };
                    return Arr::Fold(mk(true, yb(b, &rel[..n]), Some(b.bound_of(&f[0], DEPTH)), sep));
                }
            }
        }
    }
    Arr::Keep(format!("read {} but collected {}", cmp::show_nodes(b, &read), cmp::show_nodes(b, &rel)))
}

fn start(ix: &mut Ix, c: &Ctx, e: &State, k: &Class) -> Option<State> {
    let mut g = e.clone();
    let y = fresh_sub(Some(c.ety));
    let t = fresh_sub(tt_ty());
    rest_of(c.s, t);
    g.sbound.insert(y, k.y.clone());
    g.sbound.insert(t, k.t.clone());
    let mut list = c.base.clone();
    let mut read = vec![];
    if k.y.cons_ok {
        list.push(Node::Sub(y));
        read.push(if Some(c.ety) == tt_ty() { Node::Sub(y) } else { Node::PrintEach(y) });
    }
    if k.part {
        let tys = info(c.ety).vars[0].clone();
        let v = fresh_sym(Some(tys[0]), "last");
        g.bound.insert(v, k.last.clone()?);
        let sep = k.sep.clone().unwrap_or_else(|| val_of_sym(fresh_sym(Some(tys[1]), "sep")));
        let vv = val_of_sym(v);
        read.extend(crate::models::print_formal(v)?);
        list.push(Node::Elem(Val::agg(0, vec![vv, sep])));
    }
    if let (Some((p, ty)), Some((var, b))) = (&c.pend, &k.pend) {
        match &k.exact {
            Some(_) => read.extend(c.before.iter().cloned()),
            None => {
                let v = fresh_sym(Some(*ty), "pending");
                g.bound.insert(v, b.clone());
                if !g.assume(&Assume::Variant(v, *var)) {
                    return None;
                }
                let (_, f) = g.as_agg(&val_of_sym(v))?;
                let v = Val::agg(*var, f);
                let mut r = print_val(ix, &g, &v, *ty).ok()?;
                if r.len() != 1 {
                    return None;
                }
                let (g2, n) = r.pop()?;
                g = g2;
                read.extend(n);
                set(&mut g, p, v).ok()?;
            }
        }
    }
    read.push(Node::Sub(t));
    g.seqexp.insert(c.s, Rc::new(read));
    set(&mut g, &c.cur, Val::Iter(Rc::new(IterV { nodes: vec![Node::Sub(t)], by_ref: c.by_ref }))).ok()?;
    set(&mut g, &c.list, Val::list(list)).ok()?;
    for (p, v) in c.consts.iter().zip(&k.consts) {
        set(&mut g, p, v.clone()).ok()?;
    }
    for (p, (lo, hi)) in c.ints.iter().zip(&k.ints) {
        let v = if lo == hi {
            Val::Int(*lo)
        } else {
            let n = fresh_sym(named("usize"), "n");
            g.bound.insert(n, Bound::Ints { lo: *lo, hi: *hi, not: BTreeSet::new() });
            Val::Sym(n)
        };
        set(&mut g, p, v).ok()?;
    }
    Some(g)
}

fn join(a: &Class, b: &Class, runs: usize) -> Class {
    let mut r = a.clone();
    r.y = a.y.join(&b.y);
    r.t = a.t.join(&b.t);
    r.last = match (&a.last, &b.last) {
        (Some(x), Some(y)) => Some(x.join(y)),
        _ => None,
    };
    if a.sep != b.sep {
        r.sep = None;
    }
    if let (Some((k, x)), Some((_, y))) = (&a.pend, &b.pend) {
        r.pend = Some((*k, x.join(y)));
        r.exact = None;
    }
    for (i, (lo, hi)) in b.ints.iter().enumerate() {
        if *lo < r.ints[i].0 {
            r.ints[i].0 = if *lo >= 0 { 0 } else { -WIDE };
        }
        if *hi > r.ints[i].1 {
            r.ints[i].1 = if *hi <= 0 { 0 } else { WIDE };
        }
    }
    if runs > 6 {
        r.y = SeqBound { empty_ok: true, ..SeqBound::any() };
        r.t = SeqBound::any();
        r.last = r.last.map(|_| Bound::Top);
        r.sep = None;
        r.pend = r.pend.map(|(k, _)| (k, Bound::Top));
    }
    r
}

/// The state with the tokens before the rest `s` joined to it under a new name.
fn rejoin(st: &State, before: &[Node], s: SubId) -> Option<(State, SubId)> {
    if before.is_empty() {
        return Some((st.clone(), s));
    }
    // tokens in terms of their parts
    let norm = |n: &[Node]| -> Vec<Node> {
        st.flat(n)
            .into_iter()
            .map(|x| match &x {
                Node::Elem(v) => match st.as_agg(v) {
                    Some((k, f)) => Node::Elem(Val::agg(k, f)),
                    None => x,
                },
                _ => x,
            })
            .collect()
    };
    let mut want = norm(before);
    want.push(Node::Sub(s));
    let mut best: Option<(usize, SubId, Vec<Node>)> = None;
    for p in st.seqexp.keys() {
        let f = norm(&[Node::Sub(*p)]);
        if f.ends_with(&want) && best.as_ref().map_or(true, |b| (f.len(), *p) < (b.0, b.1)) {
            best = Some((f.len(), *p, f));
        }
    }
    let (_, p, f) = best?;
    let mut r = st.clone();
    let n = fresh_sub(tt_ty());
    rest_of(p, n);
    let mut e = f[..f.len() - want.len()].to_vec();
    e.push(Node::Sub(n));
    r.seqexp.insert(p, Rc::new(e));
    r.seqexp.insert(n, Rc::new(want));
    Some((r, n))
}

pub fn summarise(
    ix: &mut Ix,
    fr: &Frame,
    header: usize,
    lset: &HashSet<usize>,
    st: &State,
    cur: &Path,
    it: &IterV,
    changed: &BTreeMap<Path, Vec<Diff>>,
    backs: &[State],
) -> Option<RegionOut> {
    let nodes = st.flat(&it.nodes);
    let [Node::Sub(s)] = nodes[..] else { return None };
    let s0 = s;
    if sub_ty(s) != tt_ty() || it.by_ref {
        return None;
    }
    let lists: Vec<&Path> = changed.iter().filter(|(_, d)| d.iter().any(|x| matches!(x, Diff::Append(_)))).map(|(p, _)| p).collect();
    if lists.len() != 1 {
        if ix.trace {
            eprintln!("parsing loop in {}: {} lists", fr.b.name, lists.len());
        }
        return None;
    }
    let list = lists[0].clone();
    let ety = match info(path_ty(st, fr, &list)?).tk.clone() {
        TK::Vec(t) => t,
        TK::TokenStream => tt_ty()?,
        _ => return None,
    };
    let Ok(Val::List(base)) = get(st, &list) else { return None };
    let cells: Vec<CellId> = {
        let mut c: Vec<CellId> = st.cells.keys().cloned().collect();
        c.sort();
        c
    };
    let live = ix.live_cells(fr, header);
    let mut c = Ctx { s, cur: cur.clone(), by_ref: it.by_ref, list, ety, base: st.flat(&base), consts: vec![], ints: vec![], pend: None, before: vec![] };
    let mut st = st.clone();
    'restart: for _ in 0..6 {
        let entry = Class {
            part: false,
            consts: c.consts.iter().map(|p| get(&st, p).ok().and_then(|v| const_of(&st, &v))).collect::<Option<Vec<_>>>()?,
            y: SeqBound::empty(),
            last: None,
            sep: None,
            t: st.get_sbound(s0),
            ints: c.ints.iter().map(|p| get(&st, p).ok().and_then(|v| ends(&st, &v).ok())).collect::<Option<Vec<_>>>()?,
            pend: match &c.pend {
                None => None,
                Some((p, _)) => {
                    let v = get(&st, p).ok()?;
                    Some((st.as_agg(&v)?.0, st.bound_of(&v, DEPTH)))
                }
            },
            exact: c.pend.as_ref().and_then(|(p, _)| get(&st, p).ok()),
        };
        let mut classes: Vec<(Class, usize, bool, RegionOut)> = vec![(entry, 0, true, RegionOut::default())];
        let mut keep: Vec<(usize, State)> = vec![];
        let mut todo: Vec<(usize, State, State)> = if c.pend.is_some() { vec![] } else { backs.iter().map(|b| (0, st.clone(), b.clone())).collect() };
        let mut scouted = true;
        loop {
            for (from, g, b) in todo.drain(..) {
                if !scouted {
                    ix.obligations += 1;
                    *ix.obl_by.entry("C06".into()).or_default() += 1;
                }
                match classify(ix, &c, &g, &b, &cells) {
                    Arr::Fold(k) => match classes.iter_mut().find(|x| x.0.part == k.part && x.0.consts == k.consts && x.0.pend.as_ref().map(|p| p.0) == k.pend.as_ref().map(|p| p.0)) {
                        Some(x) => {
                            let n = join(&x.0, &k, x.1);
                            if n != x.0 {
                                x.0 = n;
                                x.2 = true;
                            }
                        }
                        None => {
                            if classes.len() > 12 {
                                return None;
                            }
                            classes.push((k, 0, true, RegionOut::default()));
                        }
                    },
                    Arr::Restart(a, b) => {
                        c.consts.extend(a);
                        c.consts.retain(|p| !b.contains(p));
                        c.ints.extend(b);
                        c.consts.sort();
                        c.consts.dedup();
                        c.ints.sort();
                        c.ints.dedup();
                        continue 'restart;
                    }
                    Arr::Pend(cell) => {
                        let path: Path = (cell, vec![]);
                        let p = path_ty(&st, fr, &path).and_then(|ty| {
                            let v = get(&st, &path).ok()?;
                            st.as_agg(&v)?;
                            let mut r = print_val(ix, &st, &v, ty).ok()?;
                            if r.len() != 1 {
                                return None;
                            }
                            let before = r.pop()?.1;
                            let (n, s) = rejoin(&st, &before, c.s)?;
                            Some((ty, before, n, s))
                        });
                        if let Some((ty, before, n, s)) = p {
                            c.pend = Some((path, ty));
                            c.before = before;
                            c.s = s;
                            st = n;
                            continue 'restart;
                        }
                        if ix.trace {
                            eprintln!("parsing loop in {}: kept: changes {}", fr.b.name, cmp::show(&b, &b.cell(cell)));
                        }
                        if !scouted {
                            keep.push((from, b));
                        }
                    }
                    Arr::Stuck => {
                        if b.taint.is_none() && !b.lost {
                            let w = format!("C06 every iteration makes progress: loop in {}", fr.b.name);
                            ix.report(&b, &w, "an iteration reads no token: the loop does not end");
                        }
                    }
                    Arr::Keep(m) => {
                        if ix.trace {
                            eprintln!("parsing loop in {}: kept: {}", fr.b.name, m);
                        }
                        if !scouted {
                            keep.push((from, b));
                        }
                    }
                }
            }
            scouted = false;
            if ix.over() {
                break;
            }
            let Some(i) = classes.iter().position(|x| x.2) else { break };
            classes[i].2 = false;
            classes[i].1 += 1;
            keep.retain(|x| x.0 != i);
            let g = start(ix, &c, &st, &classes[i].0)?;
            if ix.trace {
                eprintln!("parsing loop in {}: class {} run {} part {} consts {:?} ints {:?} t {:?}", fr.b.name, i, classes[i].1, classes[i].0.part, classes[i].0.consts, classes[i].0.ints, classes[i].0.t);
            }
            let mut r = ix.region(fr, vec![(header, 0, g.clone())], Some((header, lset)));
            for mut b in r.back.drain(..) {
                ix.gc(&mut b, &live, &fr.roots, None);
                todo.push((i, g.clone(), b));
            }
            classes[i].3 = r;
        }
        let mut out = RegionOut::default();
        for (_, _, _, r) in classes {
            out.exits.extend(r.exits);
            out.ends.extend(r.ends);
        }
        // iterations outside the invariant: one more round, explicitly
        for (_, b) in keep {
            ix.stats.loops_unrolled += 1;
            let r = ix.region(fr, vec![(header, 0, b)], Some((header, lset)));
            out.exits.extend(r.exits);
            out.ends.extend(r.ends);
            ix.stats.cut += r.back.len() as u64;
        }
        return Some(out);
    }
    None
}
