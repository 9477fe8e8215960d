//! Loop summaries. A loop over an arbitrary list is summarised element-wise; parsing loops are
//! summarised by an invariant (see ploop.rs); what fits neither is unrolled a bounded number of times.
use crate::exec::*;
use crate::models::canon;
use crate::state::*;
use crate::subst;
use crate::types::*;
use crate::val::*;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

pub type Path = (CellId, Vec<Proj>);

/// How a location differs between two states.
#[derive(Clone, Debug, PartialEq)]
pub enum Diff {
    /// nodes appended to a list
    Append(Vec<Node>),
    /// iterator or list changed otherwise
    Cursor,
    Delta(Lin),
    Other,
}

pub fn diff(a: &State, b: &State, cells: &[CellId]) -> BTreeMap<Path, Diff> {
    let mut out = BTreeMap::new();
    for c in cells {
        let (x, y) = (a.cell(*c), b.cell(*c));
        dval(a, b, &x, &y, (*c, vec![]), &mut out);
    }
    out
}
fn dval(a: &State, b: &State, x: &Val, y: &Val, p: Path, out: &mut BTreeMap<Path, Diff>) {
    if x == y {
        return;
    }
    if let (Some((k, f)), Some((k2, g))) = (a.as_agg(x), b.as_agg(y)) {
        if k == k2 && f.len() == g.len() {
            for i in 0..f.len() {
                let mut q = p.clone();
                q.1.push(Proj::F(k, i as u32));
                dval(a, b, &f[i], &g[i], q, out);
            }
            return;
        }
    }
    match (x, y) {
        (Val::List(m), Val::List(n)) => {
            let (m, n) = (b.flat(m), b.flat(n));
            if m == n {
                return;
            }
            if n.len() >= m.len() && n[..m.len()] == m[..] {
                out.insert(p, Diff::Append(n[m.len()..].to_vec()));
            } else {
                out.insert(p, Diff::Other);
            }
        }
        (Val::Iter(m), Val::Iter(n)) => {
            if b.flat(&m.nodes) != b.flat(&n.nodes) {
                out.insert(p, Diff::Cursor);
            }
        }
        (Val::Int(_) | Val::Lin(_), Val::Int(_) | Val::Lin(_)) | (Val::Sym(_), Val::Lin(_)) => match (b.lin(x), b.lin(y)) {
            (Ok(l), Ok(m)) => {
                let d = m.add(&l, -1);
                if d != Lin::default() {
                    out.insert(p, Diff::Delta(d));
                }
            }
            _ => {
                out.insert(p, Diff::Other);
            }
        },
        (Val::Ref(Ptr::Imm(u)), Val::Ref(Ptr::Imm(v))) if u == v => {}
        (Val::Uninit, _) | (_, Val::Uninit) => {
            out.insert(p, Diff::Other);
        }
        _ => {
            out.insert(p, Diff::Other);
        }
    }
}

pub fn get(st: &State, p: &Path) -> R<Val> {
    read_path(st, &st.cell(p.0), &p.1)
}
pub fn set(st: &mut State, p: &Path, v: Val) -> R<()> {
    let n = write_path(st, &st.cell(p.0), &p.1, v)?;
    st.cells.insert(p.0, n);
    Ok(())
}

fn subst_pend_nodes(n: &[Node], m: &BTreeMap<u32, Node>) -> Vec<Node> {
    n.iter()
        .map(|x| match x {
            Node::Pend(j) => m.get(j).cloned().unwrap_or(x.clone()),
            Node::Elem(v) => Node::Elem(subst_pend(v, m)),
            Node::Map(r, s) => {
                let cases = r.cases.iter().map(|(g, n)| (g.clone(), subst_pend_nodes(n, m))).collect();
                Node::Map(Rc::new(MapRec { formal: r.formal, cases }), *s)
            }
            _ => x.clone(),
        })
        .collect()
}
fn subst_pend(v: &Val, m: &BTreeMap<u32, Node>) -> Val {
    match v {
        Val::Agg(k, f) => Val::agg(*k, f.iter().map(|x| subst_pend(x, m)).collect()),
        Val::List(n) => Val::list(subst_pend_nodes(n, m)),
        Val::Iter(i) => Val::Iter(Rc::new(IterV { nodes: subst_pend_nodes(&i.nodes, m), by_ref: i.by_ref })),
        Val::Ref(Ptr::Imm(x)) => Val::imm(subst_pend(x, m)),
        Val::Tok(t) => match &**t {
            TokV::Group { delim, inner, span } => Val::Tok(Rc::new(TokV::Group {
                delim: delim.clone(),
                inner: subst_pend_nodes(inner, m),
                span: subst_pend_span(span, m),
            })),
            _ => v.clone(),
        },
        Val::Span(s) => Val::Span(Rc::new(subst_pend_span(s, m))),
        _ => v.clone(),
    }
}
fn subst_pend_span(s: &SpanV, m: &BTreeMap<u32, Node>) -> SpanV {
    match s {
        SpanV::Over(n) => SpanV::Over(subst_pend_nodes(n, m)),
        SpanV::Join(a, b) => SpanV::Join(Rc::new(subst_pend_span(a, m)), Rc::new(subst_pend_span(b, m))),
        _ => s.clone(),
    }
}
fn pend_state(st: &mut State, m: &BTreeMap<u32, Node>) {
    if m.is_empty() {
        return;
    }
    let ks: Vec<CellId> = st.cells.keys().cloned().collect();
    for c in ks {
        let v = st.cells[&c].clone();
        let w = subst_pend(&v, m);
        if v != w {
            st.cells.insert(c, w);
        }
    }
}
fn pend_end(e: End, m: &BTreeMap<u32, Node>) -> End {
    match e {
        End::Ret(v) => End::Ret(subst_pend(&v, m)),
        e => e,
    }
}

pub fn iter_paths(st: &State, cells: &[CellId]) -> Vec<Path> {
    fn go(v: &Val, p: Path, out: &mut Vec<Path>) {
        match v {
            Val::Iter(_) => out.push(p),
            Val::Agg(k, f) => {
                for (i, x) in f.iter().enumerate() {
                    let mut q = p.clone();
                    q.1.push(Proj::F(*k, i as u32));
                    go(x, q, out);
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    for c in cells {
        go(&st.cell(*c), (*c, vec![]), &mut out);
    }
    out
}

pub fn process(ix: &mut Ix, fr: &Frame, header: usize, set_: &HashSet<usize>, st: State) -> RegionOut {
    let mut out = RegionOut::default();
    if ix.loop_depth > 12 {
        out.ends.push(Out { st, end: End::Undecided("loop nesting".into()) });
        return out;
    }
    ix.loop_depth += 1;
    run(ix, fr, header, set_, st, 0, 0, &mut out);
    ix.loop_depth -= 1;
    out
}

const PEEL: usize = 40;
/// For the harnesses with long inputs.
const DEEP: usize = 200;
const UNROLL: usize = 3;

fn run(ix: &mut Ix, fr: &Frame, header: usize, lset: &HashSet<usize>, st: State, peeled: usize, unrolled: usize, out: &mut RegionOut) {
    let mut st = st;
    let live = ix.live_cells(fr, header);
    ix.gc(&mut st, &live, &fr.roots, None);
    if ix.over() {
        out.ends.push(Out { st, end: End::Undecided("analysis budget".into()) });
        return;
    }
    let cells: Vec<CellId> = {
        let mut c: Vec<CellId> = st.cells.keys().cloned().collect();
        c.sort();
        c
    };
    // one iteration from here
    let obl = (ix.obligations, ix.reports.len(), ix.stats.undecided.clone());
    let scout = ix.region(fr, vec![(header, 0, st.clone())], Some((header, lset)));
    if scout.back.is_empty() {
        out.exits.extend(scout.exits);
        out.ends.extend(scout.ends);
        return;
    }
    let mut backs = scout.back;
    for b in &mut backs {
        ix.gc(b, &live, &fr.roots, None);
    }
    let mut changed: BTreeMap<Path, Vec<Diff>> = BTreeMap::new();
    for b in &backs {
        for (p, d) in diff(&st, b, &cells) {
            changed.entry(p).or_default().push(d);
        }
    }
    // no effect at all: the loop would spin
    if (ix.parse_mode || ix.small) && fr.b.name.contains("venial::") {
        for b in &backs {
            if b.taint.is_none() && !b.lost && diff(&st, b, &cells).is_empty() {
                let w = format!("C06 every iteration makes progress: loop in {}", fr.b.name);
                ix.report(b, &w, "an iteration changes nothing: the loop does not end");
            }
        }
    }
    if ix.small {
        ix.stats.loops_unrolled += 1;
        out.exits.extend(scout.exits);
        out.ends.extend(scout.ends);
        for b in backs {
            if peeled >= if ix.deep { DEEP } else { PEEL } {
                out.ends.push(Out { st: b, end: End::Undecided(format!("loop not finished in {}", fr.b.name)) });
            } else {
                run(ix, fr, header, lset, b, peeled + 1, unrolled, out);
            }
        }
        return;
    }
    let cursors: Vec<Path> = changed.iter().filter(|(_, d)| d.contains(&Diff::Cursor)).map(|(p, _)| p.clone()).collect();
    if cursors.len() == 1 && ix.parse_mode {
        if let Ok(Val::Iter(it)) = get(&st, &cursors[0]) {
            if let Some(o) = crate::ploop::summarise(ix, fr, header, lset, &st, &cursors[0], &it, &changed, &backs) {
                ix.stats.loops_p += 1;
                let lose = st.must.is_some();
                out.exits.extend(o.exits.into_iter().map(|mut e| {
                    e.1.lost |= lose;
                    e
                }));
                out.ends.extend(o.ends.into_iter().map(|mut e| {
                    e.st.lost |= lose;
                    e
                }));
                return;
            }
        }
    }
    if cursors.len() == 1 {
        let cur = cursors[0].clone();
        if let Ok(Val::Iter(it)) = get(&st, &cur) {
            let front = st.flat(&it.nodes);
            match front.first() {
                Some(Node::Sub(_)) | Some(Node::Map(..)) => {
                    if !changed.values().any(|d| d.contains(&Diff::Other)) {
                        ix.obligations = obl.0;
                        ix.reports.truncate(obl.1);
                        ix.stats.undecided = obl.2.clone();
                        match generic(ix, fr, header, lset, &st, &cur, &it, &changed, &live) {
                            Gen::Ok(o, next) => {
                                ix.stats.loops_m += 1;
                                out.exits.extend(o.exits);
                                out.ends.extend(o.ends);
                                for s in next {
                                    run(ix, fr, header, lset, s, peeled, unrolled, out);
                                }
                                return;
                            }
                            Gen::Fork(alts) => {
                                for a in alts {
                                    let mut s = st.clone();
                                    if s.assume(&a) {
                                        s.push_trail(a, &fr.b.name);
                                        run(ix, fr, header, lset, s, peeled, unrolled, out);
                                    }
                                }
                                return;
                            }
                            Gen::Fail(m) => {
                                if ix.trace {
                                    eprintln!("loop in {} not summarised: {}", fr.b.name, m);
                                }
                            }
                        }
                    } else if ix.trace {
                        eprintln!("loop in {}: state changes {:?}", fr.b.name, changed);
                    }
                }
                Some(Node::Elem(_)) => {
                    if peeled < PEEL {
                        out.exits.extend(scout.exits);
                        out.ends.extend(scout.ends);
                        for b in backs {
                            run(ix, fr, header, lset, b, peeled + 1, unrolled, out);
                        }
                        return;
                    }
                }
                _ => {}
            }
        }
    } else if ix.trace {
        eprintln!("loop in {}: {} cursors, changes {:?}", fr.b.name, cursors.len(), changed);
    }
    ix.stats.loops_unrolled += 1;
    // the repeated scout above counted the obligations of this iteration; re-running is not needed
    out.exits.extend(scout.exits);
    out.ends.extend(scout.ends);
    for b in backs {
        if unrolled >= UNROLL {
            out.ends.push(Out { st: b, end: End::Undecided(format!("loop not summarised in {}", fr.b.name)) });
        } else {
            run(ix, fr, header, lset, b, peeled, unrolled + 1, out);
        }
    }
}

enum Gen {
    Ok(RegionOut, Vec<State>),
    Fork(Vec<Assume>),
    Fail(String),
}

fn generic(
    ix: &mut Ix,
    fr: &Frame,
    header: usize,
    lset: &HashSet<usize>,
    st: &State,
    cur: &Path,
    it: &IterV,
    changed: &BTreeMap<Path, Vec<Diff>>,
    live: &[CellId],
) -> Gen {
    let nodes = st.flat(&it.nodes);
    let (xs, map) = match &nodes[0] {
        Node::Sub(x) => (*x, None),
        Node::Map(m, x) => (*x, Some(m.clone())),
        _ => return Gen::Fail("front".into()),
    };
    let rest = nodes[1..].to_vec();
    let front = |s: SubId| match &map {
        None => Node::Sub(s),
        Some(m) => Node::Map(m.clone(), s),
    };
    let ety = sub_ty(xs);
    let (x1, w) = (fresh_sub(ety), fresh_sub(ety));
    let h = head(w);
    let hv = val_of_sym(h);
    let b = st.get_sbound(xs);
    let mut g = st.clone();
    g.sbound.insert(x1, SeqBound { empty_ok: true, cons_ok: true, elem: b.elem.clone(), ..SeqBound::any() });
    g.sbound.insert(w, SeqBound { empty_ok: false, cons_ok: true, elem: b.elem.clone(), ..SeqBound::any() });
    g.seqexp.insert(xs, Rc::new(vec![Node::Sub(x1), Node::Sub(w)]));
    g.before.insert(h, x1);
    if !g.assume(&Assume::Cons(w)) {
        return Gen::Fail("cons".into());
    }
    let mut cn = vec![front(w)];
    cn.extend(rest.iter().cloned());
    let citer = |n: Vec<Node>| Val::Iter(Rc::new(IterV { nodes: n, by_ref: it.by_ref }));
    if set(&mut g, cur, citer(cn)).is_err() {
        return Gen::Fail("cursor".into());
    }
    // accumulators and counters
    let mut accs: Vec<(Path, u32)> = vec![];
    let mut counters: Vec<(Path, i128)> = vec![];
    for (p, ds) in changed {
        if p == cur {
            continue;
        }
        if ds.iter().all(|d| matches!(d, Diff::Append(_))) {
            let j = fresh_id();
            match get(&g, p) {
                Ok(Val::List(n)) => {
                    let mut n = n.to_vec();
                    n.push(Node::Pend(j));
                    if set(&mut g, p, Val::list(n)).is_err() {
                        return Gen::Fail("accumulator".into());
                    }
                }
                _ => return Gen::Fail("accumulator".into()),
            }
            accs.push((p.clone(), j));
        } else if ds.iter().all(|d| matches!(d, Diff::Delta(l) if l.syms.is_empty() && l.lens.is_empty() && l.c == 1)) {
            let idx = Lin::sym(mk_sym(SymKind::Attr(h, Attr::Idx), named("usize")));
            match get(&g, p).and_then(|v| g.lin(&v)) {
                Ok(l) => {
                    if set(&mut g, p, l.add(&idx, 1).to_val()).is_err() {
                        return Gen::Fail("counter".into());
                    }
                }
                Err(_) => return Gen::Fail("counter".into()),
            }
            counters.push((p.clone(), 1));
        } else {
            return Gen::Fail(format!("changes {:?}", ds));
        }
    }
    let cells: Vec<CellId> = {
        let mut c: Vec<CellId> = g.cells.keys().cloned().collect();
        c.sort();
        c
    };
    // mapped elements that contribute nothing are skipped before they reach the loop
    let mut cases: Vec<(Vec<Assume>, BTreeMap<u32, Vec<Node>>)> = vec![];
    let mut cont: Option<Bound> = None;
    let mut starts: Vec<State> = vec![];
    let base = g.trail_len();
    match &map {
        None => starts.push(g.clone()),
        Some(m) => {
            for (gd, n) in &m.cases {
                let mut s = g.clone();
                let mut ok = true;
                for a in gd {
                    match subst::assume(a, m.formal, &hv) {
                        Some(l) => {
                            for a in l {
                                if !s.assume(&a) {
                                    ok = false;
                                    break;
                                }
                                s.push_trail(a, &fr.b.name);
                            }
                        }
                        None => ok = false,
                    }
                }
                if !ok {
                    continue;
                }
                if n.is_empty() {
                    let b = s.bound_of(&hv, 8);
                    cont = Some(cont.map_or(b.clone(), |c: Bound| c.join(&b)));
                    cases.push((s.trail_since(base), accs.iter().map(|(_, j)| (*j, vec![])).collect()));
                } else {
                    starts.push(s);
                }
            }
        }
    }
    let mut o = RegionOut::default();
    let mut backs: Vec<State> = vec![];
    let want: Vec<Node> = {
        let mut n = vec![front(tail(w))];
        n.extend(rest.iter().cloned());
        n
    };
    let mut wl: Vec<(State, usize)> = starts.into_iter().map(|s| (s, 0)).collect();
    while let Some((s, k)) = wl.pop() {
        let r = ix.region(fr, vec![(header, 0, s)], Some((header, lset)));
        o.exits.extend(r.exits);
        o.ends.extend(r.ends);
        for mut b in r.back {
            ix.gc(&mut b, live, &fr.roots, None);
            let Ok(Val::Iter(i2)) = get(&b, cur) else { return Gen::Fail("cursor lost".into()) };
            let n2 = b.flat(&i2.nodes);
            let wn = b.flat(&want);
            if n2 == wn {
                backs.push(b);
            } else if n2.len() > wn.len() && n2.ends_with(&wn) && k < 8 && map.is_some() {
                wl.push((b, k + 1));
            } else {
                return Gen::Fail(format!("consumes {:?} instead of one element", n2));
            }
        }
    }
    // facts about anything but the current element hold for all iterations: decide them first
    let foreign = |s: &State| -> Option<Assume> {
        let mut own: HashSet<SubId> = HashSet::new();
        own.insert(w);
        for a in s.trail_since(base) {
            if let Assume::Choice(_) = a {
                return Some(a);
            }
            if !subst::assume_mentions(&a, h) {
                return Some(a);
            }
        }
        None
    };
    for s in backs.iter() {
        if let Some(a) = foreign(s) {
            if matches!(a, Assume::Choice(_) | Assume::All(_) | Assume::Exp(..) | Assume::SBound(..)) {
                return Gen::Fail(format!("depends on {:?}", a));
            }
            if mentions_sub(&a, x1) || mentions_sub(&a, w) || mentions_sub(&a, tail(w)) {
                // leaving the loop may look further; iterations may not
                if mentions_sub(&a, tail(w)) && rest.is_empty() && map.is_none() {
                    // the last element is special
                    if let Stop::Fork(f) = st.split_last(xs) {
                        return Gen::Fork(f);
                    }
                }
                return Gen::Fail("looks at other elements".into());
            }
            return Gen::Fork(st.alternatives(&a));
        }
    }
    // what each iteration appends
    for bst in &backs {
        let d = diff(&g, bst, &cells);
        let mut add: BTreeMap<u32, Vec<Node>> = accs.iter().map(|(_, j)| (*j, vec![])).collect();
        for (p, x) in &d {
            if p == cur {
                continue;
            }
            if let Some((_, j)) = accs.iter().find(|(q, _)| q == p) {
                match x {
                    Diff::Append(n) => {
                        if n.iter().any(|y| matches!(y, Node::Pend(_))) {
                            return Gen::Fail("pend".into());
                        }
                        // in terms of the element, not of its expansion in this state
                        add.insert(*j, n.clone());
                    }
                    _ => return Gen::Fail("accumulator is not only appended to".into()),
                }
            } else if counters.iter().any(|(q, _)| q == p) {
                if *x != Diff::Delta(Lin::c(1)) {
                    return Gen::Fail("counter".into());
                }
            } else {
                return Gen::Fail(format!("changes {:?}: {:?}", p, x));
            }
        }
        for (q, _) in &counters {
            if !d.contains_key(q) {
                return Gen::Fail("counter".into());
            }
        }
        for n in add.values() {
            if n.iter().any(|y| subst_mentions_sub(y, &[x1, tail(w)])) {
                return Gen::Fail("appends other elements".into());
            }
        }
        let b = bst.bound_of(&hv, 8);
        cont = Some(cont.map_or(b.clone(), |c: Bound| c.join(&b)));
        cases.push((bst.trail_since(base), add));
    }
    let maps = |s: SubId| -> BTreeMap<u32, Node> {
        accs.iter()
            .map(|(_, j)| {
                let m = MapRec { formal: h, cases: cases.iter().map(|(g, a)| (g.clone(), a[j].clone())).collect() };
                (*j, if m.cases.is_empty() { Node::Sub(s) } else { canon(Node::Map(Rc::new(m), s)) })
            })
            .collect()
    };
    let m1 = maps(x1);
    let xb = match &cont {
        None => SeqBound::empty(),
        Some(b) => SeqBound { empty_ok: true, cons_ok: true, elem: b.clone(), ..SeqBound::any() },
    };
    let fix = |s: &mut State| {
        s.sbound.insert(x1, xb.clone());
        if cont.is_none() {
            s.seqexp.insert(x1, Rc::new(vec![]));
        }
        pend_state(s, &m1);
    };
    let mut ro = RegionOut::default();
    for (t, mut s) in o.exits {
        fix(&mut s);
        ro.exits.push((t, s));
    }
    for mut e in o.ends {
        fix(&mut e.st);
        ro.ends.push(Out { st: e.st, end: pend_end(e.end, &m1) });
    }
    // all elements were passed
    let mut next = vec![];
    let mut s = st.clone();
    let mut ok = true;
    match &cont {
        None => ok = s.assume(&Assume::Empty(xs)),
        Some(bd) => {
            let mut sb = b.clone();
            sb.elem = bd.clone();
            sb.head = Bound::Top;
            s.sbound.insert(xs, sb);
        }
    }
    if ok {
        if set(&mut s, cur, citer(rest)).is_err() {
            return Gen::Fail("cursor".into());
        }
        let m = maps(xs);
        for (p, j) in &accs {
            match get(&s, p) {
                Ok(Val::List(n)) => {
                    let mut n = n.to_vec();
                    if cont.is_some() {
                        // maps whose every case is empty contribute nothing
                        let all_empty = cases.iter().all(|c| c.1[j].is_empty());
                        if !all_empty {
                            n.push(m[j].clone());
                        }
                    }
                    if set(&mut s, p, Val::list(n)).is_err() {
                        return Gen::Fail("accumulator".into());
                    }
                }
                _ => return Gen::Fail("accumulator".into()),
            }
        }
        for (p, _) in &counters {
            let l = Lin { lens: [(xs, 1)].into_iter().collect(), ..Default::default() };
            match get(&s, p).and_then(|v| s.lin(&v)) {
                Ok(x) => {
                    if set(&mut s, p, x.add(&l, 1).to_val()).is_err() {
                        return Gen::Fail("counter".into());
                    }
                }
                Err(_) => return Gen::Fail("counter".into()),
            }
        }
        next.push(s);
    }
    Gen::Ok(ro, next)
}

fn mentions_sub(a: &Assume, s: SubId) -> bool {
    match a {
        Assume::Empty(x) | Assume::Cons(x) | Assume::Snoc(x) | Assume::Exp(x, _) | Assume::SBound(x, _) => *x == s,
        Assume::All(v) => v.iter().any(|a| mentions_sub(a, s)),
        _ => false,
    }
}
fn subst_mentions_sub(n: &Node, s: &[SubId]) -> bool {
    match n {
        Node::Sub(x) | Node::PrintEach(x) => s.contains(x),
        Node::Map(_, x) => s.contains(x),
        Node::Elem(v) => val_mentions_sub(v, s),
        _ => false,
    }
}
fn val_mentions_sub(v: &Val, s: &[SubId]) -> bool {
    match v {
        Val::List(n) => n.iter().any(|x| subst_mentions_sub(x, s)),
        Val::Iter(n) => n.nodes.iter().any(|x| subst_mentions_sub(x, s)),
        Val::Agg(_, f) => f.iter().any(|x| val_mentions_sub(x, s)),
        Val::Ref(Ptr::Imm(x)) => val_mentions_sub(x, s),
        Val::Tok(t) => match &**t {
            TokV::Group { inner, .. } => inner.iter().any(|x| subst_mentions_sub(x, s)),
            _ => false,
        },
        _ => false,
    }
}
