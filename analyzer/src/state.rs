//! Abstract state: heap of cells plus what is known about symbols.
use crate::types::*;
use crate::val::*;
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Known {
    Variant(u32),
    Int(i128),
    Text(Rc<str>),
}

#[derive(Debug, Clone)]
pub enum Stop {
    Fork(Vec<Assume>),
    /// the printed form of a symbol is needed
    NeedPrint(SymId),
    Bad(String),
    Panic(String),
    /// path is infeasible
    Dead,
}
pub type R<T> = Result<T, Stop>;
pub fn rss_now() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).map_or(0, |p| p * 4096 >> 20)
}
/// Resident memory of this process, measured now and then.
pub fn rss_mb() -> u64 {
    thread_local!(static LAST: std::cell::Cell<(u32, u64)> = const { std::cell::Cell::new((0, 0)) });
    LAST.with(|c| {
        let (n, mut v) = c.get();
        if n % 64 == 0 {
            v = rss_now();
        }
        c.set((n.wrapping_add(1), v));
        v
    })
}
/// constants from which a length comparison cuts the list instead of unfolding it
const CUT: i128 = 6;
/// `cutL`/`cutR` halves of a list: (the list, whether it is the right half)
pub fn cut_of(s: SubId) -> Option<(SubId, bool)> {
    if let SubKind::OfSym(q) = sub_kind(s) {
        if let SymKind::Op(n, v, _) = sym_kind(q) {
            if let (true, Val::Int(x)) = (&*n == "cutL" || &*n == "cutR", v.get(1)?) {
                return Some((*x as SubId, &*n == "cutR"));
            }
        }
    }
    None
}
/// The length of a list that was cut from another at a constant position.
pub fn fixed_len(s: SubId) -> Option<i128> {
    match sub_kind(s) {
        SubKind::Tail(p) | SubKind::Init(p) => Some((fixed_len(p)? - 1).max(0)),
        SubKind::OfSym(q) => match sym_kind(q) {
            SymKind::Op(n, v, _) if &*n == "cutL" => match v.first() {
                Some(Val::Int(k)) => Some(*k),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
pub fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Bad(s.into()))
}

#[derive(Clone)]
pub struct Trail {
    pub prev: Option<Rc<Trail>>,
    pub what: Assume,
    pub at: Rc<str>,
    pub n: usize,
}

#[derive(Clone, Default)]
pub struct State {
    pub cells: im::HashMap<CellId, Val>,
    pub exp: im::HashMap<SymId, Known>,
    pub bound: im::HashMap<SymId, Bound>,
    pub seqexp: im::HashMap<SubId, Rc<Vec<Node>>>,
    pub sbound: im::HashMap<SubId, SeqBound>,
    /// printed form of symbols whose printing has been unfolded
    pub pexp: im::HashMap<SymId, Rc<Vec<Node>>>,
    /// angle depth / dash flag at the end of accumulated token lists
    pub ghost: im::HashMap<SubId, (Val, Val)>,
    /// list element -> the elements before it (its index is their number)
    pub before: im::HashMap<SymId, SubId>,
    pub nonempty_print: im::HashSet<SymId>,
    /// assumed comparisons of texts
    pub text_facts: im::Vector<SymId>,
    pub taint: Option<Rc<str>>,
    /// decided something about a value of which the analysis no longer knows what it can be
    pub lost: bool,
    pub may_panic: bool,
    /// a panic on this path violates this
    pub must: Option<Rc<str>>,
    pub trail: Option<Rc<Trail>>,
}

const IMAX: i128 = i64::MAX as i128;

pub const NOT_SMALL: usize = usize::MAX;
thread_local! {
    /// In a harness over small inputs: how many tokens an arbitrary stream has at most.
    pub static SMALL: std::cell::Cell<usize> = const { std::cell::Cell::new(NOT_SMALL) };
}
/// Is this the rest after as many tokens as a stream may have? (Two fewer in every nested group.)
fn beyond(s: SubId, n: usize) -> bool {
    let (mut d, mut nest) = (0, 0);
    let mut x = Err(s);
    for _ in 0..200 {
        x = match x {
            Err(u) => match sub_kind(u) {
                SubKind::Tail(p) | SubKind::Init(p) => {
                    if nest == 0 {
                        d += 1;
                    }
                    Err(p)
                }
                SubKind::Content(g) => {
                    nest += 1;
                    Ok(g)
                }
                SubKind::OfSym(p) => Ok(p),
                _ => break,
            },
            Ok(y) => match sym_kind(y) {
                SymKind::Child(p, ..) | SymKind::Attr(p, _) => Ok(p),
                SymKind::Head(u) | SymKind::Last(u) => Err(u),
                _ => break,
            },
        }
    }
    let nest: usize = nest;
    d + 2 * nest.saturating_sub(1) >= n
}

impl State {
    pub fn trail_len(&self) -> usize {
        self.trail.as_ref().map_or(0, |t| t.n)
    }
    pub fn trail_since(&self, n: usize) -> Vec<Assume> {
        let mut v = vec![];
        let mut t = self.trail.clone();
        while let Some(x) = t {
            if x.n <= n {
                break;
            }
            v.push(x.what.clone());
            t = x.prev.clone();
        }
        v.reverse();
        v
    }
    pub fn push_trail(&mut self, a: Assume, at: &str) {
        let n = self.trail_len() + 1;
        self.trail = Some(Rc::new(Trail { prev: self.trail.take(), what: a, at: Rc::from(at), n }));
    }
    pub fn taint(&mut self, s: &str) {
        if self.taint.is_none() {
            self.taint = Some(Rc::from(s));
        }
    }
    pub fn new_cell(&mut self, v: Val) -> CellId {
        let id = fresh_id();
        self.cells.insert(id, v);
        id
    }

    // ---- bounds ----
    pub fn get_bound(&self, s: SymId) -> Bound {
        if let Some(b) = self.bound.get(&s) {
            return b.clone();
        }
        match sym_kind(s) {
            SymKind::Child(p, v, f) => {
                match self.get_bound(p) {
                    Bound::Vars(m) => match m.get(&v) {
                        Some(fs) => fs.get(f as usize).cloned().unwrap_or(Bound::Top),
                        None => Bound::Top,
                    },
                    Bound::Arr(v) => v.get(f as usize).cloned().unwrap_or(Bound::Lost),
                    Bound::Lost => Bound::Lost,
                    Bound::Seq(b) => b.elem,
                    _ => Bound::Top,
                }
            }
            SymKind::Attr(p, Attr::Char) => match self.get_bound(p) {
                Bound::Punct(c, _) => *c,
                Bound::Lost => Bound::Lost,
                _ => Bound::Top,
            },
            SymKind::Attr(p, Attr::Spacing) => match self.get_bound(p) {
                Bound::Punct(_, c) => *c,
                Bound::Lost => Bound::Lost,
                _ => Bound::Top,
            },
            SymKind::Attr(p, Attr::Delim) => match self.get_bound(p) {
                Bound::Group(c, _) => *c,
                Bound::Lost => Bound::Lost,
                _ => Bound::Top,
            },
            SymKind::Attr(_, Attr::Idx) => Bound::Ints { lo: 0, hi: IMAX, not: BTreeSet::new() },
            SymKind::Head(x) => {
                let b = self.get_sbound(x);
                if b.head == Bound::Top || (b.head == Bound::Lost && !b.elem.is_top()) {
                    b.elem
                } else {
                    b.head
                }
            }
            SymKind::Last(x) => self.get_sbound(x).elem,
            _ => Bound::Top,
        }
    }
    pub fn get_sbound(&self, s: SubId) -> SeqBound {
        let n = SMALL.with(|n| n.get());
        if n != NOT_SMALL && beyond(s, n) {
            return SeqBound { cons_ok: false, ..SeqBound::any() };
        }
        if let Some(b) = self.sbound.get(&s) {
            return b.clone();
        }
        if let Some((x, right)) = cut_of(s) {
            let b = self.get_sbound(x);
            return SeqBound { elem: b.elem, top: b.top, empty_ok: right, ..SeqBound::any() };
        }
        if let Some(k) = fixed_len(s) {
            let (SubKind::Tail(p) | SubKind::Init(p)) = sub_kind(s) else { unreachable!() };
            let b = self.get_sbound(p);
            return SeqBound { elem: b.elem, top: b.top, empty_ok: k == 0, cons_ok: k > 0, ..SeqBound::any() };
        }
        match sub_kind(s) {
            SubKind::OfSym(p) => match self.get_bound(p).as_seq() {
                Bound::Seq(b) => *b,
                Bound::Lost => SeqBound::lost(),
                _ => SeqBound::any(),
            },
            SubKind::Content(g) => match self.get_bound(g) {
                Bound::Group(_, b) => *b,
                Bound::Lost => SeqBound::lost(),
                _ => SeqBound::any(),
            },
            SubKind::Tail(p) | SubKind::Init(p) => {
                let b = self.get_sbound(p);
                SeqBound { elem: b.elem, top: b.top, ..SeqBound::any() }
            }
            SubKind::Fresh(_) | SubKind::Mapped(..) => SeqBound::any(),
        }
    }
    /// What is known about a value, as a bound.
    pub fn bound_of(&self, v: &Val, depth: u32) -> Bound {
        if depth == 0 {
            return Bound::Lost;
        }
        match v {
            Val::Agg(k, fs) => {
                Bound::Vars([(*k, fs.iter().map(|f| self.bound_of(f, depth - 1)).collect())].into_iter().collect())
            }
            Val::Int(i) => Bound::int(*i),
            Val::Lin(l) => {
                let (lo, hi) = self.lin_range(l);
                Bound::Ints { lo, hi, not: BTreeSet::new() }
            }
            Val::Str(s) => match &**s {
                StrV::Const(s) => Bound::text(s),
                StrV::OfSym(s) => self.text_bound(*s),
                _ => Bound::Lost,
            },
            Val::Ref(Ptr::Imm(x)) => self.bound_of(x, depth),
            Val::Sym(s) => {
                let i = sinfo(*s);
                match i.as_ref().map(|i| &i.tk) {
                    Some(TK::Ident) | Some(TK::Literal) => return self.text_bound(*s),
                    Some(TK::Punct) => {
                        return Bound::Punct(
                            Box::new(self.bound_of(&self.punct_ch(v), depth)),
                            Box::new(self.bound_of(&self.punct_sp(v), depth)),
                        )
                    }
                    Some(TK::Group) => {
                        return Bound::Group(
                            Box::new(self.bound_of(&self.group_delim(v), depth)),
                            Box::new(self.seq_bound(&self.group_inner(v), depth - 1)),
                        )
                    }
                    _ => {}
                }
                match self.exp.get(s) {
                    Some(Known::Int(i)) => return Bound::int(*i),
                    Some(Known::Text(t)) => return Bound::text(t),
                    Some(Known::Variant(k)) => {
                        let n = i.map_or(0, |i| i.vars[*k as usize].len());
                        return Bound::Vars(
                            [(*k, (0..n).map(|f| self.bound_of(&child_val(*s, *k, f as u32), depth - 1)).collect())]
                                .into_iter()
                                .collect(),
                        );
                    }
                    None => {}
                }
                if is_structlike(*s) {
                    let n = i.map_or(0, |i| i.vars[0].len());
                    return Bound::Vars(
                        [(0, (0..n).map(|f| self.bound_of(&child_val(*s, 0, f as u32), depth - 1)).collect())]
                            .into_iter()
                            .collect(),
                    );
                }
                self.get_bound(*s)
            }
            Val::Tok(t) => match &**t {
                TokV::Ident { text: StrV::Const(s), .. } => Bound::text(s),
                TokV::Ident { text: StrV::OfSym(s), .. } => self.text_bound(*s),
                TokV::Punct { ch, sp, .. } => {
                    Bound::Punct(Box::new(self.bound_of(ch, depth)), Box::new(self.bound_of(sp, depth)))
                }
                TokV::Group { delim, inner, .. } => {
                    Bound::Group(Box::new(self.bound_of(delim, depth)), Box::new(self.seq_bound(inner, depth - 1)))
                }
                TokV::Respan { base, .. } => self.bound_of(&Val::Sym(*base), depth),
                _ => Bound::Lost,
            },
            Val::List(n) => {
                let n = self.flat(n);
                if (1..=4).contains(&n.len()) && n.iter().all(|x| matches!(x, Node::Elem(_))) {
                    return Bound::Arr(
                        n.iter()
                            .map(|x| match x {
                                Node::Elem(v) => self.bound_of(v, depth - 1),
                                _ => Bound::Lost,
                            })
                            .collect(),
                    );
                }
                Bound::Seq(Box::new(self.seq_bound(&n, depth)))
            }
            Val::Span(_) => Bound::Top,
            _ => Bound::Lost,
        }
    }
    pub fn text_bound(&self, s: SymId) -> Bound {
        match self.exp.get(&s) {
            Some(Known::Text(t)) => Bound::text(t),
            _ => self.get_bound(s),
        }
    }
    pub fn seq_bound(&self, nodes: &[Node], depth: u32) -> SeqBound {
        let n = self.flat(nodes);
        if n.is_empty() {
            return SeqBound::empty();
        }
        if n.len() == 1 {
            if let Node::Sub(s) = &n[0] {
                return self.get_sbound(*s);
            }
        }
        let mut r = SeqBound { empty_ok: true, ..SeqBound::any() };
        let mut first = true;
        let mut head_done = false;
        for x in &n {
            let (e, h) = match x {
                Node::Elem(v) => {
                    r.empty_ok = false;
                    let b = self.bound_of(v, depth);
                    (b.clone(), Some(b))
                }
                Node::Sub(s) => {
                    let b = self.get_sbound(*s);
                    (b.elem, None)
                }
                Node::Map(m, u) => {
                    let eb = self.get_sbound(*u).elem;
                    let mut e: Option<Bound> = None;
                    let mut one = true;
                    for (g, ns) in &m.cases {
                        let mut t = self.clone();
                        t.bound.insert(m.formal, eb.clone());
                        if !g.iter().all(|a| t.assume(a)) {
                            continue;
                        }
                        if ns.len() != 1 {
                            one = false;
                        }
                        for n in ns {
                            let b = match n {
                                Node::Elem(v) => t.bound_of(v, depth),
                                _ => Bound::Lost,
                            };
                            e = Some(match e {
                                None => b,
                                Some(x) => x.join(&b),
                            });
                        }
                    }
                    if one && !self.get_sbound(*u).empty_ok {
                        r.empty_ok = false;
                    }
                    (e.unwrap_or(Bound::Lost), None)
                }
                Node::Print(s) => {
                    if self.nonempty_print.contains(s) {
                        r.empty_ok = false;
                    }
                    (Bound::Lost, None)
                }
                _ => (Bound::Lost, None),
            };
            if first {
                r.elem = e;
                if let Some(h) = h {
                    r.head = h;
                    head_done = true;
                }
            } else {
                r.elem = r.elem.join(&e);
            }
            first = false;
        }
        if !head_done {
            r.head = Bound::Top;
        }
        r
    }

    // ---- assumptions ----
    fn origin(&self, a: &Assume) -> String {
        let mut r = String::new();
        let mut x = match a {
            Assume::Variant(s, _) | Assume::IntEq(s, _) | Assume::IntNotIn(s, _) | Assume::IntLe(s, _) | Assume::IntGe(s, _)
            | Assume::TextEq(s, _) | Assume::TextNe(s, _) => Ok(*s),
            Assume::Empty(s) | Assume::Cons(s) | Assume::Snoc(s) => Err(*s),
            _ => return r,
        };
        for _ in 0..30 {
            match x {
                Ok(s) => {
                    r += &format!(" {:?}", sym_kind(s));
                    if self.bound.contains_key(&s) {
                        r += "*";
                    }
                    x = match sym_kind(s) {
                        SymKind::Child(p, ..) | SymKind::Attr(p, _) => Ok(p),
                        SymKind::Head(u) | SymKind::Last(u) => Err(u),
                        _ => break,
                    };
                }
                Err(u) => {
                    r += &format!(" {:?} {:?}", sub_kind(u), self.get_sbound(u));
                    if self.sbound.contains_key(&u) {
                        r += "*";
                    }
                    x = match sub_kind(u) {
                        SubKind::OfSym(p) | SubKind::Content(p) => Ok(p),
                        SubKind::Tail(p) | SubKind::Init(p) => Err(p),
                        _ => break,
                    };
                }
            }
        }
        r
    }
    /// Returns false when the assumption contradicts what is known.
    pub fn assume(&mut self, a: &Assume) -> bool {
        let lost = match a {
            Assume::Variant(s, _) | Assume::IntEq(s, _) | Assume::IntNotIn(s, _) | Assume::IntLe(s, _) | Assume::IntGe(s, _) => {
                !self.exp.contains_key(s) && self.get_bound(*s) == Bound::Lost
            }
            Assume::TextEq(s, _) | Assume::TextNe(s, _) => !self.exp.contains_key(s) && self.get_bound(*s) == Bound::Lost,
            Assume::Empty(s) | Assume::Cons(s) | Assume::Snoc(s) => {
                !self.seqexp.contains_key(s) && {
                    let b = self.get_sbound(*s);
                    b.elem == Bound::Lost && b.head.is_top()
                }
            }
            _ => false,
        };
        if lost {
            if !self.lost && std::env::var("VABS_LOST").is_ok() {
                eprintln!("LOST {:?} {}", a, self.origin(a));
            }
            self.lost = true;
        }
        match a {
            Assume::Variant(s, v) => {
                match self.exp.get(s) {
                    Some(Known::Variant(k)) => return k == v,
                    Some(_) => return false,
                    None => {}
                }
                if !self.get_bound(*s).allows_var(*v) {
                    return false;
                }
                self.exp.insert(*s, Known::Variant(*v));
                true
            }
            Assume::IntEq(s, i) => {
                if let Some(k) = self.exp.get(s) {
                    return *k == Known::Int(*i);
                }
                if !self.get_bound(*s).allows_int(*i) {
                    return false;
                }
                self.exp.insert(*s, Known::Int(*i));
                if let SymKind::Op(_, vs, _) = sym_kind(*s) {
                    if matches!(vs[..], [Val::Str(_), Val::Str(_)]) {
                        self.text_facts.push_back(*s);
                    }
                }
                true
            }
            Assume::IntNotIn(s, v) => {
                if let Some(Known::Int(k)) = self.exp.get(s) {
                    return !v.contains(k);
                }
                let b = match self.get_bound(*s) {
                    Bound::Set(mut x) => {
                        for i in v {
                            x.remove(i);
                        }
                        if x.is_empty() {
                            return false;
                        }
                        if x.len() == 1 {
                            let i = *x.iter().next().unwrap();
                            self.exp.insert(*s, Known::Int(i));
                        }
                        Bound::Set(x)
                    }
                    Bound::Ints { mut lo, mut hi, mut not } => {
                        not.extend(v.iter().cloned());
                        while not.contains(&lo) && lo <= hi {
                            not.remove(&lo);
                            lo += 1;
                        }
                        while not.contains(&hi) && lo <= hi {
                            not.remove(&hi);
                            hi -= 1;
                        }
                        if lo > hi {
                            return false;
                        }
                        Bound::Ints { lo, hi, not }
                    }
                    _ => {
                        if matches!(sinfo(*s).map(|i| i.tk.clone()), Some(TK::Bool)) {
                            let rest: Vec<i128> = [0, 1].into_iter().filter(|x| !v.contains(x)).collect();
                            if rest.is_empty() {
                                return false;
                            }
                            if rest.len() == 1 {
                                self.exp.insert(*s, Known::Int(rest[0]));
                                return true;
                            }
                        }
                        Bound::Ints { lo: -IMAX, hi: IMAX, not: v.iter().cloned().collect() }
                    }
                };
                self.bound.insert(*s, b);
                true
            }
            Assume::IntLe(s, k) | Assume::IntGe(s, k) => {
                let le = matches!(a, Assume::IntLe(..));
                if let Some(Known::Int(i)) = self.exp.get(s) {
                    return if le { i <= k } else { i >= k };
                }
                let b = match self.get_bound(*s) {
                    Bound::Set(x) => {
                        let x: BTreeSet<i128> = x.into_iter().filter(|i| if le { i <= k } else { i >= k }).collect();
                        if x.is_empty() {
                            return false;
                        }
                        Bound::Set(x)
                    }
                    Bound::Ints { mut lo, mut hi, not } => {
                        if le {
                            hi = hi.min(*k)
                        } else {
                            lo = lo.max(*k)
                        }
                        while not.contains(&lo) && lo <= hi {
                            lo += 1;
                        }
                        while not.contains(&hi) && lo <= hi {
                            hi -= 1;
                        }
                        if lo > hi {
                            return false;
                        }
                        if lo == hi {
                            self.exp.insert(*s, Known::Int(lo));
                        }
                        Bound::Ints { lo, hi, not }
                    }
                    _ => {
                        let (lo, hi) = if le { (-IMAX, *k) } else { (*k, IMAX) };
                        Bound::Ints { lo, hi, not: BTreeSet::new() }
                    }
                };
                self.bound.insert(*s, b);
                true
            }
            Assume::TextEq(s, t) => {
                if let Some(k) = self.exp.get(s) {
                    return *k == Known::Text(t.clone());
                }
                if !self.get_bound(*s).allows_text(t) {
                    return false;
                }
                self.exp.insert(*s, Known::Text(t.clone()));
                true
            }
            Assume::TextNe(s, t) => {
                if let Some(Known::Text(k)) = self.exp.get(s) {
                    return k != t;
                }
                let b = match self.get_bound(*s) {
                    Bound::Text { neg: true, mut set } => {
                        set.insert(t.clone());
                        Bound::Text { neg: true, set }
                    }
                    Bound::Text { neg: false, mut set } => {
                        set.remove(t);
                        if set.is_empty() {
                            return false;
                        }
                        if set.len() == 1 {
                            self.exp.insert(*s, Known::Text(set.iter().next().unwrap().clone()));
                        }
                        Bound::Text { neg: false, set }
                    }
                    _ => Bound::Text { neg: true, set: [t.clone()].into_iter().collect() },
                };
                self.bound.insert(*s, b);
                true
            }
            Assume::Empty(s) => {
                if let Some(n) = self.seqexp.get(s) {
                    let n = n.clone();
                    return self.assume_empty_nodes(&n);
                }
                if !self.get_sbound(*s).empty_ok {
                    return false;
                }
                self.seqexp.insert(*s, Rc::new(vec![]));
                true
            }
            Assume::Cons(s) => {
                if self.seqexp.contains_key(s) {
                    return !self.flat(&[Node::Sub(*s)]).is_empty();
                }
                if !self.get_sbound(*s).cons_ok {
                    return false;
                }
                let h = val_of_sym(head(*s));
                self.seqexp.insert(*s, Rc::new(vec![Node::Elem(h), Node::Sub(tail(*s))]));
                true
            }
            Assume::Snoc(s) => {
                if self.seqexp.contains_key(s) {
                    return !self.flat(&[Node::Sub(*s)]).is_empty();
                }
                if !self.get_sbound(*s).cons_ok {
                    return false;
                }
                let h = val_of_sym(last(*s));
                self.seqexp.insert(*s, Rc::new(vec![Node::Sub(init(*s)), Node::Elem(h)]));
                true
            }
            Assume::Exp(s, n) => {
                if self.seqexp.contains_key(s) {
                    return true;
                }
                self.seqexp.insert(*s, Rc::new(n.clone()));
                true
            }
            Assume::SBound(s, b) => {
                self.sbound.insert(*s, (**b).clone());
                true
            }
            Assume::All(v) => v.iter().all(|a| self.assume(a)),
            Assume::Choice(_) => true,
        }
    }
    fn assume_empty_nodes(&mut self, n: &[Node]) -> bool {
        for x in n {
            match x {
                Node::Sub(s) | Node::PrintEach(s) | Node::Map(_, s) => {
                    if !self.assume(&Assume::Empty(*s)) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
        true
    }

    // ---- token parts ----
    pub fn punct_ch(&self, v: &Val) -> Val {
        match v {
            Val::Sym(s) => Val::Sym(mk_sym(SymKind::Attr(*s, Attr::Char), named("char"))),
            Val::Tok(t) => match &**t {
                TokV::Punct { ch, .. } => ch.clone(),
                TokV::Respan { base, .. } => self.punct_ch(&Val::Sym(*base)),
                _ => Val::Opaque(fresh_id()),
            },
            _ => Val::Opaque(fresh_id()),
        }
    }
    pub fn punct_sp(&self, v: &Val) -> Val {
        match v {
            Val::Sym(s) => Val::Sym(mk_sym(SymKind::Attr(*s, Attr::Spacing), named("spacing"))),
            Val::Tok(t) => match &**t {
                TokV::Punct { sp, .. } => sp.clone(),
                TokV::Respan { base, .. } => self.punct_sp(&Val::Sym(*base)),
                _ => Val::Opaque(fresh_id()),
            },
            _ => Val::Opaque(fresh_id()),
        }
    }
    pub fn group_delim(&self, v: &Val) -> Val {
        match v {
            Val::Sym(s) => Val::Sym(mk_sym(SymKind::Attr(*s, Attr::Delim), named("delim"))),
            Val::Tok(t) => match &**t {
                TokV::Group { delim, .. } => delim.clone(),
                TokV::Respan { base, .. } => self.group_delim(&Val::Sym(*base)),
                _ => Val::Opaque(fresh_id()),
            },
            _ => Val::Opaque(fresh_id()),
        }
    }
    pub fn group_inner(&self, v: &Val) -> Vec<Node> {
        match v {
            Val::Sym(s) => vec![Node::Sub(mk_sub(SubKind::Content(*s), tt_ty()))],
            Val::Tok(t) => match &**t {
                TokV::Group { inner, .. } => inner.clone(),
                TokV::Respan { base, .. } => self.group_inner(&Val::Sym(*base)),
                _ => vec![Node::Opq(fresh_id())],
            },
            _ => vec![Node::Opq(fresh_id())],
        }
    }
    pub fn tok_span(&self, v: &Val) -> SpanV {
        match v {
            Val::Sym(s) => {
                // a token tree has the span of the token in it
                if let Some(Known::Variant(k)) = self.exp.get(s) {
                    if is_enumlike(*s) {
                        return self.tok_span(&child_val(*s, *k, 0));
                    }
                }
                SpanV::Of(*s)
            }
            Val::Agg(_, f) if f.len() == 1 => self.tok_span(&f[0]),
            Val::Tok(t) => match &**t {
                TokV::Ident { span, .. }
                | TokV::Punct { span, .. }
                | TokV::Group { span, .. }
                | TokV::Lit { span, .. }
                | TokV::Respan { span, .. } => span.clone(),
            },
            _ => SpanV::Sym(fresh_sym(None, "span")),
        }
    }

    // ---- structure ----
    /// (variant, fields) of an aggregate-like value, if determined.
    pub fn as_agg(&self, v: &Val) -> Option<(u32, Vec<Val>)> {
        match v {
            Val::Agg(k, f) => Some((*k, f.to_vec())),
            Val::Sym(s) => {
                let k = if is_structlike(*s) {
                    0
                } else if is_enumlike(*s) {
                    match self.exp.get(s) {
                        Some(Known::Variant(k)) => *k,
                        _ => return None,
                    }
                } else {
                    return None;
                };
                let n = sinfo(*s)?.vars.get(k as usize)?.len();
                Some((k, (0..n).map(|i| child_val(*s, k, i as u32)).collect()))
            }
            _ => None,
        }
    }
    pub fn variant_of(&self, v: &Val) -> R<u32> {
        match v {
            Val::Agg(k, _) => Ok(*k),
            Val::Sym(s) => {
                if is_structlike(*s) {
                    return Ok(0);
                }
                match self.exp.get(s) {
                    Some(Known::Variant(k)) => return Ok(*k),
                    Some(_) => return bad("variant of scalar"),
                    None => {}
                }
                let Some(i) = sinfo(*s) else { return bad("variant of untyped symbol") };
                if i.vars.is_empty() {
                    return bad(format!("variant of {:?}", i.tk));
                }
                let b = self.get_bound(*s);
                let al: Vec<u32> = (0..i.vars.len() as u32).filter(|k| b.allows_var(*k)).collect();
                if al.is_empty() {
                    return Err(Stop::Dead);
                }
                Err(Stop::Fork(al.into_iter().map(|k| Assume::Variant(*s, k)).collect()))
            }
            _ => bad(format!("variant of {:?}", v)),
        }
    }
    pub fn field(&self, v: &Val, variant: Option<u32>, f: u32) -> R<Val> {
        match v {
            Val::Agg(k, fs) => {
                if let Some(w) = variant {
                    if w != *k {
                        return bad("field of other variant");
                    }
                }
                fs.get(f as usize).cloned().map_or_else(|| bad("no such field"), Ok)
            }
            Val::Sym(s) => {
                let k = match variant {
                    Some(k) => {
                        if is_enumlike(*s) {
                            let have = self.variant_of(v)?;
                            if have != k {
                                return Err(Stop::Dead);
                            }
                        }
                        k
                    }
                    None => 0,
                };
                if !is_structlike(*s) && !is_enumlike(*s) {
                    return bad(format!("field of symbol {:?}", sinfo(*s).map(|i| i.tk.clone())));
                }
                Ok(child_val(*s, k, f))
            }
            Val::Opaque(_) => Ok(Val::Opaque(fresh_id())),
            Val::Uninit => Ok(Val::Uninit),
            Val::Ref(Ptr::Imm(_)) | Val::Ref(_) => Ok(v.clone()),
            _ => bad(format!("field of {:?}", v)),
        }
    }

    // ---- lists ----
    /// Replace expanded sub-sequences by their expansion.
    pub fn flat(&self, nodes: &[Node]) -> Vec<Node> {
        let mut out = Vec::with_capacity(nodes.len());
        self.flat_into(nodes, &mut out);
        out
    }
    fn flat_into(&self, nodes: &[Node], out: &mut Vec<Node>) {
        for n in nodes {
            match n {
                Node::Sub(s) => match self.seqexp.get(s) {
                    Some(x) => {
                        let x = x.clone();
                        self.flat_into(&x, out)
                    }
                    None => out.push(n.clone()),
                },
                Node::PrintEach(s) => match self.seqexp.get(s) {
                    Some(x) => {
                        for y in x.iter() {
                            match y {
                                Node::Elem(v) => match self.print_simple(v) {
                                    Some(p) => self.flat_into(&p, out),
                                    None => out.push(Node::Opq(u32::MAX)),
                                },
                                Node::Sub(t) => self.flat_into(&[Node::PrintEach(*t)], out),
                                _ => out.push(Node::Opq(u32::MAX)),
                            }
                        }
                    }
                    None => out.push(n.clone()),
                },
                Node::Print(s) => {
                    if let Some(x) = self.pexp.get(s) {
                        let x = x.clone();
                        self.flat_into(&x, out);
                    } else if let Some(p) = self.print_opt(*s) {
                        self.flat_into(&p, out);
                    } else {
                        out.push(n.clone());
                    }
                }
                _ => out.push(n.clone()),
            }
        }
    }
    /// Option symbols whose variant is known print as nothing / their content.
    fn print_opt(&self, s: SymId) -> Option<Vec<Node>> {
        let i = sinfo(s)?;
        if let TK::Adt { name, .. } = &i.tk {
            if name.ends_with("option::Option") {
                return match self.exp.get(&s) {
                    Some(Known::Variant(0)) => Some(vec![]),
                    Some(Known::Variant(1)) => self.print_simple(&child_val(s, 1, 0)),
                    _ => None,
                };
            }
        }
        None
    }
    /// Printed form of symbols, tokens, tuples of those.
    pub fn print_simple(&self, v: &Val) -> Option<Vec<Node>> {
        match v {
            Val::Sym(s) => {
                let i = sinfo(*s)?;
                Some(match &i.tk {
                    TK::Group => vec![Node::Elem(Val::agg(0, vec![v.clone()]))],
                    TK::Ident => vec![Node::Elem(Val::agg(1, vec![v.clone()]))],
                    TK::Punct => vec![Node::Elem(Val::agg(2, vec![v.clone()]))],
                    TK::Literal => vec![Node::Elem(Val::agg(3, vec![v.clone()]))],
                    TK::Adt { name, .. } if &**name == "proc_macro2::TokenTree" => vec![Node::Elem(v.clone())],
                    TK::Adt { .. } => vec![Node::Print(*s)],
                    _ => return None,
                })
            }
            Val::Tok(t) => {
                let k = match &**t {
                    TokV::Group { .. } => 0,
                    TokV::Ident { .. } => 1,
                    TokV::Punct { .. } => 2,
                    TokV::Lit { .. } => 3,
                    TokV::Respan { base, .. } => match sinfo(*base).map(|i| i.tk.clone()) {
                        Some(TK::Group) => 0,
                        Some(TK::Ident) => 1,
                        Some(TK::Punct) => 2,
                        _ => 3,
                    },
                };
                Some(vec![Node::Elem(Val::agg(k, vec![v.clone()]))])
            }
            // pairs of a list with separators
            Val::Agg(0, f) if f.len() == 2 => {
                let mut n = self.print_simple(&f[0])?;
                n.extend(self.print_simple(&f[1])?);
                Some(n)
            }
            _ => None,
        }
    }
    pub fn split_first(&self, s: SubId) -> Stop {
        let b = self.get_sbound(s);
        let mut v = vec![];
        if b.empty_ok {
            v.push(Assume::Empty(s));
        }
        if b.cons_ok {
            v.push(Assume::Cons(s));
        }
        if v.is_empty() {
            Stop::Dead
        } else {
            Stop::Fork(v)
        }
    }
    pub fn split_last(&self, s: SubId) -> Stop {
        let b = self.get_sbound(s);
        let mut v = vec![];
        if b.empty_ok {
            v.push(Assume::Empty(s));
        }
        if b.cons_ok {
            v.push(Assume::Snoc(s));
        }
        if v.is_empty() {
            Stop::Dead
        } else {
            Stop::Fork(v)
        }
    }
    /// First element and the remaining nodes.
    pub fn uncons(&self, nodes: &[Node]) -> R<Option<(Val, Vec<Node>)>> {
        let n = self.flat(nodes);
        match n.first() {
            None => Ok(None),
            Some(Node::Elem(v)) => Ok(Some((v.clone(), n[1..].to_vec()))),
            Some(Node::Sub(s)) => Err(self.split_first(*s)),
            Some(Node::PrintEach(s)) => Err(self.split_first(*s)),
            Some(Node::Print(s)) => Err(Stop::NeedPrint(*s)),
            Some(Node::Map(m, s)) => self.step_map(m, *s, &n[1..], true),
            Some(Node::Pend(_)) => bad("reads what earlier iterations appended"),
            Some(Node::Opq(_)) => bad("reads unknown list"),
        }
    }
    pub fn unsnoc(&self, nodes: &[Node]) -> R<Option<(Val, Vec<Node>)>> {
        let n = self.flat(nodes);
        match n.last() {
            None => Ok(None),
            Some(Node::Elem(v)) => Ok(Some((v.clone(), n[..n.len() - 1].to_vec()))),
            Some(Node::Sub(s)) => Err(self.split_last(*s)),
            Some(Node::PrintEach(s)) => Err(self.split_last(*s)),
            Some(Node::Print(s)) => Err(Stop::NeedPrint(*s)),
            Some(Node::Map(m, s)) => {
                if self.map_unfold(m, *s, false)?.is_none() {
                    return self.unsnoc(&n[..n.len() - 1]);
                }
                let r = self.step_map(m, *s, &[], false)?;
                Ok(r.map(|(v, mut mid)| {
                    let mut x = n[..n.len() - 1].to_vec();
                    x.append(&mut mid);
                    (v, x)
                }))
            }
            Some(Node::Pend(_)) => bad("reads what earlier iterations appended"),
            Some(Node::Opq(_)) => bad("reads unknown list"),
        }
    }
    fn step_map(&self, m: &Rc<MapRec>, s: SubId, rest: &[Node], front: bool) -> R<Option<(Val, Vec<Node>)>> {
        match self.map_unfold(m, s, front)? {
            None => {
                if front {
                    self.uncons(rest)
                } else {
                    Ok(None)
                }
            }
            Some(n) => {
                if front {
                    let mut n = n;
                    n.extend(rest.iter().cloned());
                    self.uncons(&n)
                } else {
                    self.unsnoc(&n)
                }
            }
        }
    }
    /// Unfold one mapped element. The mapped sub-sequence must be expanded (forks otherwise).
    /// None: no element is left.
    pub fn map_unfold(&self, m: &Rc<MapRec>, s: SubId, front: bool) -> R<Option<Vec<Node>>> {
        let all_empty = m.cases.iter().any(|c| c.1.is_empty());
        let Some(x) = self.seqexp.get(&s) else {
            if all_empty && self.only_empty_cases(m, s)? {
                return Ok(None);
            }
            if all_empty && m.cases.iter().any(|c| !c.1.is_empty()) && SMALL.with(|n| n.get()) == NOT_SMALL {
                // first (last) element that contributes
                return Err(self.split_contrib(m, s, front));
            }
            return Err(if front { self.split_first(s) } else { self.split_last(s) });
        };
        let x = self.flat(x);
        if x.is_empty() {
            return Ok(None);
        }
        let mut out = vec![];
        for y in &x {
            match y {
                Node::Sub(t) => {
                    // all elements of t contribute nothing?
                    if all_empty && self.only_empty_cases(m, *t)? {
                        continue;
                    }
                    out.push(Node::Map(m.clone(), *t));
                }
                Node::Elem(v) => {
                    let n = self.map_apply(m, v)?;
                    out.extend(n);
                }
                Node::Map(m2, t) => {
                    // map over a mapped list: identity maps only
                    let _ = (m2, t);
                    return bad("map of map");
                }
                _ => return bad("map over printed list"),
            }
        }
        if out.is_empty() {
            return Ok(None);
        }
        if out.len() == 1 {
            if let Node::Map(m2, t) = &out[0] {
                return self.map_unfold(&m2.clone(), *t, front);
            }
        }
        Ok(Some(out))
    }
    fn only_empty_cases(&self, m: &Rc<MapRec>, t: SubId) -> R<bool> {
        // with the element bound of t, which cases are feasible?
        let probe = mk_sym(SymKind::Head(t), sub_ty(t));
        let mut any = false;
        for (g, n) in &m.cases {
            if n.is_empty() {
                continue;
            }
            let mut st = self.clone();
            let b = self.get_sbound(t).elem;
            st.bound.insert(probe, b);
            if g.iter().all(|a| crate::subst::assume(a, m.formal, &val_of_sym(probe)).map_or(false, |l| l.iter().all(|a| st.assume(a)))) {
                any = true;
            }
        }
        Ok(!any)
    }
    fn split_contrib(&self, m: &Rc<MapRec>, s: SubId, front: bool) -> Stop {
        let b = self.get_sbound(s);
        // bound of the elements that contribute nothing
        let mut zero: Option<Bound> = None;
        let probe = fresh_sym(sub_ty(s), "e");
        for (g, n) in &m.cases {
            if !n.is_empty() {
                continue;
            }
            let mut st = self.clone();
            st.bound.insert(probe, b.elem.clone());
            let ok = g.iter().all(|a| {
                crate::subst::assume(a, m.formal, &val_of_sym(probe)).map_or(true, |l| l.iter().all(|a| st.assume(a)))
            });
            if ok {
                let x = st.bound_of(&val_of_sym(probe), 6);
                zero = Some(match zero {
                    None => x,
                    Some(z) => z.join(&x),
                });
            }
        }
        let key = crate::val::mk_sym(SymKind::Op(Rc::from("split"), vec![Val::Int(s as i128), Val::Int(front as i128)], 0), None);
        let mk = |i: u32| mk_sub(SubKind::OfSym(crate::val::mk_sym(SymKind::Child(key, 9, i), None)), sub_ty(s));
        let (a, c) = (mk(0), mk(1));
        let mut forks = vec![];
        if let Some(z) = &zero {
            if b.empty_ok || b.cons_ok {
                let a = Assume::SBound(s, Box::new(SeqBound { elem: z.clone(), head: Bound::Top, ..b.clone() }));
                let mut st = self.clone();
                if st.assume(&a) && !matches!(st.only_empty_cases(m, s), Ok(true)) {
                    // the elements that contribute nothing cannot be described
                    return Stop::Bad("filtered list".into());
                }
                forks.push(a);
            }
        }
        let h = val_of_sym(head(c));
        let zsub = if zero.is_some() { vec![Node::Sub(a)] } else { vec![] };
        let mut e = vec![];
        if front {
            e.extend(zsub);
            e.push(Node::Elem(h.clone()));
            e.push(Node::Sub(tail(c)));
        } else {
            e.push(Node::Sub(tail(c)));
            e.push(Node::Elem(h.clone()));
            e.extend(zsub);
        }
        for (g, n) in &m.cases {
            if n.is_empty() {
                continue;
            }
            let mut all = vec![];
            if let Some(z) = &zero {
                all.push(Assume::SBound(a, Box::new(SeqBound { elem: z.clone(), ..SeqBound::any() })));
            }
            all.push(Assume::SBound(c, Box::new(SeqBound { elem: b.elem.clone(), ..SeqBound::any() })));
            all.push(Assume::Exp(s, e.clone()));
            let mut ok = true;
            for x in g {
                match crate::subst::assume(x, m.formal, &h) {
                    Some(l) => all.extend(l),
                    None => ok = false,
                }
            }
            if ok {
                forks.push(Assume::All(all));
            }
        }
        Stop::Fork(forks)
    }
    /// The nodes a mapped element contributes; forks on the guards when undecided.
    pub fn map_apply(&self, m: &Rc<MapRec>, v: &Val) -> R<Vec<Node>> {
        let mut live = vec![];
        for (g, n) in &m.cases {
            let mut st = self.clone();
            let mut ok = true;
            let mut need = vec![];
            for a in g {
                match crate::subst::assume(a, m.formal, v) {
                    Some(l) => {
                        for a in l {
                            let before = (st.exp.clone(), st.bound.clone(), st.seqexp.clone());
                            if !st.assume(&a) {
                                ok = false;
                            } else if !(before.0.ptr_eq(&st.exp) && before.1.ptr_eq(&st.bound) && before.2.ptr_eq(&st.seqexp)) {
                                need.push(a);
                            }
                        }
                    }
                    None => ok = false,
                }
            }
            if ok {
                live.push((need, n));
            }
        }
        match live.len() {
            0 => Err(Stop::Dead),
            _ => {
                if live.len() == 1 || live[0].0.is_empty() {
                    let n = live[0].1;
                    return crate::subst::nodes(n, m.formal, v).map_or_else(|| bad("map substitution"), Ok);
                }
                // fork on the first undecided guard of the first case
                let a = live[0].0[0].clone();
                Err(Stop::Fork(self.alternatives(&a)))
            }
        }
    }
    /// An assumption and its complement.
    pub fn alternatives(&self, a: &Assume) -> Vec<Assume> {
        match a {
            Assume::Variant(s, _) => match self.variant_of(&Val::Sym(*s)) {
                Err(Stop::Fork(f)) => f,
                _ => vec![a.clone()],
            },
            Assume::IntEq(s, i) => vec![a.clone(), Assume::IntNotIn(*s, vec![*i])],
            Assume::IntNotIn(s, v) => {
                let mut r = vec![a.clone()];
                r.extend(v.iter().map(|i| Assume::IntEq(*s, *i)));
                r
            }
            Assume::IntLe(s, k) => vec![a.clone(), Assume::IntGe(*s, k + 1)],
            Assume::IntGe(s, k) => vec![a.clone(), Assume::IntLe(*s, k - 1)],
            Assume::TextEq(s, t) => vec![a.clone(), Assume::TextNe(*s, t.clone())],
            Assume::TextNe(s, t) => vec![a.clone(), Assume::TextEq(*s, t.clone())],
            Assume::Empty(s) => vec![a.clone(), Assume::Cons(*s)],
            Assume::Cons(s) => vec![a.clone(), Assume::Empty(*s)],
            Assume::Snoc(s) => vec![a.clone(), Assume::Empty(*s)],
            _ => vec![a.clone()],
        }
    }
    pub fn list_len(&self, nodes: &[Node]) -> R<Lin> {
        let n = self.flat(nodes);
        let mut l = Lin::default();
        for x in &n {
            match x {
                Node::Elem(_) => l.c += 1,
                Node::Sub(s) if fixed_len(*s).is_some() => l.c += fixed_len(*s).unwrap(),
                Node::Sub(s) => l = l.add(&Lin { lens: [(*s, 1)].into_iter().collect(), ..Default::default() }, 1),
                Node::Map(m, s) => {
                    let k = m.cases[0].1.len();
                    if m.cases.iter().all(|c| c.1.len() == k && c.1.iter().all(|n| matches!(n, Node::Elem(_)))) {
                        if let Some(n) = fixed_len(*s) {
                            l.c += n * k as i128;
                            continue;
                        }
                        l = l.add(&Lin { lens: [(*s, k as i128)].into_iter().collect(), ..Default::default() }, 1);
                    } else {
                        match self.map_unfold(m, *s, true) {
                            Ok(None) => {}
                            Ok(Some(n2)) => l = l.add(&self.list_len(&n2)?, 1),
                            Err(Stop::Fork(_)) => {
                                let x = mk_sub(SubKind::Mapped(m.clone(), *s), None);
                                l = l.add(&Lin { lens: [(x, 1)].into_iter().collect(), ..Default::default() }, 1);
                            }
                            Err(e) => return Err(e),
                        }
                    }
                }
                Node::PrintEach(s) => return Err(self.split_first(*s)),
                Node::Print(s) => return Err(Stop::NeedPrint(*s)),
                Node::Pend(_) => return bad("reads what earlier iterations appended"),
                Node::Opq(_) => return bad("length of unknown list"),
            }
        }
        Ok(l)
    }
    /// Normalise a linear term with what is known.
    pub fn lin(&self, v: &Val) -> R<Lin> {
        match v {
            Val::Int(i) => Ok(Lin::c(*i)),
            Val::Sym(s) => match self.exp.get(s) {
                Some(Known::Int(i)) => Ok(Lin::c(*i)),
                _ => {
                    if let SymKind::Attr(h, Attr::Idx) = sym_kind(*s) {
                        if let Some(l) = self.idx_of(h) {
                            return Ok(l);
                        }
                    }
                    Ok(Lin::sym(*s))
                }
            },
            Val::Lin(l) => {
                let mut r = Lin::c(l.c);
                for (s, k) in &l.syms {
                    r = r.add(&self.lin(&Val::Sym(*s))?, *k);
                }
                for (s, k) in &l.lens {
                    let n = match sub_kind(*s) {
                        SubKind::Mapped(m, s) => Node::Map(m, s),
                        _ => Node::Sub(*s),
                    };
                    r = r.add(&self.list_len(&[n])?, *k);
                }
                Ok(r)
            }
            _ => bad(format!("not an integer: {:?}", v)),
        }
    }
    fn idx_of(&self, h: SymId) -> Option<Lin> {
        // position of a list element in its original list
        let SymKind::Head(mut s) = sym_kind(h) else { return None };
        let mut k = 0;
        loop {
            match sub_kind(s) {
                SubKind::Tail(p) => {
                    k += 1;
                    s = p;
                }
                SubKind::Fresh(_) | SubKind::Mapped(..) => return None,
                _ => match cut_of(s) {
                    None => return Some(Lin::c(k)),
                    Some((x, right)) => {
                        if right {
                            let SubKind::OfSym(q) = sub_kind(s) else { unreachable!() };
                            let SymKind::Op(_, v, _) = sym_kind(q) else { unreachable!() };
                            let Val::Int(n) = v[0] else { unreachable!() };
                            k += n;
                        }
                        s = x;
                    }
                },
            }
        }
    }
    /// Whether a list is longer than a constant: the list is cut there (one split, whatever the constant).
    fn longer(&self, s: SubId, k: i128) -> R<bool> {
        let v = vec![Val::Int(k), Val::Int(s as i128)];
        let q = mk_sym(SymKind::Op(Rc::from("longer"), v.clone(), 0), None);
        match self.exp.get(&q) {
            Some(Known::Int(i)) => Ok(*i != 0),
            _ => {
                let half = |n: &str| mk_sub(SubKind::OfSym(mk_sym(SymKind::Op(Rc::from(n), v.clone(), 0), None)), sub_ty(s));
                let (a, b) = (half("cutL"), half("cutR"));
                Err(Stop::Fork(vec![
                    Assume::All(vec![Assume::IntEq(q, 1), Assume::Exp(s, vec![Node::Sub(a), Node::Sub(b)]), Assume::Cons(b)]),
                    Assume::IntEq(q, 0),
                ]))
            }
        }
    }
    pub fn lin_range(&self, l: &Lin) -> (i128, i128) {
        let (mut lo, mut hi) = (l.c, l.c);
        for (s, k) in &l.syms {
            let (a, b) = match self.exp.get(s) {
                Some(Known::Int(i)) => (*i, *i),
                _ => match self.get_bound(*s) {
                    Bound::Set(x) => (*x.iter().next().unwrap_or(&-IMAX), *x.iter().last().unwrap_or(&IMAX)),
                    Bound::Ints { lo, hi, .. } => (lo, hi),
                    _ => (-IMAX, IMAX),
                },
            };
            let (a, b) = if *k >= 0 { (a, b) } else { (b, a) };
            lo = (lo + a.saturating_mul(*k)).max(-IMAX);
            hi = (hi + b.saturating_mul(*k)).min(IMAX);
        }
        for (s, k) in &l.lens {
            let b = self.get_sbound(*s);
            let mn = if b.empty_ok { 0 } else { 1 };
            let mx = if b.cons_ok { IMAX } else { 0 };
            let (a, b) = if *k >= 0 { (mn, mx) } else { (mx, mn) };
            lo = (lo + (a as i128).saturating_mul(*k)).max(-IMAX);
            hi = (hi + (b as i128).saturating_mul(*k)).min(IMAX);
        }
        (lo, hi)
    }
    /// Truth of `l OP 0` for OP in == < <=; forks when undecided.
    pub fn lin_cmp(&self, l: &Lin, op: &str) -> R<bool> {
        let mut l2 = l.clone();
        for (s, k) in &l.syms {
            if let SymKind::Attr(h, Attr::Idx) = sym_kind(*s) {
                if let Some(x) = self.before.get(&h) {
                    l2.syms.remove(s);
                    l2 = l2.add(&self.list_len(&[Node::Sub(*x)])?, *k);
                }
            }
        }
        let l = &l2;
        let (lo, hi) = self.lin_range(l);
        match op {
            "eq" => {
                if lo == 0 && hi == 0 {
                    return Ok(true);
                }
                if lo > 0 || hi < 0 {
                    return Ok(false);
                }
            }
            "lt" => {
                if hi < 0 {
                    return Ok(true);
                }
                if lo >= 0 {
                    return Ok(false);
                }
            }
            _ => {
                if hi <= 0 {
                    return Ok(true);
                }
                if lo > 0 {
                    return Ok(false);
                }
            }
        }
        if let Some((s, _)) = l.lens.iter().next() {
            if let SubKind::Mapped(m, s) = sub_kind(*s) {
                return match self.map_unfold(&m, s, true) {
                    Err(e) => Err(e),
                    Ok(_) => bad("length of filtered list"),
                };
            }
            if l.syms.is_empty() && l.lens.len() == 1 && SMALL.with(|n| n.get()) == NOT_SMALL {
                let (s, k) = l.lens.iter().next().unwrap();
                if (*k == 1 && l.c <= -CUT) || (*k == -1 && l.c >= CUT) {
                    // k*len + c OP 0
                    return match (op, *k) {
                        ("eq", _) => self.longer(*s, l.c.abs() - 1).and_then(|b| if b { bad("length after a cut") } else { Ok(false) }),
                        ("lt", 1) => Ok(!self.longer(*s, -l.c - 1)?),
                        ("lt", _) => self.longer(*s, l.c),
                        (_, 1) => Ok(!self.longer(*s, -l.c)?),
                        _ => self.longer(*s, l.c - 1),
                    };
                }
            }
            return Err(self.split_first(*s));
        }
        if l.syms.len() == 1 {
            let (s, k) = l.syms.iter().next().unwrap();
            // k*s + c OP 0
            if *k == 1 || *k == -1 {
                let z = if *k == 1 { -l.c } else { l.c };
                if op == "eq" && !self.get_bound(*s).allows_int(z) {
                    return Ok(false);
                }
                return match op {
                    "eq" => Err(Stop::Fork(vec![Assume::IntEq(*s, z), Assume::IntNotIn(*s, vec![z])])),
                    "lt" => Err(Stop::Fork(if *k == 1 {
                        vec![Assume::IntLe(*s, z - 1), Assume::IntGe(*s, z)]
                    } else {
                        vec![Assume::IntGe(*s, z + 1), Assume::IntLe(*s, z)]
                    })),
                    _ => Err(Stop::Fork(if *k == 1 {
                        vec![Assume::IntLe(*s, z), Assume::IntGe(*s, z + 1)]
                    } else {
                        vec![Assume::IntGe(*s, z), Assume::IntLe(*s, z - 1)]
                    })),
                };
            }
        }
        bad("undecided integer comparison")
    }
    pub fn as_int(&self, v: &Val) -> Option<i128> {
        match v {
            Val::Int(i) => Some(*i),
            Val::Sym(s) => match self.exp.get(s) {
                Some(Known::Int(i)) => Some(*i),
                Some(Known::Variant(k)) => Some(*k as i128),
                _ => None,
            },
            Val::Lin(_) => match self.lin(v) {
                Ok(l) if l.syms.is_empty() && l.lens.is_empty() => Some(l.c),
                _ => None,
            },
            _ => None,
        }
    }
}
