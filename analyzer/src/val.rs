//! Abstract values: terms over symbols that stand for arbitrary input parts, and token/list nodes.
use rustc_public::mir::mono::Instance;
use rustc_public::ty::Ty;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type SymId = u32;
pub type SubId = u32;
pub type CellId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Uninit,
    /// struct (variant 0), enum, tuple, closure
    Agg(u32, Rc<Vec<Val>>),
    Int(i128),
    Lin(Rc<Lin>),
    Sym(SymId),
    Str(Rc<StrV>),
    Ref(Ptr),
    /// Vec, slice, array, TokenStream
    List(Rc<Vec<Node>>),
    /// iterator over a list; `by_ref`: yields references
    Iter(Rc<IterV>),
    Span(Rc<SpanV>),
    /// synthesized token (Ident / Punct / Group / Literal value)
    Tok(Rc<TokV>),
    FnPtr(Instance),
    /// value about which nothing is known; never compared equal
    Opaque(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct IterV {
    pub nodes: Vec<Node>,
    pub by_ref: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Lin {
    pub syms: BTreeMap<SymId, i128>,
    pub lens: BTreeMap<SubId, i128>,
    pub c: i128,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum StrV {
    Const(Rc<str>),
    /// text of an Ident / Literal token, or an arbitrary string symbol
    OfSym(SymId),
    OfInt(Val),
    /// Display of an arbitrary value
    Display(Val),
    Concat(Vec<StrV>),
    Fresh(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SpanV {
    Of(SymId),
    CallSite,
    MixedSite,
    Sym(SymId),
    Join(Rc<SpanV>, Rc<SpanV>),
    /// span covering a printed token list
    Over(Vec<Node>),
    Other(Rc<SpanV>, &'static str),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TokV {
    Ident { text: StrV, span: SpanV },
    Punct { ch: Val, sp: Val, span: SpanV },
    Group { delim: Val, inner: Vec<Node>, span: SpanV },
    Lit { text: StrV, span: SpanV },
    Respan { base: SymId, span: SpanV },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ptr {
    Place(CellId, Rc<Vec<Proj>>),
    Imm(Rc<Val>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Proj {
    /// (variant, field)
    F(u32, u32),
    /// list element (node index: all nodes before are single elements)
    I(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Elem(Val),
    Sub(SubId),
    /// the tokens printed for a symbolic value
    Print(SymId),
    /// the tokens printed for each element of a symbolic list
    PrintEach(SubId),
    Map(Rc<MapRec>, SubId),
    /// placeholder for what previous loop iterations appended
    Pend(u32),
    /// unknown nodes
    Opq(u32),
}

/// One list element is mapped to the nodes of the case whose guards it satisfies.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MapRec {
    pub formal: SymId,
    pub cases: Vec<(Vec<Assume>, Vec<Node>)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Assume {
    Variant(SymId, u32),
    IntEq(SymId, i128),
    IntNotIn(SymId, Vec<i128>),
    IntLe(SymId, i128),
    IntGe(SymId, i128),
    TextEq(SymId, Rc<str>),
    TextNe(SymId, Rc<str>),
    Empty(SubId),
    Cons(SubId),
    Snoc(SubId),
    /// arbitrary expansion
    Exp(SubId, Vec<Node>),
    SBound(SubId, Box<SeqBound>),
    All(Vec<Assume>),
    /// free choice between outcomes that the analysis cannot relate
    Choice(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Bound {
    Top,
    /// anything, because the analysis no longer knows
    Lost,
    Vars(BTreeMap<u32, Vec<Bound>>),
    Ints { lo: i128, hi: i128, not: BTreeSet<i128> },
    Set(BTreeSet<i128>),
    Text { neg: bool, set: BTreeSet<Rc<str>> },
    Punct(Box<Bound>, Box<Bound>),
    Group(Box<Bound>, Box<SeqBound>),
    Seq(Box<SeqBound>),
    /// a list of known length
    Arr(Vec<Bound>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SeqBound {
    pub empty_ok: bool,
    pub cons_ok: bool,
    pub head: Bound,
    pub elem: Bound,
    /// tokens that may appear outside all angle brackets (only for accumulated token lists)
    pub top: Bound,
    /// angle depth at the end: Some(true) = certainly 0; Some(false) = may be nonzero; None = unknown
    pub depth0: Option<bool>,
}

impl SeqBound {
    pub fn any() -> SeqBound {
        SeqBound { empty_ok: true, cons_ok: true, head: Bound::Top, elem: Bound::Top, top: Bound::Top, depth0: None }
    }
    pub fn lost() -> SeqBound {
        SeqBound { elem: Bound::Lost, ..SeqBound::any() }
    }
    pub fn empty() -> SeqBound {
        SeqBound { empty_ok: true, cons_ok: false, head: Bound::Top, elem: Bound::Top, top: Bound::Top, depth0: Some(true) }
    }
    pub fn join(&self, o: &SeqBound) -> SeqBound {
        let d = match (self.depth0, o.depth0) {
            (Some(a), Some(b)) => Some(a && b),
            _ => None,
        };
        if !self.cons_ok {
            return SeqBound { empty_ok: self.empty_ok | o.empty_ok, depth0: d, ..o.clone() };
        }
        if !o.cons_ok {
            return SeqBound { empty_ok: self.empty_ok | o.empty_ok, depth0: d, ..self.clone() };
        }
        SeqBound {
            empty_ok: self.empty_ok | o.empty_ok,
            cons_ok: true,
            head: self.head.join(&o.head),
            elem: self.elem.join(&o.elem),
            top: self.top.join(&o.top),
            depth0: d,
        }
    }
}

impl Bound {
    pub fn text(s: &str) -> Bound {
        Bound::Text { neg: false, set: [Rc::from(s)].into_iter().collect() }
    }
    pub fn int(i: i128) -> Bound {
        Bound::Set([i].into_iter().collect())
    }
    /// least upper bound (exact where the representation allows)
    pub fn join(&self, o: &Bound) -> Bound {
        use Bound::*;
        match (self, o) {
            (Top, _) | (_, Top) => Top,
            (Lost, _) | (_, Lost) => Lost,
            (Vars(a), Vars(b)) => {
                let mut r = a.clone();
                for (k, fs) in b {
                    match r.get_mut(k) {
                        None => {
                            r.insert(*k, fs.clone());
                        }
                        Some(x) => {
                            for i in 0..x.len().min(fs.len()) {
                                x[i] = x[i].join(&fs[i]);
                            }
                        }
                    }
                }
                Vars(r)
            }
            (Set(a), Set(b)) => Set(a | b),
            (Vars(v), Set(a)) | (Set(a), Vars(v)) if v.values().all(|f| f.is_empty()) => {
                Set(v.keys().map(|k| *k as i128).chain(a.iter().cloned()).collect())
            }
            (Set(a), Ints { lo, hi, not }) | (Ints { lo, hi, not }, Set(a)) => {
                let mut lo = *lo;
                let mut hi = *hi;
                for x in a {
                    lo = lo.min(*x);
                    hi = hi.max(*x);
                }
                Ints { lo, hi, not: not.iter().filter(|x| !a.contains(x)).cloned().collect() }
            }
            (Ints { lo, hi, not }, Ints { lo: l2, hi: h2, not: n2 }) => {
                Ints { lo: *lo.min(l2), hi: *hi.max(h2), not: not & n2 }
            }
            (Text { neg: n1, set: a }, Text { neg: n2, set: b }) => match (n1, n2) {
                (false, false) => Text { neg: false, set: a | b },
                (true, true) => Text { neg: true, set: a & b },
                (true, false) => Text { neg: true, set: a - b },
                (false, true) => Text { neg: true, set: b - a },
            },
            (Punct(a, b), Punct(c, d)) => {
                // exact when one component agrees; otherwise an upper bound
                Punct(Box::new(a.join(c)), Box::new(b.join(d)))
            }
            (Group(a, b), Group(c, d)) => Group(Box::new(a.join(c)), Box::new(b.join(d))),
            (Seq(a), Seq(b)) => Seq(Box::new(a.join(b))),
            (Arr(a), Arr(b)) if a.len() == b.len() => Arr(a.iter().zip(b).map(|(x, y)| x.join(y)).collect()),
            (Arr(_), Arr(_)) | (Arr(_), Seq(_)) | (Seq(_), Arr(_)) => self.as_seq().join(&o.as_seq()),
            _ => Lost,
        }
    }
    pub fn as_seq(&self) -> Bound {
        match self {
            Bound::Arr(v) => Bound::Seq(Box::new(match v.split_first() {
                None => SeqBound::empty(),
                Some((h, t)) => SeqBound {
                    empty_ok: false,
                    cons_ok: true,
                    head: h.clone(),
                    elem: t.iter().fold(h.clone(), |a, b| a.join(b)),
                    ..SeqBound::any()
                },
            })),
            b => b.clone(),
        }
    }
    pub fn is_top(&self) -> bool {
        matches!(self, Bound::Top | Bound::Lost)
    }
    pub fn allows_int(&self, i: i128) -> bool {
        match self {
            Bound::Set(s) => s.contains(&i),
            Bound::Ints { lo, hi, not } => *lo <= i && i <= *hi && !not.contains(&i),
            Bound::Vars(m) => m.contains_key(&(i as u32)),
            _ => true,
        }
    }
    pub fn allows_text(&self, s: &str) -> bool {
        match self {
            Bound::Text { neg, set } => set.contains(s) != *neg,
            _ => true,
        }
    }
    pub fn allows_var(&self, v: u32) -> bool {
        match self {
            Bound::Vars(m) => m.contains_key(&v),
            Bound::Set(m) => m.contains(&(v as i128)),
            _ => true,
        }
    }
}

impl Lin {
    pub fn c(c: i128) -> Lin {
        Lin { c, ..Default::default() }
    }
    pub fn sym(s: SymId) -> Lin {
        let mut l = Lin::default();
        l.syms.insert(s, 1);
        l
    }
    pub fn add(&self, o: &Lin, k: i128) -> Lin {
        let mut r = self.clone();
        for (s, n) in &o.syms {
            let e = r.syms.entry(*s).or_insert(0);
            *e += n * k;
            if *e == 0 {
                r.syms.remove(s);
            }
        }
        for (s, n) in &o.lens {
            let e = r.lens.entry(*s).or_insert(0);
            *e += n * k;
            if *e == 0 {
                r.lens.remove(s);
            }
        }
        r.c += o.c * k;
        r
    }
    pub fn to_val(self) -> Val {
        if self.syms.is_empty() && self.lens.is_empty() {
            return Val::Int(self.c);
        }
        if self.lens.is_empty() && self.c == 0 && self.syms.len() == 1 {
            let (s, n) = self.syms.iter().next().unwrap();
            if *n == 1 {
                return Val::Sym(*s);
            }
        }
        Val::Lin(Rc::new(self))
    }
}

impl Val {
    pub fn unit() -> Val {
        Val::Agg(0, Rc::new(vec![]))
    }
    pub fn agg(v: u32, f: Vec<Val>) -> Val {
        Val::Agg(v, Rc::new(f))
    }
    pub fn none() -> Val {
        Val::agg(0, vec![])
    }
    pub fn some(v: Val) -> Val {
        Val::agg(1, vec![v])
    }
    pub fn bool(b: bool) -> Val {
        Val::Int(b as i128)
    }
    pub fn imm(v: Val) -> Val {
        Val::Ref(Ptr::Imm(Rc::new(v)))
    }
    pub fn str(s: &str) -> Val {
        Val::Str(Rc::new(StrV::Const(Rc::from(s))))
    }
    pub fn list(n: Vec<Node>) -> Val {
        Val::List(Rc::new(n))
    }
    pub fn place(c: CellId) -> Val {
        Val::Ref(Ptr::Place(c, Rc::new(vec![])))
    }
}

// ---- symbol tables ----

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Attr {
    Char,
    Spacing,
    Delim,
    Idx,
    Span,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SymKind {
    Root(u32, Rc<str>),
    Child(SymId, u32, u32),
    Attr(SymId, Attr),
    Head(SubId),
    Last(SubId),
    Formal(Ty, u32),
    /// unknown outcome of an operation on these values (same operands, same symbol)
    Op(Rc<str>, Vec<Val>, u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SubKind {
    OfSym(SymId),
    Content(SymId),
    Tail(SubId),
    Init(SubId),
    Fresh(u32),
    /// a mapped (filtered) list, for its length only
    Mapped(Rc<MapRec>, SubId),
}

#[derive(Default)]
pub struct Tables {
    pub syms: Vec<(SymKind, Option<Ty>)>,
    pub sym_ix: std::collections::HashMap<SymKind, SymId>,
    pub subs: Vec<(SubKind, Option<Ty>)>,
    pub sub_ix: std::collections::HashMap<SubKind, SubId>,
    pub next: u32,
    /// a fresh remainder of a longer list
    pub origin: std::collections::HashMap<SubId, SubId>,
}

thread_local! {
    pub static TB: std::cell::RefCell<Tables> = Default::default();
}

pub fn fresh_id() -> u32 {
    TB.with(|t| {
        let mut t = t.borrow_mut();
        t.next += 1;
        t.next
    })
}
pub fn mk_sym(k: SymKind, ty: Option<Ty>) -> SymId {
    TB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(i) = t.sym_ix.get(&k) {
            return *i;
        }
        let id = t.syms.len() as SymId;
        t.syms.push((k.clone(), ty));
        t.sym_ix.insert(k, id);
        id
    })
}
pub fn mk_sub(k: SubKind, ty: Option<Ty>) -> SubId {
    TB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(i) = t.sub_ix.get(&k) {
            return *i;
        }
        let id = t.subs.len() as SubId;
        t.subs.push((k.clone(), ty));
        t.sub_ix.insert(k, id);
        id
    })
}
pub fn fresh_sym(ty: Option<Ty>, label: &str) -> SymId {
    mk_sym(SymKind::Root(fresh_id(), Rc::from(label)), ty)
}
pub fn fresh_sub(ty: Option<Ty>) -> SubId {
    mk_sub(SubKind::Fresh(fresh_id()), ty)
}
pub fn sym_kind(s: SymId) -> SymKind {
    TB.with(|t| t.borrow().syms[s as usize].0.clone())
}
pub fn sym_ty(s: SymId) -> Option<Ty> {
    TB.with(|t| t.borrow().syms[s as usize].1)
}
pub fn sub_kind(s: SubId) -> SubKind {
    TB.with(|t| t.borrow().subs[s as usize].0.clone())
}
pub fn sub_ty(s: SubId) -> Option<Ty> {
    TB.with(|t| t.borrow().subs[s as usize].1)
}
pub fn head(s: SubId) -> SymId {
    mk_sym(SymKind::Head(s), sub_ty(s))
}
pub fn tail(s: SubId) -> SubId {
    mk_sub(SubKind::Tail(s), sub_ty(s))
}
pub fn last(s: SubId) -> SymId {
    mk_sym(SymKind::Last(s), sub_ty(s))
}
pub fn init(s: SubId) -> SubId {
    mk_sub(SubKind::Init(s), sub_ty(s))
}

pub fn rest_of(s: SubId, t: SubId) {
    TB.with(|b| b.borrow_mut().origin.insert(t, s));
}
/// Is this symbol (part of) a token of a root stream, outside all groups?
pub fn top_level(s: SymId) -> bool {
    enum X {
        Y(SymId),
        U(SubId),
    }
    let mut x = X::Y(s);
    for _ in 0..10000 {
        x = match x {
            X::Y(s) => match sym_kind(s) {
                SymKind::Child(p, ..) => X::Y(p),
                SymKind::Head(u) | SymKind::Last(u) => X::U(u),
                _ => return false,
            },
            X::U(u) => match sub_kind(u) {
                SubKind::Tail(p) | SubKind::Init(p) => X::U(p),
                SubKind::OfSym(r) => return matches!(sym_kind(r), SymKind::Root(..)),
                SubKind::Fresh(_) => match TB.with(|b| b.borrow().origin.get(&u).cloned()) {
                    Some(p) => X::U(p),
                    None => return false,
                },
                _ => return false,
            },
        }
    }
    false
}
