//! The interpreter proper: abstract execution of MIR bodies over the token domain.
use crate::models::{self, M};
use crate::state::*;
use crate::types::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use crate::rustc_public_bridge::IndexedVal;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub enum End {
    Ret(Val),
    Panic(String),
    Undecided(String),
}
pub struct Out {
    pub st: State,
    pub end: End,
}

pub struct BodyInfo {
    pub inst: Instance,
    pub name: String,
    pub krate: String,
    pub body: Body,
    pub live: Vec<HashSet<usize>>,
    /// loop header -> blocks of the natural loop
    pub loops: BTreeMap<usize, HashSet<usize>>,
    pub loc: String,
}

pub struct Roots {
    pub prev: Option<Rc<Roots>>,
    pub cells: Vec<CellId>,
}

pub struct Frame {
    pub b: Rc<BodyInfo>,
    pub cells: Vec<CellId>,
    pub roots: Option<Rc<Roots>>,
    pub depth: usize,
    pub stack: Rc<Stack>,
}
pub struct Stack {
    pub prev: Option<Rc<Stack>>,
    pub inst: Instance,
    pub name: String,
    /// the list its token cursor stood at
    pub cursor: Option<SubId>,
    /// called where the caller's cursor stood at its start
    pub at_start: bool,
    /// the plain arguments (flags, numbers)
    pub flags: Vec<Option<i128>>,
}

#[derive(Default)]
pub struct RegionOut {
    pub back: Vec<State>,
    pub exits: Vec<(usize, State)>,
    pub ends: Vec<Out>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub calls: u64,
    pub forks: u64,
    pub loops_m: u64,
    pub loops_p: u64,
    pub loops_unrolled: u64,
    pub merges: u64,
    /// loop iterations not followed (beyond the unrolling bound)
    pub cut: u64,
    pub panics: u64,
    pub fns: std::collections::BTreeSet<String>,
    pub undecided: BTreeMap<String, u64>,
}

pub struct Ix {
    pub bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    pub shims: HashMap<String, FnDef>,
    pub stats: Stats,
    pub deadline: Instant,
    pub mem_limit: u64,
    pub step_limit: u64,
    pub ticks: u64,
    pub expired: bool,
    pub reports: Vec<crate::Report>,
    pub strict: bool,
    pub trace: bool,
    pub obligations: u64,
    pub obl_by: std::collections::BTreeMap<String, u64>,
    pub recursion: Vec<(Instance, String)>,
    pub loop_depth: usize,
    pub parse_mode: bool,
    /// inputs of bounded size: paths are enumerated, nothing is joined
    pub small: bool,
    /// Long inputs: loops may be unrolled further.
    pub deep: bool,
    pub drop_panics: bool,
    pub no_merge: usize,
    pub harness: String,
    /// outcomes of functions at an arbitrary position
    pub sums: crate::merge::Sums,
    pub start_next: bool,
    pub prof: HashMap<String, (u64, u64, f64)>,
    /// words left to other harnesses when they occur outside all groups
    pub prune: HashSet<String>,
}

fn successors(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn op_use(o: &Operand, s: &mut HashSet<usize>) {
    if let Operand::Copy(p) | Operand::Move(p) = o {
        place_use(p, s);
    }
}
fn place_use(p: &Place, s: &mut HashSet<usize>) {
    s.insert(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            s.insert(*l);
        }
    }
}
fn rv_use(r: &Rvalue, s: &mut HashSet<usize>) {
    match r {
        Rvalue::AddressOf(_, p)
        | Rvalue::CopyForDeref(p)
        | Rvalue::Discriminant(p)
        | Rvalue::Len(p)
        | Rvalue::Ref(_, _, p)
        | Rvalue::Reborrow(_, _, p) => place_use(p, s),
        Rvalue::Aggregate(_, os) => os.iter().for_each(|o| op_use(o, s)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op_use(a, s);
            op_use(b, s);
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => op_use(o, s),
        Rvalue::ThreadLocalRef(_) => {}
    }
}

impl BodyInfo {
    pub fn new(inst: Instance) -> Option<BodyInfo> {
        let body = inst.body()?;
        let n = body.blocks.len();
        // liveness
        let mut live: Vec<HashSet<usize>> = vec![HashSet::new(); n];
        loop {
            let mut ch = false;
            for i in (0..n).rev() {
                let bb = &body.blocks[i];
                let mut s: HashSet<usize> = HashSet::new();
                for t in successors(&bb.terminator.kind) {
                    s.extend(live[t].iter().cloned());
                }
                match &bb.terminator.kind {
                    TerminatorKind::Return => {
                        s.insert(0);
                    }
                    TerminatorKind::SwitchInt { discr, .. } => op_use(discr, &mut s),
                    TerminatorKind::Assert { cond, .. } => op_use(cond, &mut s),
                    TerminatorKind::Call { func, args, destination, .. } => {
                        if destination.projection.is_empty() {
                            s.remove(&destination.local);
                        } else {
                            place_use(destination, &mut s);
                        }
                        op_use(func, &mut s);
                        for a in args {
                            op_use(a, &mut s);
                        }
                    }
                    _ => {}
                }
                for st in bb.statements.iter().rev() {
                    match &st.kind {
                        StatementKind::Assign(p, r) => {
                            if p.projection.is_empty() {
                                s.remove(&p.local);
                            } else {
                                place_use(p, &mut s);
                            }
                            rv_use(r, &mut s);
                        }
                        StatementKind::SetDiscriminant { place, .. } => place_use(place, &mut s),
                        StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                            s.remove(l);
                        }
                        _ => {}
                    }
                }
                if s != live[i] {
                    live[i] = s;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // dominators and natural loops
        let succ: Vec<Vec<usize>> = body.blocks.iter().map(|b| successors(&b.terminator.kind)).collect();
        let mut reach = vec![false; n];
        let mut order = vec![];
        fn dfs(i: usize, succ: &[Vec<usize>], reach: &mut [bool], order: &mut Vec<usize>) {
            reach[i] = true;
            for &j in &succ[i] {
                if !reach[j] {
                    dfs(j, succ, reach, order);
                }
            }
            order.push(i);
        }
        dfs(0, &succ, &mut reach, &mut order);
        order.reverse();
        let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..n {
            if reach[i] {
                for &j in &succ[i] {
                    pred[j].push(i);
                }
            }
        }
        let all: HashSet<usize> = order.iter().cloned().collect();
        let mut dom: Vec<HashSet<usize>> = vec![all; n];
        dom[0] = [0].into_iter().collect();
        loop {
            let mut ch = false;
            for &i in &order {
                if i == 0 {
                    continue;
                }
                let mut d: Option<HashSet<usize>> = None;
                for &p in &pred[i] {
                    d = Some(match d {
                        None => dom[p].clone(),
                        Some(x) => x.intersection(&dom[p]).cloned().collect(),
                    });
                }
                let mut d = d.unwrap_or_default();
                d.insert(i);
                if d != dom[i] {
                    dom[i] = d;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut loops: BTreeMap<usize, HashSet<usize>> = BTreeMap::new();
        for &i in &order {
            for &h in &succ[i] {
                if dom[i].contains(&h) {
                    let e = loops.entry(h).or_default();
                    e.insert(h);
                    let mut wl = vec![i];
                    while let Some(x) = wl.pop() {
                        if e.insert(x) {
                            wl.extend(pred[x].iter().cloned());
                        }
                    }
                }
            }
        }
        let name = inst.name().to_string();
        let sp = inst.def.span();
        let loc = format!("{}:{}", sp.get_filename(), sp.get_lines().start_line);
        Some(BodyInfo { inst, name, krate: inst.def.krate().name.to_string(), body, live, loops, loc })
    }
}

pub enum Loc {
    Cell(CellId, Vec<Proj>),
    Val(Val),
}

fn transparent(ty: Ty) -> bool {
    let n = adt_name(ty);
    n.ends_with("ManuallyDrop") || n.ends_with("MaybeUninit") || n.ends_with("MaybeDangling")
}

pub fn read_path(st: &State, v: &Val, p: &[Proj]) -> R<Val> {
    let mut v = v.clone();
    for e in p {
        v = match e {
            Proj::F(k, f) => st.field(&v, Some(*k), *f)?,
            Proj::I(i) => match &v {
                Val::List(n) => match n.get(*i as usize) {
                    Some(Node::Elem(x)) => x.clone(),
                    _ => return bad("stale element reference"),
                },
                _ => return bad("element of non-list"),
            },
        };
    }
    Ok(v)
}
pub fn write_path(st: &State, v: &Val, p: &[Proj], new: Val) -> R<Val> {
    let Some(e) = p.first() else { return Ok(new) };
    match e {
        Proj::F(k, f) => {
            let (kk, mut fs) = match v {
                Val::Uninit => (*k, vec![]),
                Val::Sym(_) => {
                    st.variant_of(v)?;
                    match st.as_agg(v) {
                        Some(x) => x,
                        None => return bad("write into symbol"),
                    }
                }
                Val::Agg(a, fs) => (*a, fs.to_vec()),
                Val::Ref(Ptr::Imm(x)) => return Ok(Val::imm(write_path(st, x, p, new)?)),
                _ => return bad(format!("write into {:?}", v)),
            };
            while fs.len() <= *f as usize {
                fs.push(Val::Uninit);
            }
            fs[*f as usize] = write_path(st, &fs[*f as usize], &p[1..], new)?;
            Ok(Val::agg(if matches!(v, Val::Uninit) { *k } else { kk }, fs))
        }
        Proj::I(i) => match v {
            Val::List(n) => {
                let mut n = n.to_vec();
                match n.get(*i as usize).cloned() {
                    Some(Node::Elem(x)) => {
                        n[*i as usize] = Node::Elem(write_path(st, &x, &p[1..], new)?);
                        Ok(Val::list(n))
                    }
                    _ => bad("stale element reference"),
                }
            }
            _ => bad("element of non-list"),
        },
    }
}

impl State {
    pub fn cell(&self, c: CellId) -> Val {
        self.cells.get(&c).cloned().unwrap_or(Val::Uninit)
    }
    pub fn read_ptr(&self, p: &Ptr) -> R<Val> {
        match p {
            Ptr::Imm(v) => Ok((**v).clone()),
            Ptr::Place(c, pr) => read_path(self, &self.cell(*c), pr),
        }
    }
    /// Follow all references.
    pub fn deref(&self, v: &Val) -> R<Val> {
        let mut v = v.clone();
        while let Val::Ref(p) = &v {
            v = self.read_ptr(p)?;
        }
        Ok(v)
    }
    pub fn deref1(&self, v: &Val) -> R<Val> {
        match v {
            Val::Ref(p) => self.read_ptr(p),
            _ => bad(format!("deref of {:?}", v)),
        }
    }
    pub fn write_ptr(&mut self, p: &Ptr, v: Val) -> R<()> {
        match p {
            Ptr::Place(c, pr) => {
                let n = write_path(self, &self.cell(*c), pr, v)?;
                self.cells.insert(*c, n);
                Ok(())
            }
            Ptr::Imm(_) => bad("write through shared reference"),
        }
    }
    /// Follow references until the pointee is not a reference; used to mutate through `&mut &mut T`.
    pub fn innermost(&self, v: &Val) -> R<Ptr> {
        let Val::Ref(p) = v else { return bad("not a reference") };
        let mut p = p.clone();
        loop {
            match self.read_ptr(&p)? {
                Val::Ref(q) => p = q,
                _ => return Ok(p),
            }
        }
    }
}

impl Ix {
    pub fn body(&mut self, inst: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&inst) {
            return b.clone();
        }
        let b = if inst.has_body() { BodyInfo::new(inst).map(Rc::new) } else { None };
        self.bodies.insert(inst, b.clone());
        b
    }

    pub fn loc(&mut self, st: &State, fr: &Frame, place: &Place) -> R<Loc> {
        let mut l = Loc::Cell(fr.cells[place.local], vec![]);
        let mut ty = fr.b.body.locals()[place.local].ty;
        let mut var: Option<u32> = None;
        for e in &place.projection {
            match e {
                ProjectionElem::Deref => {
                    let v = self.read_loc(st, &l)?;
                    l = match v {
                        Val::Ref(Ptr::Place(c, p)) => Loc::Cell(c, p.to_vec()),
                        Val::Ref(Ptr::Imm(v)) => Loc::Val((*v).clone()),
                        Val::Opaque(_) => Loc::Val(Val::Opaque(fresh_id())),
                        v => return bad(format!("deref of {:?}", v)),
                    };
                }
                ProjectionElem::Downcast(v) => {
                    var = Some(v.to_index() as u32);
                }
                ProjectionElem::Field(i, _) => {
                    if !transparent(ty) && !matches!(info(ty).tk, TK::Box(_)) {
                        l = match l {
                            Loc::Cell(c, mut p) => {
                                p.push(Proj::F(var.unwrap_or(0), *i as u32));
                                Loc::Cell(c, p)
                            }
                            Loc::Val(v) => Loc::Val(st.field(&v, Some(var.unwrap_or(0)), *i as u32)?),
                        };
                    }
                    var = None;
                }
                ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } => {
                    let lv = self.read_loc(st, &l)?;
                    let Val::List(n) = &lv else { return bad(format!("index into {:?}", lv)) };
                    let k = match e {
                        ProjectionElem::Index(loc) => st.lin(&st.cell(fr.cells[*loc]))?,
                        ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                            if *from_end {
                                st.list_len(n)?.add(&Lin::c(*offset as i128), -1)
                            } else {
                                Lin::c(*offset as i128)
                            }
                        }
                        _ => unreachable!(),
                    };
                    let v = models::nth(st, n, &k)?;
                    let Some(v) = v else { return Err(Stop::Panic("index out of bounds".into())) };
                    let mut done = false;
                    if let Loc::Cell(c, p) = &l {
                        if k.syms.is_empty() && k.lens.is_empty() && k.c >= 0 {
                            let i = k.c as usize;
                            if n.len() > i && n[..=i].iter().all(|x| matches!(x, Node::Elem(_))) {
                                let mut p = p.clone();
                                p.push(Proj::I(i as u32));
                                l = Loc::Cell(*c, p);
                                done = true;
                            }
                        }
                    }
                    if !done {
                        l = Loc::Val(v);
                    }
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let lv = self.read_loc(st, &l)?;
                    let Val::List(n) = &lv else { return bad("subslice of non-list") };
                    let end = if *from_end {
                        st.list_len(n)?.add(&Lin::c(*to as i128), -1)
                    } else {
                        Lin::c(*to as i128)
                    };
                    let n = models::prefix(st, n, &end)?;
                    let n = models::suffix(st, &n, &Lin::c(*from as i128))?;
                    l = Loc::Val(Val::list(n));
                }
                _ => {}
            }
            if !matches!(e, ProjectionElem::Downcast(_)) {
                ty = match e.ty(ty) {
                    Ok(t) => t,
                    Err(_) => match e {
                        ProjectionElem::Field(_, t) => *t,
                        _ => return bad("place type"),
                    },
                };
            }
            if let ProjectionElem::Field(_, t) = e {
                ty = *t;
            }
        }
        Ok(l)
    }
    pub fn read_loc(&mut self, st: &State, l: &Loc) -> R<Val> {
        match l {
            Loc::Cell(c, p) => read_path(st, &st.cell(*c), p),
            Loc::Val(v) => Ok(v.clone()),
        }
    }
    pub fn write_place(&mut self, st: &mut State, fr: &Frame, place: &Place, v: Val) -> R<()> {
        if place.projection.is_empty() {
            st.cells.insert(fr.cells[place.local], v);
            return Ok(());
        }
        match self.loc(st, fr, place)? {
            Loc::Cell(c, p) => {
                let n = write_path(st, &st.cell(c), &p, v)?;
                st.cells.insert(c, n);
                Ok(())
            }
            Loc::Val(_) => bad("write through shared reference"),
        }
    }
    pub fn operand(&mut self, st: &State, fr: &Frame, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let l = self.loc(st, fr, p)?;
                self.read_loc(st, &l)
            }
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => Ok(Val::Int(0)),
        }
    }
    pub fn constant(&mut self, c: &MirConst) -> R<Val> {
        match c.kind() {
            ConstantKind::ZeroSized => Ok(zst(c.ty())),
            ConstantKind::Allocated(a) => read_alloc(a, 0, c.ty()),
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(n) => Ok(Val::Int(n as i128)),
                Err(_) => bad("type constant"),
            },
            k => bad(format!("constant {:?}", k)),
        }
    }

    pub fn rvalue(&mut self, st: &mut State, fr: &Frame, r: &Rvalue, dty: Ty) -> R<Val> {
        match r {
            Rvalue::Use(o, _) => {
                let v = self.operand(st, fr, o)?;
                if let Operand::Move(p) = o {
                    // moved out of: no longer there (so that what is left mentions nothing of it)
                    if !p.projection.is_empty() && p.projection.iter().all(|e| matches!(e, ProjectionElem::Field(..) | ProjectionElem::Downcast(_))) {
                        if let Loc::Cell(c, path) = self.loc(st, fr, p)? {
                            if let Ok(n) = write_path(st, &st.cell(c), &path, Val::Uninit) {
                                st.cells.insert(c, n);
                            }
                        }
                    }
                }
                Ok(v)
            }
            Rvalue::CopyForDeref(p) => {
                let l = self.loc(st, fr, p)?;
                self.read_loc(st, &l)
            }
            Rvalue::Ref(_, BorrowKind::Mut { .. }, p)
            | Rvalue::AddressOf(_, p)
            | Rvalue::Reborrow(_, Mutability::Mut, p) => match self.loc(st, fr, p)? {
                Loc::Cell(c, pr) => Ok(Val::Ref(Ptr::Place(c, Rc::new(pr)))),
                Loc::Val(v) => Ok(Val::imm(v)),
            },
            Rvalue::Ref(_, _, p) | Rvalue::Reborrow(_, _, p) => {
                let l = self.loc(st, fr, p)?;
                Ok(Val::imm(self.read_loc(st, &l)?))
            }
            Rvalue::Discriminant(p) => {
                let l = self.loc(st, fr, p)?;
                let v = self.read_loc(st, &l)?;
                let ty = p.ty(fr.b.body.locals()).map_err(|_| Stop::Bad("place type".into()))?;
                let k = st.variant_of(&v)?;
                let i = info(ty);
                match i.discrs.get(k as usize) {
                    Some(d) => Ok(Val::Int(*d)),
                    None => bad("discriminant"),
                }
            }
            Rvalue::Len(p) => {
                let l = self.loc(st, fr, p)?;
                match self.read_loc(st, &l)? {
                    Val::List(n) => Ok(st.list_len(&n)?.to_val()),
                    _ => bad("length of non-list"),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vs = vec![];
                for o in ops {
                    vs.push(self.operand(st, fr, o)?);
                }
                Ok(match k {
                    AggregateKind::Array(_) => Val::list(vs.into_iter().map(Node::Elem).collect()),
                    AggregateKind::Tuple | AggregateKind::Closure(..) => Val::agg(0, vs),
                    AggregateKind::Adt(d, v, ..) => {
                        let n = d.name().to_string();
                        if n.ends_with("ManuallyDrop") || n.ends_with("MaybeUninit") || n.ends_with("MaybeDangling") {
                            return Ok(vs.pop().unwrap_or(Val::Uninit));
                        }
                        Val::agg(v.to_index() as u32, vs)
                    }
                    AggregateKind::RawPtr(..) => vs.into_iter().next().unwrap(),
                    _ => return bad("aggregate kind"),
                })
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (x, y) = (self.operand(st, fr, a)?, self.operand(st, fr, b)?);
                use BinOp::*;
                let bits = matches!(op, BitAnd | BitOr | BitXor) && !matches!(dty.kind(), TyKind::RigidTy(RigidTy::Bool));
                if bits || matches!(op, Rem | Div | Shl | ShlUnchecked | Shr | ShrUnchecked) {
                    // of known numbers only
                    let (Some(m), Some(n)) = (st.as_int(&x), st.as_int(&y)) else { return bad(format!("operator {:?}", op)) };
                    let r = match op {
                        BitAnd => Some(m & n),
                        BitOr => Some(m | n),
                        BitXor => Some(m ^ n),
                        Rem => m.checked_rem(n),
                        Div => m.checked_div(n),
                        Shr | ShrUnchecked => u32::try_from(n).ok().and_then(|n| m.checked_shr(n)),
                        _ => None,
                    };
                    return match r {
                        Some(r) => Ok(Lin::c(r).to_val()),
                        None => bad(format!("operator {:?}", op)),
                    };
                }
                self.binop(st, *op, &x, &y)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, y) = (self.operand(st, fr, a)?, self.operand(st, fr, b)?);
                let v = self.binop(st, *op, &x, &y)?;
                let tys = info(dty);
                let signed = tys.vars.first().and_then(|v| v.first()).map_or(false, |t| is_signed(*t));
                let mut of = false;
                if matches!(op, BinOp::Sub) && !signed {
                    of = st.lin_cmp(&st.lin(&v)?, "lt")?;
                }
                Ok(Val::agg(0, vec![v, Val::bool(of)]))
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, fr, o)?;
                match op {
                    UnOp::Not => {
                        let b = self.bool_of(st, &v)?;
                        Ok(Val::bool(!b))
                    }
                    UnOp::Neg => Ok(Lin::c(0).add(&st.lin(&v)?, -1).to_val()),
                    UnOp::PtrMetadata => match st.deref(&v)? {
                        Val::List(n) => Ok(st.list_len(&n)?.to_val()),
                        Val::Str(_) => bad("string length"),
                        _ => Ok(Val::unit()),
                    },
                }
            }
            Rvalue::Cast(k, o, ty) => {
                let v = self.operand(st, fr, o)?;
                match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                        let t = o.ty(fr.b.body.locals()).map_err(|_| Stop::Bad("type".into()))?;
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
                            if let Ok(i) = Instance::resolve(d, &a) {
                                return Ok(Val::FnPtr(i));
                            }
                        }
                        bad("function pointer")
                    }
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                        let t = o.ty(fr.b.body.locals()).map_err(|_| Stop::Bad("type".into()))?;
                        if let TyKind::RigidTy(RigidTy::Closure(d, a)) = t.kind() {
                            if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::Fn) {
                                return Ok(Val::FnPtr(i));
                            }
                        }
                        bad("function pointer")
                    }
                    CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => bad("pointer address"),
                    CastKind::IntToInt => {
                        let st_ty = o.ty(fr.b.body.locals()).map_err(|_| Stop::Bad("type".into()))?;
                        if info(st_ty).tk == TK::Other {
                            return bad("int cast");
                        }
                        let _ = ty;
                        // enum-to-int casts appear as IntToInt of a discriminant
                        Ok(v)
                    }
                    _ => Ok(v),
                }
            }
            Rvalue::Repeat(o, c) => {
                let v = self.operand(st, fr, o)?;
                match c.eval_target_usize() {
                    Ok(n) if n <= 16 => Ok(Val::list((0..n).map(|_| Node::Elem(v.clone())).collect())),
                    _ => bad("array repeat"),
                }
            }
            Rvalue::ThreadLocalRef(_) => bad("thread local"),
        }
    }
    pub fn bool_of(&mut self, st: &State, v: &Val) -> R<bool> {
        match st.as_int(v) {
            Some(i) => Ok(i != 0),
            None => match v {
                Val::Sym(s) => Err(Stop::Fork(vec![Assume::IntEq(*s, 1), Assume::IntEq(*s, 0)])),
                _ => bad(format!("bool {:?}", v)),
            },
        }
    }
    pub fn binop(&mut self, st: &State, op: BinOp, a: &Val, b: &Val) -> R<Val> {
        use BinOp::*;
        if let (Val::Ref(_), _) | (_, Val::Ref(_)) = (a, b) {
            return bad("pointer comparison");
        }
        // fieldless enums compare by variant
        let (x, y) = (st.lin(a)?, st.lin(b)?);
        let d = x.add(&y, -1);
        let neg = Lin::default().add(&d, -1);
        Ok(match op {
            Add | AddUnchecked => x.add(&y, 1).to_val(),
            Sub | SubUnchecked => d.to_val(),
            Mul | MulUnchecked => {
                if y.syms.is_empty() && y.lens.is_empty() {
                    Lin::default().add(&x, y.c).to_val()
                } else if x.syms.is_empty() && x.lens.is_empty() {
                    Lin::default().add(&y, x.c).to_val()
                } else {
                    return bad("nonlinear arithmetic");
                }
            }
            Eq => Val::bool(st.lin_cmp(&d, "eq")?),
            Ne => Val::bool(!st.lin_cmp(&d, "eq")?),
            Lt => Val::bool(st.lin_cmp(&d, "lt")?),
            Le => Val::bool(st.lin_cmp(&d, "le")?),
            Gt => Val::bool(st.lin_cmp(&neg, "lt")?),
            Ge => Val::bool(st.lin_cmp(&neg, "le")?),
            BitAnd => {
                let (p, q) = (self.bool_of(st, a)?, self.bool_of(st, b)?);
                Val::bool(p && q)
            }
            BitOr => {
                let (p, q) = (self.bool_of(st, a)?, self.bool_of(st, b)?);
                Val::bool(p || q)
            }
            BitXor => {
                let (p, q) = (self.bool_of(st, a)?, self.bool_of(st, b)?);
                Val::bool(p != q)
            }
            _ => return bad(format!("operator {:?}", op)),
        })
    }

    /// Call a function; every path to its end is returned.
    pub fn call(&mut self, st: State, inst: Instance, args: Vec<Val>, roots: Option<Rc<Roots>>, stack: Option<Rc<Stack>>) -> Vec<Out> {
        let mut st = st;
        let t0 = Instant::now();
        let mut entry = None;
        if self.parse_mode && self.no_merge == 0 && inst.def.krate().name == "venial" {
            let (stuck, start) = crate::merge::stuck(&st, inst, &args, &stack);
            if start {
                *self.obl_by.entry("C06".into()).or_default() += 1;
                self.obligations += 1;
            }
            if stuck && st.taint.is_none() && !st.lost {
                let w = format!("C06 recursion makes progress: {}", inst.name());
                self.report(&st, &w, "calls itself at the same position: parsing does not end");
                return vec![];
            }
            self.start_next = start;
            crate::merge::retract(self, &mut st, &args, &roots, false);
            if let Some(o) = crate::merge::summary(self, &st, inst, &args, &stack) {
                return o;
            }
            if crate::merge::too_deep(&stack, inst) >= 1 {
                // forget what was seen further ahead
                crate::merge::retract(self, &mut st, &args, &roots, true);
                self.start_next = start;
                if let Some(o) = crate::merge::summary(self, &st, inst, &args, &stack) {
                    return o;
                }
            }
            if crate::merge::too_deep(&stack, inst) >= 2 {
                self.stats.cut += 1;
                if std::env::var("VABS_CUT").is_ok() { eprintln!("CUT {} {:?}", inst.name(), args.iter().map(|a| crate::cmp::show(&st, &st.deref(a).unwrap_or(a.clone()))).collect::<Vec<_>>()); }
                return vec![];
            }
            self.start_next = start;
            entry = crate::merge::entry(self, &st, &args);
        }
        let pre = st.clone();
        let aside = inst.def.krate().name == "probe" && inst.name().rsplit("::").next().map_or(false, |n| n.starts_with("aside_"));
        let mut res = self.call_body(st, inst, args, roots.clone(), stack, entry.as_ref().map(|e| e.sub));
        if aside {
            // a part of a harness that only states obligations: what it looked at is forgotten
            for o in res {
                if let End::Undecided(u) = &o.end {
                    *self.stats.undecided.entry(u.clone()).or_default() += 1;
                }
            }
            return vec![Out { st: pre, end: End::Ret(Val::unit()) }];
        }
        if let (Some(e), Some(b)) = (entry, self.body(inst)) {
            res = crate::merge::at_return(self, &pre, res, &b, &e);
            for o in &mut res {
                if let End::Ret(v) = &o.end {
                    let v = v.clone();
                    self.gc(&mut o.st, &[], &roots, Some(&v));
                }
            }
        }
        {
            let p = self.prof.entry(inst.name().to_string()).or_default();
            p.0 += 1;
            p.1 += res.len() as u64;
            p.2 += t0.elapsed().as_secs_f64();
        }
        res
    }
    pub fn call_body(&mut self, st: State, inst: Instance, args: Vec<Val>, roots: Option<Rc<Roots>>, stack: Option<Rc<Stack>>, cursor: Option<SubId>) -> Vec<Out> {
        let Some(b) = self.body(inst) else {
            if let Some(v) = constructed(&inst, &args) {
                return vec![Out { st, end: End::Ret(v) }];
            }
            return vec![Out { st, end: End::Undecided(format!("no body: {}", inst.name())) }];
        };
        let depth = {
            let mut d = 0;
            let mut s = stack.clone();
            while let Some(x) = s {
                d += 1;
                s = x.prev.clone();
            }
            d
        };
        if depth > 80 {
            return vec![Out { st, end: End::Undecided("call depth".into()) }];
        }
        self.stats.calls += 1;
        if b.krate == "venial" {
            self.stats.fns.insert(b.name.clone());
        }
        let mut st = st;
        let cells: Vec<CellId> = b.body.locals().iter().map(|_| fresh_id()).collect();
        let nargs = b.body.arg_locals().len();
        let args = if args.len() == nargs {
            args
        } else if let Some(sp) = b.body.spread_arg() {
            // trailing arguments arrive as one tuple
            let mut a = args;
            let rest = a.split_off(sp - 1);
            a.push(Val::agg(0, rest));
            a
        } else {
            return vec![Out { st, end: End::Undecided(format!("argument count: {}", b.name)) }];
        };
        let flags = crate::merge::flags(&st, &args);
        for (i, a) in args.into_iter().enumerate() {
            st.cells.insert(cells[i + 1], a);
        }
        let name = b.name.clone();
        let fr = Frame {
            b: b.clone(),
            cells,
            roots: roots.clone(),
            depth,
            stack: Rc::new(Stack { prev: stack, inst, name, cursor, at_start: std::mem::take(&mut self.start_next), flags }),
        };
        let out = self.region(&fr, vec![(0, 0, st)], None);
        let mut res = out.ends;
        for (_, s) in out.exits {
            res.push(Out { st: s, end: End::Undecided("stray exit".into()) });
        }
        // drop callee cells
        for o in &mut res {
            if let End::Ret(v) = &o.end {
                let v = v.clone();
                self.gc(&mut o.st, &[], &roots, Some(&v));
            }
        }
        if self.drop_panics {
            let n = res.len();
            for o in &res {
                if let (End::Panic(p), Some(w), true) = (&o.end, &o.st.must, self.sums.depth == 0) {
                    if o.st.taint.is_some() || o.st.lost {
                        *self.stats.undecided.entry(format!("{}: panic {} (imprecise)", w, p)).or_default() += 1;
                    } else {
                        self.report(&o.st, w, &format!("panic: {}", p));
                    }
                }
            }
            res.retain(|o| !matches!(o.end, End::Panic(_)));
            self.stats.panics += (n - res.len()) as u64;
        }
        res
    }

    pub fn gc(&mut self, st: &mut State, extra: &[CellId], roots: &Option<Rc<Roots>>, ret: Option<&Val>) {
        let mut mark: HashSet<CellId> = HashSet::new();
        let mut wl: Vec<CellId> = extra.to_vec();
        let mut r = roots.clone();
        while let Some(x) = r {
            wl.extend(x.cells.iter().cloned());
            r = x.prev.clone();
        }
        if let Some(v) = ret {
            val_cells(v, &mut wl);
        }
        while let Some(c) = wl.pop() {
            if mark.insert(c) {
                if let Some(v) = st.cells.get(&c) {
                    val_cells(v, &mut wl);
                }
            }
        }
        let dead: Vec<CellId> = st.cells.keys().filter(|c| !mark.contains(c)).cloned().collect();
        for c in dead {
            st.cells.remove(&c);
        }
    }
    /// Out of time or memory?
    pub fn over(&self) -> bool {
        Instant::now() > self.deadline || crate::state::rss_mb() > self.mem_limit
    }
    fn tick(&mut self) -> bool {
        self.ticks += 1;
        self.ticks & 0x3f == 0 || self.expired
    }
    pub fn live_cells(&self, fr: &Frame, bb: usize) -> Vec<CellId> {
        fr.b.live[bb].iter().map(|l| fr.cells[*l]).collect()
    }

    /// Execute from the given points until the region is left.
    /// `within`: (loop header, loop blocks); arrivals at the header are back edges.
    pub fn region(&mut self, fr: &Frame, start: Vec<(usize, usize, State)>, within: Option<(usize, &HashSet<usize>)>) -> RegionOut {
        let mut out = RegionOut::default();
        let mut wl = start;
        while let Some((bb, idx, st)) = wl.pop() {
            self.stats.steps += 1;
            if self.stats.steps > self.step_limit || (self.tick() && self.over()) {
                self.expired = true;
                out.ends.push(Out { st, end: End::Undecided("analysis budget".into()) });
                continue;
            }
            let block = &fr.b.body.blocks[bb];
            if idx < block.statements.len() {
                let mut s2 = st.clone();
                let mut stop = None;
                let mut i = idx;
                while i < block.statements.len() {
                    let save = s2.clone();
                    match self.statement(&mut s2, fr, &block.statements[i].kind) {
                        Ok(()) => i += 1,
                        Err(e) => {
                            stop = Some((e, save));
                            break;
                        }
                    }
                }
                match stop {
                    None => wl.push((bb, i, s2)),
                    Some((e, save)) => self.handle_stop(fr, e, save, |s| (bb, i, s), &mut wl, &mut out),
                }
                continue;
            }
            // terminator
            let mut s2 = st.clone();
            match self.terminator(&mut s2, fr, bb, &block.terminator.kind) {
                Ok(T::Goto(t)) => self.jump(fr, bb, t, s2, within, &mut wl, &mut out),
                Ok(T::Return) => {
                    let v = s2.cell(fr.cells[0]);
                    out.ends.push(Out { st: s2, end: End::Ret(v) });
                }
                Ok(T::Dead) => {}
                Ok(T::Outs(os, dest, target)) => {
                    for o in os {
                        let mut s = o.st;
                        match o.end {
                            End::Ret(v) => {
                                let Some(t) = target else {
                                    out.ends.push(Out { st: s, end: End::Undecided("return of a diverging call".into()) });
                                    continue;
                                };
                                match self.write_place(&mut s, fr, dest, v) {
                                    Ok(()) => self.jump(fr, bb, t, s, within, &mut wl, &mut out),
                                    Err(e) => {
                                        let m = format!("{:?}", e);
                                        out.ends.push(Out { st: s, end: End::Undecided(m) })
                                    }
                                }
                            }
                            e => out.ends.push(Out { st: s, end: e }),
                        }
                    }
                }
                Err(e) => self.handle_stop(fr, e, st, |s| (bb, idx, s), &mut wl, &mut out),
            }
        }
        out
    }

    fn handle_stop(
        &mut self,
        fr: &Frame,
        e: Stop,
        st: State,
        at: impl Fn(State) -> (usize, usize, State),
        wl: &mut Vec<(usize, usize, State)>,
        out: &mut RegionOut,
    ) {
        match self.resolve_stop(e, st, Some(fr.stack.clone()), &fr.b.name) {
            Ok(v) => {
                for s in v.into_iter().rev() {
                    wl.push(at(s));
                }
            }
            Err(o) => out.ends.push(o),
        }
    }
    /// States in which the stopped step can be retried.
    pub fn resolve_stop(&mut self, e: Stop, st: State, stack: Option<Rc<Stack>>, at: &str) -> Result<Vec<State>, Out> {
        match e {
            Stop::Fork(alts) => {
                self.stats.forks += 1;
                let mut r = vec![];
                for a in alts {
                    if let Assume::TextEq(s, t) = &a {
                        if self.prune.contains(&**t) && top_level(*s) {
                            continue;
                        }
                    }
                    let mut s = st.clone();
                    if s.assume(&a) {
                        s.push_trail(a, at);
                        r.push(s);
                    }
                }
                Ok(r)
            }
            Stop::NeedPrint(sym) => Ok(self.expand_print(st, sym, stack, at)?),
            Stop::Dead => Ok(vec![]),
            Stop::Panic(m) => Err(Out { st, end: End::Panic(format!("{} in {}", m, at)) }),
            Stop::Bad(m) => {
                let m = format!("{} in {}", m, at);
                Err(Out { st, end: End::Undecided(m) })
            }
        }
    }
    /// Unfold the printed form of a symbol by interpreting its `to_tokens`.
    fn expand_print(&mut self, st: State, sym: SymId, stack: Option<Rc<Stack>>, at: &str) -> Result<Vec<State>, Out> {
        if is_enumlike(sym) {
            if let Err(Stop::Fork(f)) = st.variant_of(&Val::Sym(sym)) {
                return self.resolve_stop(Stop::Fork(f), st, stack, at);
            }
        }
        let Some(ty) = sym_ty(sym) else {
            return Err(Out { st, end: End::Undecided("print of untyped symbol".into()) });
        };
        let Some(inst) = models::to_tokens_inst(self, ty) else {
            return Err(Out { st, end: End::Undecided(format!("no ToTokens for {}", ty)) });
        };
        let mut st = st;
        let c = st.new_cell(Val::list(vec![]));
        let keep: Vec<CellId> = st.cells.keys().cloned().collect();
        let roots = Some(Rc::new(Roots { prev: None, cells: keep }));
        let outs = self.call(st, inst, vec![Val::imm(val_of_sym(sym)), Val::place(c)], roots, stack);
        let mut r = vec![];
        for o in outs {
            match o.end {
                End::Ret(_) => {
                    let mut s = o.st;
                    let Val::List(n) = s.cell(c) else {
                        return Err(Out { st: s, end: End::Undecided("print result".into()) });
                    };
                    s.cells.remove(&c);
                    if n.iter().any(|x| matches!(x, Node::Print(y) if *y == sym)) {
                        return Err(Out { st: s, end: End::Undecided("print of itself".into()) });
                    }
                    s.pexp.insert(sym, n);
                    r.push(s);
                }
                End::Panic(p) => {
                    self.stats.panics += 1;
                    if o.st.may_panic || self.drop_panics {
                        continue;
                    }
                    let w = format!("C18 no panic: printing: {}", p);
                    match &o.st.taint {
                        Some(t) => *self.stats.undecided.entry(format!("{} (imprecise: {})", w, t)).or_default() += 1,
                        None => self.report(&o.st, &w, &p),
                    }
                }
                End::Undecided(u) => *self.stats.undecided.entry(u).or_default() += 1,
            }
        }
        Ok(r)
    }

    fn jump(
        &mut self,
        fr: &Frame,
        _from: usize,
        t: usize,
        st: State,
        within: Option<(usize, &HashSet<usize>)>,
        wl: &mut Vec<(usize, usize, State)>,
        out: &mut RegionOut,
    ) {
        if let Some((h, set)) = within {
            if t == h {
                out.back.push(st);
                return;
            }
            if !set.contains(&t) {
                out.exits.push((t, st));
                return;
            }
        }
        if let Some(set) = fr.b.loops.get(&t) {
            let o = crate::loops::process(self, fr, t, set, st);
            out.ends.extend(o.ends);
            for (b, s) in o.exits {
                // an inner loop's exit may itself be a back edge or exit of the outer region
                self.jump(fr, t, b, s, within, wl, out);
            }
            return;
        }
        wl.push((t, 0, st));
    }

    fn statement(&mut self, st: &mut State, fr: &Frame, s: &StatementKind) -> R<()> {
        match s {
            StatementKind::Assign(p, r) => {
                let dty = p.ty(fr.b.body.locals()).map_err(|_| Stop::Bad("type".into()))?;
                let v = self.rvalue(st, fr, r, dty)?;
                self.write_place(st, fr, p, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let v = match self.loc(st, fr, place)? {
                    Loc::Cell(c, p) => read_path(st, &st.cell(c), &p)?,
                    Loc::Val(v) => v,
                };
                let k = variant_index.to_index() as u32;
                let n = match v {
                    Val::Agg(_, f) => Val::Agg(k, f),
                    _ => Val::agg(k, vec![]),
                };
                self.write_place(st, fr, place, n)
            }
            StatementKind::StorageDead(l) => {
                st.cells.remove(&fr.cells[*l]);
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => bad("memcpy"),
            _ => Ok(()),
        }
    }

    fn terminator<'b>(&mut self, st: &mut State, fr: &Frame, bb: usize, t: &'b TerminatorKind) -> R<T<'b>> {
        match t {
            TerminatorKind::Goto { target } => Ok(T::Goto(*target)),
            TerminatorKind::Drop { target, .. } => Ok(T::Goto(*target)),
            TerminatorKind::Return => Ok(T::Return),
            TerminatorKind::Unreachable => Ok(T::Dead),
            TerminatorKind::Resume | TerminatorKind::Abort => Ok(T::Dead),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(st, fr, discr)?;
                if let Some(i) = st.as_int(&v) {
                    for (k, t) in targets.branches() {
                        if k as i128 == i || (i < 0 && (k as i128) & 0xff == (i & 0xff)) {
                            return Ok(T::Goto(t));
                        }
                    }
                    return Ok(T::Goto(targets.otherwise()));
                }
                match &v {
                    Val::Sym(s) => {
                        let mut alts = vec![];
                        let mut not = vec![];
                        for (k, _) in targets.branches() {
                            alts.push(Assume::IntEq(*s, k as i128));
                            not.push(k as i128);
                        }
                        let ob = &fr.b.body.blocks[targets.otherwise()];
                        let unreach =
                            ob.statements.is_empty() && matches!(ob.terminator.kind, TerminatorKind::Unreachable);
                        if !unreach {
                            // the otherwise branch: not any of the listed values
                            if self.is_bool(&v) && not.len() == 1 {
                                alts.push(Assume::IntEq(*s, 1 - not[0]));
                            } else if st.get_bound(*s).is_top() || not.iter().any(|i| st.get_bound(*s).allows_int(*i)) {
                                alts.push(Assume::IntNotIn(*s, not));
                            } else {
                                return Ok(T::Goto(targets.otherwise()));
                            }
                        }
                        Err(Stop::Fork(alts))
                    }
                    Val::Lin(_) => {
                        let l = st.lin(&v)?;
                        for (k, t) in targets.branches() {
                            if st.lin_cmp(&l.add(&Lin::c(k as i128), -1), "eq")? {
                                return Ok(T::Goto(t));
                            }
                        }
                        Ok(T::Goto(targets.otherwise()))
                    }
                    _ => bad(format!("switch on {:?}", v)),
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(st, fr, cond)?;
                let b = self.bool_of(st, &v)?;
                if b == *expected {
                    Ok(T::Goto(*target))
                } else {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds",
                        AssertMessage::Overflow(..) => "arithmetic overflow",
                        _ => "assertion",
                    };
                    Err(Stop::Panic(m.into()))
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut vs = vec![];
                for a in args {
                    vs.push(self.operand(st, fr, a)?);
                }
                let fty = func.ty(fr.b.body.locals()).map_err(|_| Stop::Bad("type".into()))?;
                let roots = {
                    let mut cells: Vec<CellId> = match target {
                        Some(t) => {
                            let mut l = fr.b.live[*t].clone();
                            if destination.projection.is_empty() {
                                l.remove(&destination.local);
                            } else {
                                l.insert(destination.local);
                            }
                            l.iter().map(|l| fr.cells[*l]).collect()
                        }
                        None => vec![],
                    };
                    cells.sort();
                    Some(Rc::new(Roots { prev: fr.roots.clone(), cells }))
                };
                let (def, ga) = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => (d, a),
                    TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                        let f = self.operand(st, fr, func)?;
                        let Val::FnPtr(i) = f else { return bad("unknown function pointer") };
                        let os = self.call(st.clone(), i, vs, roots, Some(fr.stack.clone()));
                        return Ok(T::Outs(os, destination, *target));
                    }
                    _ => return bad("callee"),
                };
                let _ = bb;
                self.call_def(st, def, ga, vs, roots, fr.stack.clone()).map(|os| T::Outs(os, destination, *target))
            }
            TerminatorKind::InlineAsm { .. } => bad("inline assembly"),
        }
    }
    fn is_bool(&self, v: &Val) -> bool {
        matches!(v, Val::Sym(s) if matches!(sinfo(*s).map(|i| i.tk.clone()), Some(TK::Bool)))
    }
    /// Call a (possibly trait-) function by definition: a model if there is one, else its body.
    pub fn call_def(&mut self, st: &mut State, def: FnDef, ga: GenericArgs, vs: Vec<Val>, roots: Option<Rc<Roots>>, stack: Rc<Stack>) -> R<Vec<Out>> {
        let mut def = def;
        let mut ga = ga;
        let mut vs = vs;
        for _ in 0..20 {
            match models::model(self, st, def, &ga, &vs, &roots, &stack)? {
                M::Val(v) => return Ok(vec![Out { st: st.clone(), end: End::Ret(v) }]),
                M::Outs(o) => return Ok(o),
                M::Redirect(d, a, v) => {
                    def = d;
                    ga = a;
                    vs = v;
                }
                M::Inst(i, v) => return Ok(self.call(st.clone(), i, v, roots, Some(stack))),
                M::Skip => {
                    let Ok(i) = Instance::resolve(def, &ga) else { return bad(format!("unresolved {}", def.name())) };
                    if crate::merge::too_deep(&Some(stack.clone()), i) > if self.deep { 30 } else { 3 } {
                        return bad("recursion");
                    }
                    if self.trace {
                        eprintln!("{}call {}", " ".repeat(stack_depth(&stack)), i.name());
                    }
                    return Ok(self.call(st.clone(), i, vs, roots, Some(stack)));
                }
            }
        }
        bad("redirect loop")
    }
}
pub fn stack_depth(s: &Rc<Stack>) -> usize {
    let mut n = 1;
    let mut p = s.prev.clone();
    while let Some(x) = p {
        n += 1;
        p = x.prev.clone();
    }
    n
}

pub enum T<'a> {
    Goto(usize),
    Return,
    Dead,
    Outs(Vec<Out>, &'a Place, Option<usize>),
}

pub fn val_cells(v: &Val, out: &mut Vec<CellId>) {
    match v {
        Val::Ref(Ptr::Place(c, _)) => out.push(*c),
        Val::Ref(Ptr::Imm(x)) => val_cells(x, out),
        Val::Agg(_, f) => f.iter().for_each(|x| val_cells(x, out)),
        Val::List(n) => n.iter().for_each(|x| {
            if let Node::Elem(v) = x {
                val_cells(v, out)
            }
        }),
        Val::Iter(it) => it.nodes.iter().for_each(|x| {
            if let Node::Elem(v) = x {
                val_cells(v, out)
            }
        }),
        _ => {}
    }
}

/// Tuple-like constructors used as functions.
fn constructed(inst: &Instance, args: &[Val]) -> Option<Val> {
    let ty = inst.ty();
    let out = match ty.kind() {
        TyKind::RigidTy(RigidTy::FnDef(..)) => ty.kind().fn_sig()?.skip_binder().output(),
        _ => return None,
    };
    let i = info(out);
    let mut name = inst.name().to_string();
    // `Type::<'_>` and the like: without the arguments
    if name.ends_with('>') {
        let mut depth = 0;
        let at = name.char_indices().rev().find(|(_, c)| {
            depth += match c {
                '>' => 1,
                '<' => -1,
                _ => 0,
            };
            depth == 0
        });
        name = name[..at?.0].trim_end_matches("::").to_string();
    }
    let last = name.split("::").last()?.to_string();
    let k = i.var_names.iter().position(|n| *n == last)?;
    if i.vars[k].len() != args.len() {
        return None;
    }
    Some(Val::agg(k as u32, args.to_vec()))
}

pub fn zst(ty: Ty) -> Val {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(..)) => {
            let i = info(ty);
            match i.vars.first() {
                Some(fs) if i.vars.len() == 1 => {
                    let n = adt_name(ty);
                    if n.ends_with("ManuallyDrop") || n.ends_with("MaybeUninit") {
                        return Val::Uninit;
                    }
                    Val::agg(0, fs.iter().map(|t| zst(*t)).collect())
                }
                _ => Val::unit(),
            }
        }
        TyKind::RigidTy(RigidTy::Array(..)) => Val::list(vec![]),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => Val::agg(0, ts.iter().map(|t| zst(*t)).collect()),
        _ => Val::unit(),
    }
}

fn read_alloc(a: &Allocation, off: usize, ty: Ty) -> R<Val> {
    let raw = |o: usize, n: usize| -> R<u128> {
        let mut r = 0u128;
        for i in 0..n {
            match a.bytes.get(o + i) {
                Some(Some(b)) => r |= (*b as u128) << (8 * i),
                _ => return bad("uninitialised constant"),
            }
        }
        Ok(r)
    };
    let size = |t: Ty| -> R<usize> {
        t.layout().map(|l| l.shape().size.bytes()).map_err(|_| Stop::Bad("layout".into()))
    };
    match ty.kind() {
        TyKind::RigidTy(k) => match k {
            RigidTy::Bool => Ok(Val::Int(raw(off, 1)? as i128)),
            RigidTy::Char => Ok(Val::Int(raw(off, 4)? as i128)),
            RigidTy::Uint(_) => Ok(Val::Int(raw(off, size(ty)?)? as i128)),
            RigidTy::Int(_) => {
                let n = size(ty)?;
                let v = raw(off, n)?;
                let sh = 128 - 8 * n as u32;
                Ok(Val::Int(((v << sh) as i128) >> sh))
            }
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    return bad("pointer constant");
                };
                let target: rustc_public::mir::alloc::GlobalAlloc = prov.0.into();
                let rustc_public::mir::alloc::GlobalAlloc::Memory(m) = target else { return bad("static reference") };
                let o2 = raw(off, 8)? as usize;
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = raw(off + 8, 8)? as usize;
                        let by: Option<Vec<u8>> = m.bytes[o2..o2 + len].iter().cloned().collect();
                        let Some(by) = by else { return bad("string constant") };
                        Ok(Val::imm(Val::str(&String::from_utf8_lossy(&by))))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let len = raw(off + 8, 8)? as usize;
                        let es = size(e)?;
                        let mut n = vec![];
                        for i in 0..len.min(64) {
                            n.push(Node::Elem(read_alloc(&m, o2 + i * es, e)?));
                        }
                        Ok(Val::imm(Val::list(n)))
                    }
                    _ => Ok(Val::imm(read_alloc(&m, o2, t)?)),
                }
            }
            RigidTy::Array(e, c) => {
                let len = c.eval_target_usize().map_err(|_| Stop::Bad("array length".into()))? as usize;
                let es = size(e)?;
                let mut n = vec![];
                for i in 0..len.min(256) {
                    n.push(Node::Elem(read_alloc(a, off + i * es, e)?));
                }
                Ok(Val::list(n))
            }
            RigidTy::Adt(..) | RigidTy::Tuple(_) => {
                let i = info(ty);
                let lay = ty.layout().map_err(|_| Stop::Bad("layout".into()))?.shape();
                use rustc_public::abi::*;
                let fields = |k: usize, offs: &[usize]| -> R<Val> {
                    let mut fs = vec![];
                    for (j, t) in i.vars[k].iter().enumerate() {
                        fs.push(read_alloc(a, off + offs[j], *t)?);
                    }
                    Ok(Val::agg(k as u32, fs))
                };
                let offs_of = |f: &FieldsShape| -> Vec<usize> {
                    match f {
                        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                        _ => vec![],
                    }
                };
                match &lay.variants {
                    VariantsShape::Empty => bad("empty type"),
                    VariantsShape::Single { index } => {
                        if size(ty)? == 0 {
                            return Ok(if i.vars.len() > 1 { Val::agg(index.to_index() as u32, vec![]) } else { zst(ty) });
                        }
                        fields(index.to_index(), &offs_of(&lay.fields))
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = offs_of(&lay.fields).get(*tag_field).cloned().unwrap_or(0);
                        let tsz = match tag {
                            Scalar::Initialized { value: Primitive::Int { length, .. }, .. } => match length {
                                IntegerLength::I8 => 1,
                                IntegerLength::I16 => 2,
                                IntegerLength::I32 => 4,
                                IntegerLength::I64 => 8,
                                IntegerLength::I128 => 16,
                            },
                            _ => 8,
                        };
                        let t = if a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff) {
                            u128::MAX
                        } else {
                            raw(off + toff, tsz)?
                        };
                        let k = match tag_encoding {
                            TagEncoding::Direct => {
                                match i.discrs.iter().position(|d| (*d as u128) & mask(tsz) == t) {
                                    Some(k) => k,
                                    None => return bad("tag"),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = t.wrapping_sub(*niche_start) & mask(tsz);
                                let lo = niche_variants.start().to_index();
                                let hi = niche_variants.end().to_index();
                                if t != u128::MAX && rel <= (hi - lo) as u128 {
                                    lo + rel as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        };
                        let offs: Vec<usize> = variants[k].offsets.iter().map(|o| o.bytes()).collect();
                        fields(k, &offs)
                    }
                }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => Ok(Val::unit()),
            _ => bad(format!("constant of type {}", ty)),
        },
        _ => bad("constant type"),
    }
}
fn mask(n: usize) -> u128 {
    if n >= 16 {
        u128::MAX
    } else {
        (1u128 << (8 * n)) - 1
    }
}
