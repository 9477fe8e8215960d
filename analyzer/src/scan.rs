//! Effect analysis: every function of the crate, every resolved callee and every static it names.
use crate::{jlist, js};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{Crate, CrateDef, CrateDefType};
use std::collections::{BTreeSet, HashSet};

const DENY: &[(&str, &str)] = &[
    ("std::fs", "file system"),
    ("std::io", "input/output"),
    ("std::env", "process environment"),
    ("std::net", "network"),
    ("std::process", "processes"),
    ("std::time", "clock"),
    ("std::thread", "threads or thread-local state"),
    ("std::os", "operating system"),
    ("std::sys", "operating system"),
    ("std::sync", "shared mutable state"),
    ("core::sync", "shared mutable state"),
    ("std::panic::catch_unwind", "panic interception"),
    ("std::panic::set_hook", "global panic hook"),
    ("std::panic::take_hook", "global panic hook"),
    ("std::panic::resume_unwind", "panic interception"),
    ("std::backtrace", "call stack inspection"),
    ("std::alloc", "raw allocation"),
    ("alloc::alloc", "raw allocation"),
    ("std::random", "randomness"),
    ("std::hash::RandomState", "randomness"),
    ("std::hash::random", "randomness"),
    ("std::collections::hash_map::RandomState", "randomness"),
    ("proc_macro2::fallback", "global switch of proc_macro2"),
    ("proc_macro2::extra::invalidate_current_thread_spans", "thread state of proc_macro2"),
    ("core::fmt::rt::Argument::<'_>::new_pointer", "address-dependent text"),
    ("std::fmt::Pointer", "address-dependent text"),
    ("core::intrinsics::volatile", "volatile access"),
    ("std::panic::Location", "depends on the caller's source position"),
    ("core::panic::Location", "depends on the caller's source position"),
    ("proc_macro::is_available", "process environment"),
    ("std::ptr::hash", "address-dependent value"),
    ("core::ptr::hash", "address-dependent value"),
];
/// Sub-paths of the above that are plain values or reference counting.
const ALLOW: &[&str] = &["std::sync::Arc", "alloc::sync::Arc", "std::io::Error", "std::time::Duration", "std::process::ExitCode"];

/// unsafe helpers that expansions of std macros call
const MACRO_UNSAFE: &[&str] = &["box_assume_init_into_vec_unsafe", "format_args", "Arguments::<'_>::new", "Arguments::<'a>::new", "new_unchecked_for_macro"];

pub struct Hit {
    pub what: String,
    pub func: String,
    pub loc: String,
}

struct V<'a> {
    body: &'a Body,
    func: String,
    hits: Vec<Hit>,
    calls: usize,
    callees: BTreeSet<String>,
    statics: usize,
    from_macro: HashSet<usize>,
}

fn contains_cell(ty: Ty, depth: usize, seen: &mut HashSet<Ty>) -> bool {
    if depth == 0 || !seen.insert(ty) {
        return false;
    }
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, args)) => {
            let n = d.name().to_string();
            if n.contains("UnsafeCell") || n.contains("::Atomic") {
                return true;
            }
            if d.variants_iter().any(|v| v.fields().iter().any(|f| contains_cell(f.ty_with_args(&args), depth - 1, seen))) {
                return true;
            }
            args.0.iter().any(|a| matches!(a, GenericArgKind::Type(t) if contains_cell(*t, depth - 1, seen)))
        }
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.iter().any(|t| contains_cell(*t, depth - 1, seen)),
        TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => contains_cell(t, depth - 1, seen),
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => contains_cell(t, depth - 1, seen),
        _ => false,
    }
}

fn hash_iter(n: &str, args: &GenericArgs) -> bool {
    let last = n.rsplit("::").next().unwrap_or("");
    let tys: Vec<String> = args
        .0
        .iter()
        .filter_map(|a| match a {
            GenericArgKind::Type(t) => {
                let mut t = *t;
                while let TyKind::RigidTy(RigidTy::Ref(_, x, _)) = t.kind() {
                    t = x;
                }
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Adt(d, _)) => Some(d.name().to_string()),
                    _ => Some(String::new()),
                }
            }
            _ => None,
        })
        .collect();
    let is_map = |s: &str| s.ends_with("::HashMap") || s.ends_with("::HashSet");
    let own = n.contains("HashMap") || n.contains("HashSet");
    let iterates = ["iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain", "extract_if", "union", "intersection", "difference", "symmetric_difference"];
    let fed = ["extend", "from_iter", "new_debug", "chain", "zip", "extend_from", "flat_map", "append_all", "append_separated", "append_terminated"];
    (!own && fed.contains(&last) && tys.iter().any(|s| is_map(s)) && !tys.first().map_or(false, |s| is_map(s) && last != "new_debug")) || (own && iterates.contains(&last)) || (last == "into_iter" && tys.first().map_or(false, |s| is_map(s)))
}

impl V<'_> {
    fn hit(&mut self, what: String, span: rustc_public::ty::Span) {
        // what the standard library's own macros expand to
        if what.starts_with("unsafe code") && span.get_filename().contains("/rustlib/src/rust/library/") {
            return;
        }
        let loc = format!("{}:{}", span.get_filename(), span.get_lines().start_line);
        self.hits.push(Hit { what, func: self.func.clone(), loc });
    }
    fn callee(&mut self, d: FnDef, args: &GenericArgs, span: rustc_public::ty::Span) {
        let mut names = vec![d.name().to_string()];
        // the implementation behind a trait method, when it is determined
        if let Ok(i) = Instance::resolve(d, args) {
            names.push(i.def.name().to_string());
        }
        self.callees.insert(names[0].clone());
        for n in &names {
            let n = n.trim_start_matches('<');
            if ALLOW.iter().any(|p| n.starts_with(p)) {
                continue;
            }
            if let Some((p, why)) = DENY.iter().find(|(p, _)| n.starts_with(p)) {
                self.hit(format!("uses {} ({}): calls {}", p, why, n), span);
                break;
            }
            if hash_iter(n, args) {
                self.hit(format!("depends on hash order: calls {}", n), span);
                break;
            }
        }
        let sig = d.fn_sig().skip_binder();
        if sig.safety == Safety::Unsafe && !MACRO_UNSAFE.iter().any(|m| names[0].contains(m)) {
            self.hit(format!("unsafe code: calls unsafe {}", names[0]), span);
        }
    }
    fn constant(&mut self, c: &ConstOperand) {
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in &a.provenance.ptrs {
                let g: GlobalAlloc = p.0.into();
                if let GlobalAlloc::Static(s) = g {
                    self.statics += 1;
                    let t = s.ty();
                    if contains_cell(t, 8, &mut HashSet::new()) {
                        self.hit(format!("uses global state: static {}", s.name()), c.span);
                    }
                    if matches!(c.const_.ty().kind(), TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut))) {
                        self.hit(format!("uses global state: static mut {}", s.name()), c.span);
                    }
                }
            }
        }
        // functions named as values
        match c.const_.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.callee(d, &a, c.span),
            _ => {}
        }
    }
}

impl MirVisitor for V<'_> {
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        self.constant(c);
        self.super_const_operand(c, l);
    }
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        match &t.kind {
            TerminatorKind::Call { .. } => self.calls += 1,
            TerminatorKind::InlineAsm { .. } => self.hit("unsafe code: inline assembly".into(), t.source_info.span),
            _ => {}
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        match r {
            Rvalue::ThreadLocalRef(d) => self.hit(format!("uses thread-local state {}", d.name()), l.span()),
            Rvalue::Cast(k, o, _) => {
                let s = format!("{:?}", k);
                if s.starts_with("PointerExpose") {
                    let _ = o;
                    self.hit("depends on addresses: pointer turned into a number".into(), l.span());
                }
                if s.starts_with("Transmute") && !self.from_macro.contains(&0) {
                    // transmutes only come from unsafe code; pointer metadata casts are separate
                    self.hit("unsafe code: transmute".into(), l.span());
                }
            }
            Rvalue::BinaryOp(BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp, a, _) | Rvalue::CheckedBinaryOp(BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge, a, _) => {
                if matches!(a.ty(self.body.locals()).map(|t| t.kind()), Ok(TyKind::RigidTy(RigidTy::RawPtr(..)))) {
                    self.hit("depends on addresses: pointers ordered".into(), l.span());
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_place(&mut self, p: &Place, c: visit::PlaceContext, l: Location) {
        let mut ty = self.body.locals()[p.local].ty;
        for e in &p.projection {
            if let ProjectionElem::Deref = e {
                if matches!(ty.kind(), TyKind::RigidTy(RigidTy::RawPtr(..))) && !self.boxed(p.local) {
                    self.hit("unsafe code: raw pointer dereference".into(), l.span());
                }
            }
            match e.ty(ty) {
                Ok(t) => ty = t,
                Err(_) => break,
            }
        }
        self.super_place(p, c, l);
    }
}
impl V<'_> {
    /// raw pointers the compiler itself derives from boxes
    fn boxed(&self, l: usize) -> bool {
        for b in &self.body.blocks {
            for s in &b.statements {
                if let StatementKind::Assign(p, r) = &s.kind {
                    if p.local == l && p.projection.is_empty() {
                        if let Rvalue::Cast(CastKind::Transmute, Operand::Copy(q) | Operand::Move(q), _) = r {
                            let _ = q;
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
}

pub struct Scan {
    pub hits: Vec<Hit>,
    pub fns: usize,
    pub calls: usize,
    pub callees: BTreeSet<String>,
    pub statics: usize,
}

fn bodies(b: &Body, name: String, out: &mut Vec<(String, Body)>, seen: &mut HashSet<String>) {
    // closures constructed in the body
    struct C(Vec<ClosureDef>);
    impl MirVisitor for C {
        fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
            if let Rvalue::Aggregate(AggregateKind::Closure(d, _), _) = r {
                self.0.push(*d);
            }
            self.super_rvalue(r, l);
        }
    }
    let mut c = C(vec![]);
    c.visit_body(b);
    out.push((name, b.clone()));
    for d in c.0 {
        let n = d.name().to_string();
        if seen.insert(n.clone()) {
            if let Some(b) = d.body() {
                bodies(&b, n, out, seen);
            }
        }
    }
}

pub fn scan_crate(k: &Crate, only: Option<&str>) -> Scan {
    let mut r = Scan { hits: vec![], fns: 0, calls: 0, callees: BTreeSet::new(), statics: 0 };
    let mut bs = vec![];
    let mut seen = HashSet::new();
    for f in k.fn_defs() {
        let n = f.name().to_string();
        if let Some(o) = only {
            if !n.contains(o) {
                continue;
            }
        }
        if let Some(b) = f.body() {
            bodies(&b, n, &mut bs, &mut seen);
        }
    }
    for (n, b) in &bs {
        let mut v = V { body: b, func: n.clone(), hits: vec![], calls: 0, callees: BTreeSet::new(), statics: 0, from_macro: HashSet::new() };
        v.visit_body(b);
        r.fns += 1;
        r.calls += v.calls;
        r.statics += v.statics;
        r.callees.extend(v.callees);
        r.hits.extend(v.hits);
    }
    for s in k.statics() {
        let n = s.name().to_string();
        if only.map_or(false, |o| !n.contains(o)) {
            continue;
        }
        r.statics += 1;
        if contains_cell(s.ty(), 8, &mut HashSet::new()) {
            r.hits.push(Hit { what: format!("defines global state: static {}", n), func: n, loc: String::new() });
        }
    }
    r
}

pub fn scan() -> String {
    let Some(k) = rustc_public::find_crates("venial").into_iter().next() else { return "null".into() };
    let s = scan_crate(&k, None);
    let pos = scan_crate(&rustc_public::local_crate(), Some("positive::"));
    let show = |s: &Scan| {
        let h: Vec<String> = s
            .hits
            .iter()
            .map(|h| format!("{{\"what\":{},\"function\":{},\"at\":{}}}", js(&h.what), js(&h.func), js(&h.loc)))
            .collect();
        let c: Vec<String> = s.callees.iter().cloned().collect();
        format!(
            "{{\"functions\":{},\"call_sites\":{},\"statics\":{},\"callees\":{},\"hits\":[{}]}}",
            s.fns,
            s.calls,
            s.statics,
            jlist(&c),
            h.join(",")
        )
    };
    format!("{{\"venial\":{},\"positive\":{}}}", show(&s), show(&pos))
}

// ---- counters that are too narrow for what they count ----

fn narrow(t: Ty) -> bool {
    matches!(
        t.kind(),
        TyKind::RigidTy(RigidTy::Int(IntTy::I8)) | TyKind::RigidTy(RigidTy::Int(IntTy::I16)) | TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) | TyKind::RigidTy(RigidTy::Uint(UintTy::U16))
    )
}
fn key(p: &Place) -> String {
    format!("{:?}{:?}", p.local, p.projection)
}
fn targets(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
        _ => vec![],
    }
}
/// Loop-carried places of 8 or 16 bits that an iteration increments, with no comparison against a limit.
fn counters(b: &Body) -> Vec<String> {
    let n = b.blocks.len();
    let succ: Vec<Vec<usize>> = b.blocks.iter().map(|x| targets(&x.terminator.kind)).collect();
    let cyclic = |s: usize| {
        let mut seen = vec![false; n];
        let mut w = succ[s].clone();
        while let Some(x) = w.pop() {
            if x == s {
                return true;
            }
            if !std::mem::replace(&mut seen[x], true) {
                w.extend(succ[x].iter().cloned());
            }
        }
        false
    };
    let place = |o: &Operand| match o {
        Operand::Copy(p) | Operand::Move(p) => Some(key(p)),
        _ => None,
    };
    // place -> places its value is computed from by copying
    let mut from: Vec<(String, String)> = vec![];
    let mut sums: Vec<(String, String, usize)> = vec![];
    let mut limited: BTreeSet<String> = BTreeSet::new();
    for (i, bb) in b.blocks.iter().enumerate() {
        for s in &bb.statements {
            let StatementKind::Assign(d, r) = &s.kind else { continue };
            match r {
                Rvalue::Use(o, ..) => {
                    if let Some(p) = place(o) {
                        from.push((key(d), p));
                    }
                }
                Rvalue::CheckedBinaryOp(BinOp::Add, x, _) | Rvalue::BinaryOp(BinOp::Add, x, _) => {
                    if let (Some(p), Ok(t)) = (place(x), x.ty(b.locals())) {
                        if narrow(t) {
                            sums.push((format!("{:?}", d.local), p, i));
                        }
                    }
                }
                Rvalue::BinaryOp(BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Eq | BinOp::Ne, x, y) => {
                    for (x, y) in [(x, y), (y, x)] {
                        if let (Some(p), Operand::Constant(c)) = (place(x), y) {
                            let small = matches!(c.const_.kind(), ConstantKind::Allocated(a) if a.read_uint().map_or(false, |v| v < 2));
                            if !small {
                                limited.insert(p);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let TerminatorKind::Call { func, args, destination, .. } = &bb.terminator.kind {
            let f = format!("{:?}", func.ty(b.locals()).map(|t| t.kind()));
            if (f.contains("wrapping_add") || f.contains("saturating_add") || f.contains("checked_add")) && !args.is_empty() {
                if let (Some(p), Ok(t)) = (place(&args[0]), args[0].ty(b.locals())) {
                    if narrow(t) {
                        sums.push((format!("{:?}", destination.local), p, i));
                    }
                }
            }
        }
    }
    let root = |p: &str| {
        let mut out: BTreeSet<String> = BTreeSet::new();
        let mut w = vec![p.to_string()];
        while let Some(x) = w.pop() {
            if out.insert(x.clone()) {
                w.extend(from.iter().filter(|(d, _)| *d == x).map(|(_, s)| s.clone()));
            }
        }
        out
    };
    let mut hits = vec![];
    for (sum, p, i) in &sums {
        let base = root(p);
        if !cyclic(*i) || base.iter().any(|x| limited.contains(x)) || from.iter().any(|(d, s)| base.contains(s) && limited.contains(d)) {
            continue;
        }
        // does the sum (or its first field) reach one of the places it was read from?
        let carried = from.iter().any(|(d, s)| base.contains(d) && root(s).iter().any(|x| x.starts_with(&format!("{}[", sum)))) || base.iter().any(|x| x == &format!("{}[]", sum));
        if carried {
            hits.push(format!("{}", b.blocks[*i].terminator.source_info.span.diagnostic()));
        }
    }
    hits
}

pub fn narrow_counters() -> String {
    let one = |k: &Crate, only: Option<&str>| {
        let (mut bs, mut seen, mut out) = (vec![], HashSet::new(), vec![]);
        for f in k.fn_defs() {
            let n = f.name().to_string();
            if only.map_or(false, |o| !n.contains(o)) {
                continue;
            }
            if let Some(b) = f.body() {
                bodies(&b, n, &mut bs, &mut seen);
            }
        }
        for (n, b) in &bs {
            for h in counters(b) {
                out.push(format!("{{\"function\":{},\"at\":{}}}", js(n), js(&h)));
            }
        }
        (bs.len(), out.join(","))
    };
    let Some(k) = rustc_public::find_crates("venial").into_iter().next() else { return "null".into() };
    let (n, h) = one(&k, None);
    let (_, p) = one(&rustc_public::local_crate(), Some("narrow_example::"));
    format!("{{\"functions\":{},\"hits\":[{}],\"positive\":[{}]}}", n, h, p)
}
