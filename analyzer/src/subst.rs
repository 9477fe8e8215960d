//! Substitution of a symbol (the formal element of a mapped list) by a value.
use crate::types::*;
use crate::val::*;
use std::rc::Rc;

thread_local! { pub static FAILS: std::cell::Cell<u32> = Default::default(); }
fn fail<T>() -> Option<T> {
    FAILS.with(|f| f.set(f.get() + 1));
    None
}

pub fn sym_mentions(s: SymId, f: SymId) -> bool {
    if s == f {
        return true;
    }
    match sym_kind(s) {
        SymKind::Child(p, _, _) | SymKind::Attr(p, _) => sym_mentions(p, f),
        SymKind::Head(x) | SymKind::Last(x) => sub_mentions(x, f),
        SymKind::Op(_, vs, _) => vs.iter().any(|v| val_mentions(v, f)),
        _ => false,
    }
}
pub fn sub_mentions(s: SubId, f: SymId) -> bool {
    match sub_kind(s) {
        SubKind::OfSym(p) | SubKind::Content(p) => sym_mentions(p, f),
        SubKind::Tail(p) | SubKind::Init(p) => sub_mentions(p, f),
        SubKind::Fresh(_) => false,
        SubKind::Mapped(m, s) => node_mentions(&Node::Map(m, s), f),
    }
}
pub fn span_mentions(s: &SpanV, f: SymId) -> bool {
    match s {
        SpanV::Of(x) | SpanV::Sym(x) => sym_mentions(*x, f),
        SpanV::Join(a, b) => span_mentions(a, f) || span_mentions(b, f),
        SpanV::Over(n) => nodes_mention(n, f),
        SpanV::Other(a, _) => span_mentions(a, f),
        _ => false,
    }
}
pub fn str_mentions(s: &StrV, f: SymId) -> bool {
    match s {
        StrV::OfSym(x) => sym_mentions(*x, f),
        StrV::OfInt(v) | StrV::Display(v) => val_mentions(v, f),
        StrV::Concat(v) => v.iter().any(|x| str_mentions(x, f)),
        _ => false,
    }
}
pub fn val_mentions(v: &Val, f: SymId) -> bool {
    match v {
        Val::Agg(_, fs) => fs.iter().any(|x| val_mentions(x, f)),
        Val::Lin(l) => l.syms.keys().any(|s| sym_mentions(*s, f)) || l.lens.keys().any(|s| sub_mentions(*s, f)),
        Val::Sym(s) => sym_mentions(*s, f),
        Val::Str(s) => str_mentions(s, f),
        Val::Ref(Ptr::Imm(x)) => val_mentions(x, f),
        Val::List(n) => nodes_mention(n, f),
        Val::Iter(i) => nodes_mention(&i.nodes, f),
        Val::Span(s) => span_mentions(s, f),
        Val::Tok(t) => match &**t {
            TokV::Ident { text, span } | TokV::Lit { text, span } => str_mentions(text, f) || span_mentions(span, f),
            TokV::Punct { ch, sp, span } => val_mentions(ch, f) || val_mentions(sp, f) || span_mentions(span, f),
            TokV::Group { delim, inner, span } => {
                val_mentions(delim, f) || nodes_mention(inner, f) || span_mentions(span, f)
            }
            TokV::Respan { base, span } => sym_mentions(*base, f) || span_mentions(span, f),
        },
        _ => false,
    }
}
pub fn node_mentions(n: &Node, f: SymId) -> bool {
    match n {
        Node::Elem(v) => val_mentions(v, f),
        Node::Sub(s) | Node::PrintEach(s) => sub_mentions(*s, f),
        Node::Print(s) => sym_mentions(*s, f),
        Node::Map(m, s) => {
            sub_mentions(*s, f)
                || m.cases.iter().any(|(g, n)| g.iter().any(|a| assume_mentions(a, f)) || nodes_mention(n, f))
        }
        _ => false,
    }
}
pub fn nodes_mention(n: &[Node], f: SymId) -> bool {
    n.iter().any(|x| node_mentions(x, f))
}
pub fn assume_mentions(a: &Assume, f: SymId) -> bool {
    match a {
        Assume::Variant(s, _)
        | Assume::IntEq(s, _)
        | Assume::IntNotIn(s, _)
        | Assume::IntLe(s, _)
        | Assume::IntGe(s, _)
        | Assume::TextEq(s, _)
        | Assume::TextNe(s, _) => sym_mentions(*s, f),
        Assume::Empty(s) | Assume::Cons(s) | Assume::Snoc(s) | Assume::SBound(s, _) => sub_mentions(*s, f),
        Assume::Exp(s, n) => sub_mentions(*s, f) || nodes_mention(n, f),
        Assume::All(v) => v.iter().any(|x| assume_mentions(x, f)),
        Assume::Choice(_) => false,
    }
}

pub fn sym(s: SymId, f: SymId, v: &Val) -> Option<Val> {
    if s == f {
        return Some(v.clone());
    }
    if !sym_mentions(s, f) {
        return Some(val_of_sym(s));
    }
    match sym_kind(s) {
        SymKind::Child(p, k, i) => {
            // the parent may be a transparent reference
            let pt = sym_ty(p);
            let pv = sym(p, f, v)?;
            if let Some(t) = pt {
                if matches!(info(t).tk, TK::Ref(..) | TK::Box(_)) {
                    return match pv {
                        Val::Ref(Ptr::Imm(x)) => Some((*x).clone()),
                        Val::Sym(q) => Some(child_val(q, k, i)),
                        _ => fail(),
                    };
                }
            }
            match &pv {
                Val::Sym(q) => Some(child_val(*q, k, i)),
                Val::Agg(k2, fs) if *k2 == k => fs.get(i as usize).cloned(),
                Val::Agg(..) => None,
                _ => fail(),
            }
        }
        SymKind::Attr(p, a) => {
            let pv = sym(p, f, v)?;
            let ty = sym_ty(s);
            match &pv {
                Val::Sym(q) => Some(val_of_sym(mk_sym(SymKind::Attr(*q, a), ty))),
                Val::Tok(t) => match (&**t, a) {
                    (TokV::Punct { ch, .. }, Attr::Char) => Some(ch.clone()),
                    (TokV::Punct { sp, .. }, Attr::Spacing) => Some(sp.clone()),
                    (TokV::Group { delim, .. }, Attr::Delim) => Some(delim.clone()),
                    _ => fail(),
                },
                Val::Agg(..) if a == Attr::Idx => match origin(&pv) {
                    Some(q) => Some(val_of_sym(mk_sym(SymKind::Attr(q, a), ty))),
                    None => fail(),
                },
                _ => fail(),
            }
        }
        SymKind::Head(x) => {
            let n = sub(x, f, v)?;
            match n.first() {
                Some(Node::Sub(y)) if n.len() == 1 => Some(val_of_sym(head(*y))),
                Some(Node::Elem(e)) => Some(e.clone()),
                _ => fail(),
            }
        }
        SymKind::Last(x) => {
            let n = sub(x, f, v)?;
            match n.last() {
                Some(Node::Sub(y)) if n.len() == 1 => Some(val_of_sym(last(*y))),
                Some(Node::Elem(e)) => Some(e.clone()),
                _ => fail(),
            }
        }
        SymKind::Op(name, vs, i) => {
            let vs2: Option<Vec<Val>> = vs.iter().map(|x| val(x, f, v)).collect();
            Some(val_of_sym(mk_sym(SymKind::Op(name, vs2?, i), sym_ty(s))))
        }
        _ => fail(),
    }
}
pub fn sub(s: SubId, f: SymId, v: &Val) -> Option<Vec<Node>> {
    if !sub_mentions(s, f) {
        return Some(vec![Node::Sub(s)]);
    }
    match sub_kind(s) {
        SubKind::OfSym(p) => {
            // the list value of a symbol of list type
            let k = sym_kind(p);
            if p == f {
                return match v {
                    Val::List(n) => Some(n.to_vec()),
                    Val::Sym(q) => Some(vec![Node::Sub(mk_sub(SubKind::OfSym(*q), sub_ty(s)))]),
                    _ => fail(),
                };
            }
            match k {
                SymKind::Child(pp, kk, i) => {
                    let pv = sym(pp, f, v)?;
                    match &pv {
                        Val::Sym(q) => Some(vec![Node::Sub(mk_sub(
                            SubKind::OfSym(mk_sym(SymKind::Child(*q, kk, i), sym_ty(p))),
                            sub_ty(s),
                        ))]),
                        Val::Agg(k2, fs) if *k2 == kk => match fs.get(i as usize) {
                            Some(Val::List(n)) => Some(n.to_vec()),
                            _ => fail(),
                        },
                        Val::Ref(Ptr::Imm(x)) => match &**x {
                            Val::List(n) => Some(n.to_vec()),
                            _ => fail(),
                        },
                        _ => fail(),
                    }
                }
                _ => match sym(p, f, v)? {
                    Val::List(n) => Some(n.to_vec()),
                    Val::Sym(q) => Some(vec![Node::Sub(mk_sub(SubKind::OfSym(q), sub_ty(s)))]),
                    _ => fail(),
                },
            }
        }
        SubKind::Content(p) => match sym(p, f, v)? {
            Val::Sym(q) => Some(vec![Node::Sub(mk_sub(SubKind::Content(q), sub_ty(s)))]),
            Val::Tok(t) => match &*t {
                TokV::Group { inner, .. } => Some(inner.clone()),
                _ => fail(),
            },
            _ => fail(),
        },
        SubKind::Tail(p) => {
            let n = sub(p, f, v)?;
            match n.first() {
                Some(Node::Sub(y)) if n.len() == 1 => Some(vec![Node::Sub(tail(*y))]),
                Some(Node::Elem(_)) => Some(n[1..].to_vec()),
                _ => fail(),
            }
        }
        SubKind::Init(p) => {
            let n = sub(p, f, v)?;
            match n.last() {
                Some(Node::Sub(y)) if n.len() == 1 => Some(vec![Node::Sub(init(*y))]),
                Some(Node::Elem(_)) => Some(n[..n.len() - 1].to_vec()),
                _ => fail(),
            }
        }
        SubKind::Fresh(_) | SubKind::Mapped(..) => fail(),
    }
}
pub fn strv(s: &StrV, f: SymId, v: &Val) -> Option<StrV> {
    if !str_mentions(s, f) {
        return Some(s.clone());
    }
    Some(match s {
        StrV::OfSym(x) => match sym(*x, f, v)? {
            Val::Sym(q) => StrV::OfSym(q),
            Val::Str(t) => (*t).clone(),
            Val::Tok(t) => match &*t {
                TokV::Ident { text, .. } | TokV::Lit { text, .. } => text.clone(),
                TokV::Respan { base, .. } => StrV::OfSym(*base),
                _ => return fail(),
            },
            _ => return fail(),
        },
        StrV::OfInt(x) => StrV::OfInt(val(x, f, v)?),
        StrV::Display(x) => StrV::Display(val(x, f, v)?),
        StrV::Concat(x) => StrV::Concat(x.iter().map(|y| strv(y, f, v)).collect::<Option<Vec<_>>>()?),
        o => o.clone(),
    })
}
pub fn span(s: &SpanV, f: SymId, v: &Val) -> Option<SpanV> {
    if !span_mentions(s, f) {
        return Some(s.clone());
    }
    Some(match s {
        SpanV::Of(x) => match sym(*x, f, v)? {
            Val::Sym(q) => SpanV::Of(q),
            Val::Agg(_, fs) if fs.len() == 1 => match &fs[0] {
                Val::Sym(q) => SpanV::Of(*q),
                Val::Tok(t) => tokspan(t),
                _ => return fail(),
            },
            Val::Tok(t) => tokspan(&t),
            _ => return fail(),
        },
        SpanV::Sym(x) => match sym(*x, f, v)? {
            Val::Sym(q) => SpanV::Sym(q),
            Val::Span(s) => (*s).clone(),
            _ => return fail(),
        },
        SpanV::Join(a, b) => SpanV::Join(Rc::new(span(a, f, v)?), Rc::new(span(b, f, v)?)),
        SpanV::Over(n) => SpanV::Over(nodes(n, f, v)?),
        SpanV::Other(a, k) => SpanV::Other(Rc::new(span(a, f, v)?), k),
        o => o.clone(),
    })
}
pub fn tokspan(t: &TokV) -> SpanV {
    match t {
        TokV::Ident { span, .. }
        | TokV::Punct { span, .. }
        | TokV::Group { span, .. }
        | TokV::Lit { span, .. }
        | TokV::Respan { span, .. } => span.clone(),
    }
}
pub fn val(x: &Val, f: SymId, v: &Val) -> Option<Val> {
    if !val_mentions(x, f) {
        return Some(x.clone());
    }
    Some(match x {
        Val::Agg(k, fs) => Val::agg(*k, fs.iter().map(|y| val(y, f, v)).collect::<Option<Vec<_>>>()?),
        Val::Lin(l) => {
            let mut r = Lin::c(l.c);
            for (s, k) in &l.syms {
                match sym(*s, f, v)? {
                    Val::Sym(q) => r = r.add(&Lin::sym(q), *k),
                    Val::Int(i) => r.c += i * k,
                    Val::Lin(l2) => r = r.add(&l2, *k),
                    _ => return fail(),
                }
            }
            for (s, k) in &l.lens {
                for n in sub(*s, f, v)? {
                    match n {
                        Node::Sub(y) => {
                            r = r.add(&Lin { lens: [(y, 1)].into_iter().collect(), ..Default::default() }, *k)
                        }
                        Node::Elem(_) => r.c += k,
                        _ => return fail(),
                    }
                }
            }
            r.to_val()
        }
        Val::Sym(s) => sym(*s, f, v)?,
        Val::Str(s) => Val::Str(Rc::new(strv(s, f, v)?)),
        Val::Ref(Ptr::Imm(y)) => Val::imm(val(y, f, v)?),
        Val::List(n) => Val::list(nodes(n, f, v)?),
        Val::Iter(i) => Val::Iter(Rc::new(IterV { nodes: nodes(&i.nodes, f, v)?, by_ref: i.by_ref })),
        Val::Span(s) => Val::Span(Rc::new(span(s, f, v)?)),
        Val::Tok(t) => Val::Tok(Rc::new(match &**t {
            TokV::Ident { text, span: sp } => TokV::Ident { text: strv(text, f, v)?, span: span(sp, f, v)? },
            TokV::Lit { text, span: sp } => TokV::Lit { text: strv(text, f, v)?, span: span(sp, f, v)? },
            TokV::Punct { ch, sp, span: s } => {
                TokV::Punct { ch: val(ch, f, v)?, sp: val(sp, f, v)?, span: span(s, f, v)? }
            }
            TokV::Group { delim, inner, span: s } => {
                TokV::Group { delim: val(delim, f, v)?, inner: nodes(inner, f, v)?, span: span(s, f, v)? }
            }
            TokV::Respan { base, span: s } => match sym(*base, f, v)? {
                Val::Sym(q) => TokV::Respan { base: q, span: span(s, f, v)? },
                Val::Tok(t2) => {
                    let ns = span(s, f, v)?;
                    return Some(Val::Tok(Rc::new(respan(&t2, ns))));
                }
                _ => return fail(),
            },
        })),
        o => o.clone(),
    })
}
pub fn respan(t: &TokV, s: SpanV) -> TokV {
    match t {
        TokV::Ident { text, .. } => TokV::Ident { text: text.clone(), span: s },
        TokV::Lit { text, .. } => TokV::Lit { text: text.clone(), span: s },
        TokV::Punct { ch, sp, .. } => TokV::Punct { ch: ch.clone(), sp: sp.clone(), span: s },
        TokV::Group { delim, inner, .. } => TokV::Group { delim: delim.clone(), inner: inner.clone(), span: s },
        TokV::Respan { base, .. } => TokV::Respan { base: *base, span: s },
    }
}
pub fn nodes(ns: &[Node], f: SymId, v: &Val) -> Option<Vec<Node>> {
    let mut out = vec![];
    for n in ns {
        if !node_mentions(n, f) {
            out.push(n.clone());
            continue;
        }
        match n {
            Node::Elem(x) => out.push(Node::Elem(val(x, f, v)?)),
            Node::Sub(s) => out.extend(sub(*s, f, v)?),
            Node::Print(s) => match sym(*s, f, v)? {
                Val::Sym(q) => match tok_kind(q) {
                    Some(Some(k)) => out.push(Node::Elem(Val::agg(k, vec![Val::Sym(q)]))),
                    Some(None) => out.push(Node::Elem(Val::Sym(q))),
                    None => out.push(Node::Print(q)),
                },
                _ => return fail(),
            },
            Node::PrintEach(s) => {
                for m in sub(*s, f, v)? {
                    match m {
                        Node::Sub(y) => out.push(Node::PrintEach(y)),
                        _ => return fail(),
                    }
                }
            }
            Node::Map(m, s) => {
                let mut cases = vec![];
                for (g, n) in &m.cases {
                    let mut g2 = vec![];
                    let mut ok = true;
                    for a in g {
                        if assume_mentions(a, f) {
                            match assume(a, f, v) {
                                Some(l) => g2.extend(l),
                                None => ok = false,
                            }
                        } else {
                            g2.push(a.clone());
                        }
                    }
                    if ok {
                        cases.push((g2, nodes(n, f, v)?));
                    }
                }
                let m2 = Rc::new(MapRec { formal: m.formal, cases });
                for x in sub(*s, f, v)? {
                    match x {
                        Node::Sub(y) => out.push(Node::Map(m2.clone(), y)),
                        _ => return fail(),
                    }
                }
            }
            o => out.push(o.clone()),
        }
    }
    Some(out)
}
/// Some(Some(k)): a token of TokenTree variant k; Some(None): a TokenTree; None: other
pub fn tok_kind(s: SymId) -> Option<Option<u32>> {
    match &sinfo(s)?.tk {
        TK::Group => Some(Some(0)),
        TK::Ident => Some(Some(1)),
        TK::Punct => Some(Some(2)),
        TK::Literal => Some(Some(3)),
        TK::Adt { name, .. } if &**name == "proc_macro2::TokenTree" => Some(None),
        _ => None,
    }
}
/// The assumption about the substituted value: None = cannot hold.
pub fn assume(a: &Assume, f: SymId, v: &Val) -> Option<Vec<Assume>> {
    if !assume_mentions(a, f) {
        return Some(vec![a.clone()]);
    }
    match a {
        Assume::Variant(s, k) => match sym(*s, f, v)? {
            Val::Sym(q) => Some(vec![Assume::Variant(q, *k)]),
            Val::Agg(k2, _) => (k2 == *k).then(Vec::new),
            _ => fail(),
        },
        Assume::IntEq(s, i) => match sym(*s, f, v)? {
            Val::Sym(q) => Some(vec![Assume::IntEq(q, *i)]),
            Val::Int(j) => (j == *i).then(Vec::new),
            _ => fail(),
        },
        Assume::IntNotIn(s, i) => match sym(*s, f, v)? {
            Val::Sym(q) => Some(vec![Assume::IntNotIn(q, i.clone())]),
            Val::Int(j) => (!i.contains(&j)).then(Vec::new),
            _ => fail(),
        },
        Assume::IntLe(s, i) => match sym(*s, f, v)? {
            Val::Sym(q) => Some(vec![Assume::IntLe(q, *i)]),
            Val::Int(j) => (j <= *i).then(Vec::new),
            _ => fail(),
        },
        Assume::IntGe(s, i) => match sym(*s, f, v)? {
            Val::Sym(q) => Some(vec![Assume::IntGe(q, *i)]),
            Val::Int(j) => (j >= *i).then(Vec::new),
            _ => fail(),
        },
        Assume::TextEq(s, t) | Assume::TextNe(s, t) => {
            let eq = matches!(a, Assume::TextEq(..));
            let text = match sym(*s, f, v)? {
                Val::Sym(q) => {
                    return Some(vec![if eq { Assume::TextEq(q, t.clone()) } else { Assume::TextNe(q, t.clone()) }])
                }
                Val::Str(x) => (*x).clone(),
                Val::Tok(x) => match &*x {
                    TokV::Ident { text, .. } | TokV::Lit { text, .. } => text.clone(),
                    TokV::Respan { base, .. } => StrV::OfSym(*base),
                    _ => return fail(),
                },
                _ => return fail(),
            };
            match text {
                StrV::Const(c) => ((c == *t) == eq).then(Vec::new),
                StrV::OfSym(q) => {
                    Some(vec![if eq { Assume::TextEq(q, t.clone()) } else { Assume::TextNe(q, t.clone()) }])
                }
                _ => fail(),
            }
        }
        Assume::Empty(s) | Assume::Cons(s) | Assume::Snoc(s) => {
            let n = sub(*s, f, v)?;
            let e = matches!(a, Assume::Empty(_));
            if n.is_empty() {
                return e.then(Vec::new);
            }
            if n.iter().any(|x| matches!(x, Node::Elem(_))) {
                return (!e).then(Vec::new);
            }
            match &n[..] {
                [Node::Sub(y)] => Some(vec![match a {
                    Assume::Empty(_) => Assume::Empty(*y),
                    Assume::Cons(_) => Assume::Cons(*y),
                    _ => Assume::Snoc(*y),
                }]),
                _ => fail(),
            }
        }
        Assume::SBound(s, b) => match &sub(*s, f, v)?[..] {
            [Node::Sub(y)] => Some(vec![Assume::SBound(*y, b.clone())]),
            _ => fail(),
        },
        Assume::Exp(s, n) => match &sub(*s, f, v)?[..] {
            [Node::Sub(y)] => Some(vec![Assume::Exp(*y, nodes(n, f, v)?)]),
            _ => fail(),
        },
        Assume::All(l) => {
            let mut r = vec![];
            for x in l {
                r.extend(assume(x, f, v)?);
            }
            Some(r)
        }
        Assume::Choice(_) => Some(vec![a.clone()]),
    }
}

/// The symbol whose (structural) value this is.
pub fn origin(v: &Val) -> Option<SymId> {
    let c = match v {
        Val::Agg(_, fs) => match fs.first()? {
            Val::Sym(c) => *c,
            Val::List(n) => match &n[..] {
                [Node::Sub(s)] => match sub_kind(*s) {
                    SubKind::OfSym(c) => c,
                    _ => return None,
                },
                _ => return None,
            },
            Val::Ref(Ptr::Imm(x)) => {
                let c = origin(&Val::agg(0, vec![(**x).clone()]));
                let _ = c;
                match &**x {
                    Val::Sym(c) => match sym_kind(*c) {
                        SymKind::Child(p, 0, 0) => p,
                        _ => return None,
                    },
                    _ => return None,
                }
            }
            _ => return None,
        },
        _ => return None,
    };
    match sym_kind(c) {
        SymKind::Child(p, _, 0) if val_of_sym(p) == *v => Some(p),
        _ => None,
    }
}
