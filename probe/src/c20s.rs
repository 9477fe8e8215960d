//! Well-formed declarations of the supported forms are accepted.
use crate::vs;
use proc_macro2::*;
use venial::*;

type V = Vec<TokenTree>;
fn id(w: &str) -> TokenTree {
    TokenTree::Ident(Ident::new(w, Span::call_site()))
}
fn pn(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Alone))
}
fn pj(c: char) -> TokenTree {
    TokenTree::Punct(Punct::new(c, Spacing::Joint))
}
fn grp(d: Delimiter, v: V) -> TokenTree {
    TokenTree::Group(Group::new(d, v.into_iter().collect()))
}
fn stuff(d: Delimiter) -> TokenTree {
    let s: TokenStream = vs::any();
    TokenTree::Group(Group::new(d, s))
}
fn yes() -> bool {
    vs::any()
}
fn cat(v: Vec<V>) -> V {
    let mut o = Vec::new();
    for x in v {
        o.extend(x);
    }
    o
}
/// a name that is no keyword of the declaration grammar
fn name() -> TokenTree {
    let i: Ident = vs::any();
    vs::assume(!matches!(
        i.to_string().as_str(),
        "pub" | "crate" | "struct" | "enum" | "union" | "mod" | "trait" | "impl" | "static" | "use" | "default" | "const" | "async" | "unsafe" | "extern" | "fn" | "type" | "where" | "for" | "mut" | "self" | "as" | "dyn"
    ));
    TokenTree::Ident(i)
}
fn lit() -> TokenTree {
    let l: Literal = vs::any();
    TokenTree::Literal(l)
}
fn attrs(inner: bool) -> V {
    let mut v = Vec::new();
    if yes() {
        v.push(pn('#'));
        if inner {
            v.push(pn('!'));
        }
        let mut c = vec![name()];
        if yes() {
            c.extend(vec![pj(':'), pn(':'), name()]);
        }
        if yes() {
            c.push(stuff(Delimiter::Parenthesis));
        } else if yes() {
            let t: TokenTree = vs::any();
            c.extend(vec![pn('='), t]);
        }
        v.push(grp(Delimiter::Bracket, c));
    }
    v
}
fn two_attrs() -> V {
    vec![pn('#'), grp(Delimiter::Bracket, vec![name(), pn('='), lit()]), pn('#'), grp(Delimiter::Bracket, vec![name(), stuff(Delimiter::Bracket)])]
}
fn vis() -> V {
    if yes() {
        vec![id("pub")]
    } else if yes() {
        vec![id("pub"), stuff(Delimiter::Parenthesis)]
    } else if yes() {
        vec![id("crate")]
    } else {
        vec![]
    }
}
/// a type with balanced angle brackets that starts with neither `<` nor a group
fn plain_ty() -> V {
    if yes() {
        vec![name()]
    } else if yes() {
        vec![id("crate"), pj(':'), pn(':'), name()]
    } else if yes() {
        vec![name(), pn('<'), name(), pn(','), pj('\''), name(), pn('>')]
    } else if yes() {
        vec![pn('&'), pj('\''), name(), id("mut"), id("dyn"), name(), pn('+'), name()]
    } else {
        vec![id("fn"), stuff(Delimiter::Parenthesis), pj('-'), pn('>'), name()]
    }
}
/// a type with balanced angle brackets
fn ty() -> V {
    if yes() {
        vec![name()]
    } else if yes() {
        vec![id("crate"), pj(':'), pn(':'), name()]
    } else if yes() {
        vec![name(), pn('<'), name(), pn(','), pj('\''), name(), pn('>')]
    } else if yes() {
        vec![pn('&'), pj('\''), name(), id("mut"), id("dyn"), name(), pn('+'), name()]
    } else if yes() {
        vec![id("fn"), stuff(Delimiter::Parenthesis), pj('-'), pn('>'), name()]
    } else if yes() {
        vec![pn('<'), name(), id("as"), name(), pj('>'), pj(':'), pn(':'), name()]
    } else if yes() {
        vec![stuff(Delimiter::Parenthesis)]
    } else {
        vec![stuff(Delimiter::Bracket)]
    }
}
fn one_ty() -> V {
    vec![name(), pn('<'), name(), pj('>')]
}
fn bound() -> V {
    if yes() {
        vec![name()]
    } else if yes() {
        vec![name(), pn('+'), pj('\''), name()]
    } else if yes() {
        vec![pn('?'), name(), pn('+'), name(), pn('<'), name(), pn('='), name(), pn(','), name(), pn('>')]
    } else {
        vec![name(), stuff(Delimiter::Parenthesis), pj('-'), pn('>'), name()]
    }
}
fn param() -> V {
    if yes() {
        vec![name()]
    } else if yes() {
        vec![pj('\''), name()]
    } else if yes() {
        vec![pj('\''), name(), pn(':'), pj('\''), name()]
    } else if yes() {
        vec![id("const"), name(), pn(':'), name()]
    } else {
        cat(vec![vec![name(), pn(':')], bound()])
    }
}
fn generics() -> V {
    if yes() {
        return vec![];
    }
    let mut v = vec![pn('<')];
    if yes() {
        v.extend(param());
        if yes() {
            v.push(pn(','));
        }
    }
    v.push(pn('>'));
    v
}
fn generics2() -> V {
    let mut v = vec![pn('<')];
    v.extend(param());
    v.push(pn(','));
    v.extend(param());
    if yes() {
        v.push(pn(','));
    }
    v.push(pn('>'));
    v
}
fn some_generics() -> V {
    if yes() {
        vec![pn('<'), pj('\''), name(), pn(','), name(), pn(':'), name(), pn(','), id("const"), name(), pn(':'), name(), pn('>')]
    } else {
        vec![]
    }
}
fn predicate() -> V {
    if yes() {
        vec![name(), pn(':'), name()]
    } else if yes() {
        vec![pj('\''), name(), pn(':'), pj('\''), name()]
    } else if yes() {
        vec![name(), pj(':'), pn(':'), name(), pn(':'), name(), pn('<'), name(), pn(','), name(), pn('>')]
    } else {
        cat(vec![vec![id("for"), pn('<'), pj('\''), name(), pn('>'), name(), pn(':')], bound()])
    }
}
fn where_() -> V {
    if yes() {
        return vec![];
    }
    let mut v = vec![id("where")];
    if yes() {
        v.extend(predicate());
        if yes() {
            v.push(pn(','));
        }
    }
    v
}
fn some_where() -> V {
    if yes() {
        vec![id("where"), name(), pn(':'), name(), pn(','), name(), pn(':'), name(), pn('+'), name()]
    } else {
        vec![]
    }
}
fn comma() -> V {
    if yes() {
        vec![pn(',')]
    } else {
        vec![]
    }
}
fn named(v: V) -> V {
    vec![grp(Delimiter::Brace, v)]
}
fn tuple(v: V) -> V {
    vec![grp(Delimiter::Parenthesis, v)]
}
fn helper_ok(v: V, kind: u8) {
    vs::bounded(2);
    let ts: TokenStream = v.into_iter().collect();
    vs::no_panic("C20 a well-formed declaration is not refused");
    let r = parse_item(ts);
    vs::panics();
    match r {
        Err(_) => vs::unreachable("C20 a well-formed declaration is no error"),
        Ok(i) => {
            let k = match i {
                Item::Struct(_) => 0,
                Item::Enum(_) => 1,
                Item::Union(_) => 2,
                Item::Module(_) => 3,
                Item::Trait(_) => 4,
                Item::Impl(_) => 5,
                Item::TypeAlias(_) => 6,
                Item::Function(_) => 7,
                Item::Constant(_) => 8,
                Item::UseDeclaration(_) => 9,
                Item::Macro(_) => 10,
                Item::ExternBlock(_) => 11,
                Item::ExternCrate(_) => 12,
                _ => 13,
            };
            vs::require(k == kind, "C20 a declaration is returned as its kind");
        }
    }
}
pub fn struct_unit() {
    helper_ok(cat(vec![attrs(false), vis(), vec![id("struct"), name()], some_generics(), some_where(), vec![pn(';')]]), 0);
}
pub fn struct_generics() {
    helper_ok(cat(vec![vec![id("struct"), name()], generics(), vec![pn(';')]]), 0);
}
pub fn struct_generics2() {
    helper_ok(cat(vec![vec![id("struct"), name()], generics2(), named(vec![])]), 0);
}
pub fn struct_where() {
    helper_ok(cat(vec![vec![id("struct"), name()], where_(), named(vec![])]), 0);
}
pub fn struct_where_unit() {
    helper_ok(cat(vec![vec![id("struct"), name()], where_(), vec![pn(';')]]), 0);
}
pub fn struct_where_tuple() {
    helper_ok(cat(vec![vec![id("struct"), name()], tuple(vec![]), where_(), vec![pn(';')]]), 0);
}
pub fn struct_tuple() {
    helper_ok(cat(vec![vec![id("struct"), name()], some_generics(), tuple(cat(vec![attrs(false), vis(), ty(), comma()])), vec![pn(';')]]), 0);
}
pub fn struct_tuple2() {
    helper_ok(cat(vec![two_attrs(), vec![id("pub"), id("struct"), name()], tuple(cat(vec![ty(), vec![pn(',')], two_attrs(), ty(), comma()])), vec![pn(';')]]), 0);
}
pub fn struct_named() {
    helper_ok(cat(vec![vec![id("struct"), name()], named(cat(vec![attrs(false), vis(), vec![name(), pn(':')], ty(), comma()]))]), 0);
}
pub fn struct_named2() {
    helper_ok(cat(vec![vec![id("struct"), name()], some_generics(), some_where(), named(cat(vec![vec![name(), pn(':')], ty(), vec![pn(',')], vis(), vec![name(), pn(':')], ty(), comma()]))]), 0);
}
fn variant() -> V {
    let mut v = vec![name()];
    if yes() {
        v.extend(tuple(cat(vec![one_ty(), comma()])));
    } else if yes() {
        v.extend(named(cat(vec![vec![name(), pn(':')], one_ty(), comma()])));
    }
    if yes() {
        let t: TokenTree = vs::any();
        v.extend(vec![pn('='), t]);
    }
    v
}
pub fn enum_() {
    helper_ok(cat(vec![attrs(false), vis(), vec![id("enum"), name()], some_generics(), some_where(), named(vec![name()])]), 1);
}
pub fn enum_empty() {
    helper_ok(cat(vec![vec![id("enum"), name()], generics(), where_(), named(vec![])]), 1);
}
pub fn enum_variant() {
    helper_ok(cat(vec![vec![id("enum"), name()], named(cat(vec![attrs(false), vis(), variant(), comma()]))]), 1);
}
pub fn enum_variants() {
    helper_ok(cat(vec![vec![id("enum"), name()], named(cat(vec![variant(), vec![pn(',')], variant(), vec![pn(','), name()], comma()]))]), 1);
}
pub fn union_() {
    helper_ok(cat(vec![attrs(false), vis(), vec![id("union"), name()], some_generics(), some_where(), named(cat(vec![vis(), vec![name(), pn(':')], one_ty(), comma()]))]), 2);
}
pub fn union_fields() {
    helper_ok(cat(vec![vec![id("union"), name()], named(cat(vec![attrs(false), vec![name(), pn(':')], ty(), vec![pn(','), name(), pn(':')], ty(), comma()]))]), 2);
}
fn unsafe_() -> V {
    if yes() {
        vec![id("unsafe")]
    } else {
        vec![]
    }
}
pub fn module() {
    let end = if yes() { vec![pn(';')] } else { named(cat(vec![attrs(true), vec![id("struct"), name(), pn(';')]])) };
    helper_ok(cat(vec![attrs(false), vis(), unsafe_(), vec![id("mod"), name()], end]), 3);
}
pub fn module_members() {
    helper_ok(cat(vec![vec![id("mod"), name()], named(cat(vec![attrs(true), attrs(false), vis(), vec![id("fn"), name()], tuple(vec![]), vec![stuff(Delimiter::Brace)], vec![id("enum"), name(), grp(Delimiter::Brace, vec![]), name(), pn('!'), stuff(Delimiter::Brace)]]))]), 3);
}
fn supertraits() -> V {
    if yes() {
        cat(vec![vec![pn(':')], bound()])
    } else {
        vec![]
    }
}
pub fn trait_() {
    helper_ok(cat(vec![attrs(false), vis(), unsafe_(), vec![id("trait"), name()], some_generics(), supertraits(), some_where(), named(vec![])]), 4);
}
fn member() -> V {
    if yes() {
        vec![id("type"), name(), pn(';')]
    } else if yes() {
        cat(vec![vec![id("type"), name(), pn(':')], bound(), vec![pn('=')], ty(), vec![pn(';')]])
    } else if yes() {
        cat(vec![vec![id("const"), name(), pn(':')], ty(), vec![pn(';')]])
    } else if yes() {
        cat(vec![vec![id("const"), name(), pn(':')], one_ty(), vec![pn('='), lit(), pn(';')]])
    } else if yes() {
        vec![id("fn"), name(), grp(Delimiter::Parenthesis, vec![pn('&'), id("self")]), pn(';')]
    } else if yes() {
        vec![id("const"), id("unsafe"), id("fn"), name(), grp(Delimiter::Parenthesis, vec![]), stuff(Delimiter::Brace)]
    } else if yes() {
        vec![id("default"), id("fn"), name(), grp(Delimiter::Parenthesis, vec![]), stuff(Delimiter::Brace)]
    } else if yes() {
        vec![name(), pn('!'), stuff(Delimiter::Parenthesis), pn(';')]
    } else {
        vec![name(), pn('!'), stuff(Delimiter::Brace)]
    }
}
pub fn trait_members() {
    helper_ok(cat(vec![vec![id("trait"), name()], named(cat(vec![attrs(true), two_attrs(), member()]))]), 4);
}
pub fn trait_members2() {
    helper_ok(cat(vec![vec![id("trait"), name()], named(cat(vec![member(), attrs(false), vec![id("type"), name(), pn(';')]]))]), 4);
}
pub fn trait_members3() {
    helper_ok(cat(vec![vec![id("trait"), name()], named(cat(vec![vec![id("fn"), name(), grp(Delimiter::Parenthesis, vec![]), pn(';')], member()]))]), 4);
}
pub fn impl_() {
    helper_ok(cat(vec![attrs(false), unsafe_(), vec![id("impl")], some_generics(), plain_ty(), some_where(), named(vec![])]), 5);
}
pub fn impl_for() {
    helper_ok(cat(vec![unsafe_(), vec![id("impl")], generics(), one_ty(), vec![id("for")], ty(), some_where(), named(vec![])]), 5);
}
pub fn impl_generics() {
    helper_ok(cat(vec![vec![id("impl")], generics2(), vec![name(), id("for"), name()], where_(), named(vec![])]), 5);
}
pub fn impl_members() {
    helper_ok(cat(vec![vec![id("impl"), name()], named(cat(vec![attrs(true), two_attrs(), member()]))]), 5);
}
pub fn impl_members2() {
    helper_ok(cat(vec![vec![id("impl"), name()], named(cat(vec![vec![id("pub"), id("fn"), name(), grp(Delimiter::Parenthesis, vec![]), stuff(Delimiter::Brace)], member(), vec![id("pub"), id("const"), name(), pn(':'), name(), pn(';')]]))]), 5);
}
pub fn type_() {
    let b = if yes() { cat(vec![vec![pn(':')], bound()]) } else { vec![] };
    let t = if yes() { cat(vec![vec![pn('=')], ty()]) } else { vec![] };
    helper_ok(cat(vec![attrs(false), vis(), vec![id("type"), name()], b, t, vec![pn(';')]]), 6);
}
fn opt(w: &str) -> V {
    if yes() {
        vec![id(w)]
    } else {
        vec![]
    }
}
fn end() -> V {
    if yes() {
        vec![pn(';')]
    } else {
        vec![stuff(Delimiter::Brace)]
    }
}
pub fn fn_qualifiers() {
    let e = if yes() {
        vec![id("extern")]
    } else if yes() {
        vec![id("extern"), lit()]
    } else {
        vec![]
    };
    helper_ok(cat(vec![vis(), opt("default"), opt("const"), opt("async"), opt("unsafe"), e, vec![id("fn"), name()], tuple(vec![]), end()]), 7);
}
pub fn fn_signature() {
    let r = if yes() { cat(vec![vec![pj('-'), pn('>')], ty()]) } else { vec![] };
    helper_ok(cat(vec![attrs(false), vec![id("fn"), name()], some_generics(), tuple(vec![]), r, some_where(), end()]), 7);
}
pub fn fn_return_where() {
    helper_ok(cat(vec![vec![id("fn"), name()], generics(), tuple(vec![]), vec![pj('-'), pn('>')], ty(), where_(), end()]), 7);
}
fn self_() -> V {
    if yes() {
        vec![id("self")]
    } else if yes() {
        vec![id("mut"), id("self")]
    } else if yes() {
        vec![pn('&'), id("self")]
    } else if yes() {
        vec![pn('&'), id("mut"), id("self")]
    } else if yes() {
        vec![pn('&'), pj('\''), name(), id("self")]
    } else {
        vec![pn('&'), pj('\''), name(), id("mut"), id("self")]
    }
}
pub fn fn_self() {
    helper_ok(cat(vec![vec![id("fn"), name()], tuple(cat(vec![attrs(false), self_(), comma()])), end()]), 7);
}
pub fn fn_params() {
    helper_ok(cat(vec![vec![id("fn"), name()], tuple(cat(vec![self_(), vec![pn(',')], attrs(false), opt("mut"), vec![name(), pn(':')], one_ty(), comma()])), end()]), 7);
}
pub fn fn_params2() {
    helper_ok(cat(vec![vec![id("fn"), name()], tuple(cat(vec![opt("mut"), vec![name(), pn(':')], ty(), vec![pn(',')], two_attrs(), vec![name(), pn(':')], ty(), comma()])), end()]), 7);
}
pub fn const_() {
    let v = if yes() {
        let t: TokenTree = vs::any();
        vs::assume(!matches!(&t, TokenTree::Punct(_)));
        if yes() {
            vec![pn('='), t, pn('+'), lit()]
        } else if yes() {
            vec![pn('='), t, pn('<'), lit()]
        } else {
            vec![pn('='), t, pj('>'), pn('>'), lit()]
        }
    } else {
        vec![]
    };
    helper_ok(cat(vec![attrs(false), vis(), vec![id("const"), name(), pn(':')], ty(), v, vec![pn(';')]]), 8);
}
pub fn static_() {
    let v = if yes() { vec![pn('='), name(), stuff(Delimiter::Brace)] } else { vec![] };
    helper_ok(cat(vec![attrs(false), vis(), vec![id("static")], opt("mut"), vec![name(), pn(':')], ty(), v, vec![pn(';')]]), 8);
}
pub fn use_() {
    let r = if yes() {
        vec![name(), pj(':'), pn(':'), stuff(Delimiter::Brace)]
    } else if yes() {
        vec![pj(':'), pn(':'), name(), id("as"), name()]
    } else {
        vec![id("crate"), pj(':'), pn(':'), pn('*')]
    };
    helper_ok(cat(vec![attrs(false), vis(), vec![id("use")], r, vec![pn(';')]]), 9);
}
pub fn macro_() {
    let n = if yes() { vec![name()] } else { vec![] };
    let b = if yes() { vec![stuff(Delimiter::Brace)] } else { vec![stuff(Delimiter::Parenthesis), pn(';')] };
    helper_ok(cat(vec![attrs(false), vec![name(), pn('!')], n, b]), 10);
}
pub fn extern_() {
    let abi = if yes() { vec![lit()] } else { vec![] };
    helper_ok(cat(vec![attrs(false), vis(), vec![id("extern")], abi, named(attrs(true))]), 11);
}
pub fn extern_members() {
    let m = if yes() {
        cat(vec![vis(), vec![id("fn"), name()], tuple(cat(vec![vec![name(), pn(':')], ty()])), vec![pn(';')]])
    } else if yes() {
        cat(vec![vis(), vec![id("static")], opt("mut"), vec![name(), pn(':')], ty(), vec![pn(';')]])
    } else {
        vec![id("type"), name(), pn(';')]
    };
    helper_ok(cat(vec![vec![id("extern"), lit()], named(cat(vec![attrs(false), m, vec![id("fn"), name(), grp(Delimiter::Parenthesis, vec![]), pn(';')]]))]), 11);
}
pub fn extern_crate() {
    let a = if yes() { vec![id("as"), name()] } else { vec![] };
    helper_ok(cat(vec![attrs(false), vis(), vec![id("extern"), id("crate"), name()], a, vec![pn(';')]]), 12);
}
