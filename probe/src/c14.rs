//! Inline generic arguments.
use crate::vs;
use proc_macro2::*;
use quote::{ToTokens, TokenStreamExt};
use venial::*;

fn printed(l: &GenericParamList) -> TokenStream {
    let mut o = TokenStream::new();
    o.append(Punct::new('<', Spacing::Alone));
    for p in l.params.inner.iter() {
        if let Some(TokenTree::Punct(c)) = &p.0.tk_prefix {
            if c.as_char() == '\'' {
                o.append(c.clone());
            }
        }
        o.append(p.0.name.clone());
        o.append(Punct::new(',', Spacing::Alone));
    }
    o.append(Punct::new('>', Spacing::Alone));
    o
}
fn well_formed(l: &GenericParamList) {
    for p in l.params.inner.iter() {
        let ok = match &p.0.tk_prefix {
            None => true,
            Some(TokenTree::Punct(c)) => c.as_char() == '\'',
            Some(TokenTree::Ident(i)) => i == "const",
            _ => false,
        };
        vs::assume(ok);
    }
}
pub fn inline() {
    let l: GenericParamList = vs::any();
    let mut o = TokenStream::new();
    l.as_inline_args().to_tokens(&mut o);
    vs::same_tokens(o, printed(&l), "C14 inline arguments name every parameter once, in order");
}
pub fn owned() {
    let l: GenericParamList = vs::any();
    well_formed(&l);
    let r = l.as_inline_args().to_owned_args();
    let mut e: Vec<(GenericArg, Punct)> = Vec::new();
    for p in l.params.inner.iter() {
        let arg = match &p.0.tk_prefix {
            Some(TokenTree::Punct(c)) => {
                GenericArg::Lifetime { lifetime: Lifetime { tk_apostrophe: c.clone(), name: p.0.name.clone() } }
            }
            _ => GenericArg::TypeOrConst { expr: TypeExpr { tokens: vec![TokenTree::Ident(p.0.name.clone())] } },
        };
        e.push((arg, p.1.clone()));
    }
    vs::same(&r.args.inner, e, "C14 owned arguments list the same arguments with the original tokens");
    vs::require(r.args.skip_last == l.params.skip_last, "C14 owned arguments keep the missing last comma");
    vs::same(&r.tk_l_bracket, &l.tk_l_bracket, "C14 owned arguments keep the brackets");
    vs::same(&r.tk_r_bracket, &l.tk_r_bracket, "C14 owned arguments keep the brackets");
    vs::require(r.tk_turbofish_colons.is_none(), "C14 owned arguments have no turbofish");
}
macro_rules! decl {
    ($n:ident, $T:ty) => {
        pub fn $n() {
            let x: $T = vs::any();
            match (x.get_inline_generic_args(), &x.generic_params) {
                (Some(a), Some(l)) => {
                    let mut o = TokenStream::new();
                    a.to_tokens(&mut o);
                    vs::same_tokens(o, printed(l), "C14 inline arguments name every parameter once, in order");
                }
                (None, None) => {}
                _ => vs::unreachable("C14 inline arguments are present exactly with a parameter list"),
            }
        }
    };
}
decl! {inline_struct, Struct}
decl! {inline_enum, Enum}
decl! {inline_union, Union}
