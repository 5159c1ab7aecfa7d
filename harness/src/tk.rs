//! Construction of token streams without a lexer.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree as T};

pub fn sp() -> Span { Span::call_site() }
pub fn id(s: &str) -> TokenStream { T::Ident(Ident::new(s, sp())).into() }
pub fn rawid(s: &str) -> TokenStream { T::Ident(Ident::new_raw(s, sp())).into() }
pub fn p(c: char) -> TokenStream { T::Punct(Punct::new(c, Spacing::Alone)).into() }
pub fn pj(c: char) -> TokenStream { T::Punct(Punct::new(c, Spacing::Joint)).into() }
pub fn lit(l: Literal) -> TokenStream { T::Literal(l).into() }
pub fn st(s: &str) -> TokenStream { lit(Literal::string(s)) }
pub fn int(s: &str) -> TokenStream { lit(s.parse::<Literal>().unwrap()) }
pub fn grp(d: Delimiter, t: TokenStream) -> TokenStream { T::Group(Group::new(d, t)).into() }
pub fn brace(t: TokenStream) -> TokenStream { grp(Delimiter::Brace, t) }
pub fn paren(t: TokenStream) -> TokenStream { grp(Delimiter::Parenthesis, t) }
pub fn brack(t: TokenStream) -> TokenStream { grp(Delimiter::Bracket, t) }
pub fn none(t: TokenStream) -> TokenStream { grp(Delimiter::None, t) }
pub fn cat(v: impl IntoIterator<Item = TokenStream>) -> TokenStream {
    let mut o = TokenStream::new();
    for x in v {
        o.extend(x);
    }
    o
}
/// an identifier of the program the *specification* writes: raw form if the name can be raw
pub fn name(s: &str) -> Ident {
    if crate::flat::one_of(s.as_bytes(), &["_", "self", "Self", "super", "crate"]) {
        Ident::new(s, sp())
    } else {
        Ident::new_raw(s, sp())
    }
}
