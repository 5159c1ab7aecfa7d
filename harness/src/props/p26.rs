//! C26: the exported macro is the core expansion.
use crate::{gen::*, judge::*, run::{expand, expand_core, has_compile_error}, soup::*, spec::print, sym::*, tk};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::quote;

fn unit(t: &TokenStream) -> bool {
    let v: Vec<TokenTree> = t.clone().into_iter().collect();
    matches!(&v[..], [TokenTree::Group(g)] if g.delimiter() == Delimiter::Parenthesis && g.stream().is_empty())
}
/// through the exported macro and directly: the same, and where there is an error nothing but
/// errors and `()` is left
fn thin(t: TokenStream) {
    tell("input", &t);
    let t2 = t.clone();
    expand(t, move |a| {
        tell_res(&a);
        note_res(&a);
        cover(1);
        if a.out.is_none() || a.errors() > 0 {
            check(a.errors() > 0, 7);
            check(a.dummy.as_ref().is_some_and(unit), 18);
        } else if let Some(o) = &a.out {
            // an output which is no view is nothing but an error
            if has_compile_error(o) {
                cover(2);
            }
        }
        expand_core(t2, move |b| {
            tell_res(&b);
            check(super::p18::same_res(&a, &b), 3);
        });
    });
}

entries! {
    fn c26_root() { thin(toks(&soup_to(super::p01::ALL, 3, 0))); }
    fn t26_root4() { thin(toks(&soup(b"aB-=:.;|{~", 4, 0))); }
    fn c26_group() {
        let s = toks(&soup_to(b"aB;s:=.", 2, 0));
        thin(match choice(6) { 0 => tk::brace(s), 1 => tk::paren(s), 2 => tk::brack(s), 3 => tk::none(s), 4 => { let a = tk::none(s); quote!(#a div;) }, _ => { let a = tk::brace(s); quote!(#a #a) } });
    }
    fn c26_in() {
        let k = choice(super::p01::NCTX) as usize;
        thin(super::p01::within(k, toks(&soup_to(super::p01::ATTR, 2, 0))));
    }
    fn c26_more() { thin(print(&one_more(super::ctx::f_any()))); }
    fn c26_wrong() { thin(print(&one_more(super::ctx::wrong_any()))); }
    fn c26_repeated() { thin(print(&place(super::ctx::repeated(choice(21), choice(8)), [0, 5][choice(2)]))); }
    fn c26_edit() { thin(super::p01::edit(super::p01::long_view()).into_iter().collect()); }
    fn t26_twice() { super::p18::again(print(&one_more(super::ctx::f_any())), print(&[super::ctx::wrong_any().node()])); }
}
