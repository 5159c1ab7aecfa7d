//! Runs the real expansion; continues with what the compiler would be given.
use crate::sym;
use proc_macro2::TokenStream;
use proc_macro_error2::verif::{enter, leave, Diag};
use std::cell::RefCell;

pub struct Res {
    /// `None`: expansion was aborted (the macro then expands to the dummy)
    pub out: Option<TokenStream>,
    pub diags: Vec<Diag>,
    pub dummy: Option<TokenStream>,
}
impl Res {
    pub fn errors(&self) -> usize { self.diags.iter().filter(|d| d.is_error).count() }
    /// an error reaches the compiler: a recorded one, an abort, or `compile_error!` in the output
    pub fn reported(&self) -> bool {
        self.errors() > 0 || self.out.is_none() || self.out.as_ref().is_some_and(|o| has_compile_error(o))
    }
}

pub fn has_compile_error(t: &TokenStream) -> bool {
    use proc_macro2::TokenTree as T;
    t.clone().into_iter().any(|t| match t {
        T::Ident(i) => i == "compile_error",
        T::Group(g) => has_compile_error(&g.stream()),
        _ => false,
    })
}

type K = Box<dyn FnOnce(Res)>;
thread_local! {
    static CONT: RefCell<Vec<K>> = const { RefCell::new(Vec::new()) };
}

fn on_abort() -> ! {
    let (diags, dummy) = leave();
    let k = CONT.with(|c| c.borrow_mut().pop()).unwrap();
    k(Res { out: None, diags, dummy });
    sym::exit()
}

/// The crates around the core as modules of this one (see build.rs).
#[allow(unused, clippy::all)]
mod real { include!(concat!(env!("OUT_DIR"), "/exported.rs")); }

/// Expands `t` with the real implementation and hands the result to `k`, also when the
/// expansion aborts.
pub fn expand(t: TokenStream, k: impl FnOnce(Res) + 'static) { expand_with(real::exported::mview, t, k) }
/// the core alone
pub fn expand_core(t: TokenStream, k: impl FnOnce(Res) + 'static) { expand_with(leptos_mview_core::mview_impl, t, k) }
fn expand_with(f: fn(TokenStream) -> TokenStream, t: TokenStream, k: impl FnOnce(Res) + 'static) {
    CONT.with(|c| c.borrow_mut().push(Box::new(k)));
    // without the attribute an error is a panic, as in a compiler
    if real::GUARDED {
        enter(on_abort);
    }
    let out = f(t);
    let (diags, dummy) = leave();
    let k = CONT.with(|c| c.borrow_mut().pop()).unwrap();
    k(Res { out: Some(out), diags, dummy });
}
