

#![cfg_attr(feature = "nightly", feature(proc_macro_diagnostic))]
#![forbid(unsafe_code)]

extern crate proc_macro;

pub use crate::{
    diagnostic::{Diagnostic, DiagnosticExt, Level},
    dummy::{append_dummy, set_dummy},
};

use proc_macro2::Span;
use quote::ToTokens;

use std::cell::Cell;

pub mod dummy;

mod diagnostic;
mod macros;
mod sealed;

#[path = "imp/fallback.rs"]
mod imp;


#[derive(Debug, Clone, Copy)]
#[must_use = "A SpanRange does nothing unless used"]
pub struct SpanRange {
    pub first: Span,
    pub last: Span,
}

impl SpanRange {
    /// Create a range with the `first` and `last` spans being the same.
    pub fn single_span(span: Span) -> Self {
        SpanRange {
            first: span,
            last: span,
        }
    }

    /// Create a `SpanRange` resolving at call site.
    pub fn call_site() -> Self {
        SpanRange::single_span(Span::call_site())
    }

    /// Construct span range from a `TokenStream`. This method always preserves all the
    /// range.
    ///
    /// ### Note
    ///
    /// If the stream is empty, the result is `SpanRange::call_site()`. If the stream
    /// consists of only one `TokenTree`, the result is `SpanRange::single_span(tt.span())`
    /// that doesn't lose anything.
    pub fn from_tokens(ts: &dyn ToTokens) -> Self {
        let mut spans = ts.to_token_stream().into_iter().map(|tt| tt.span());
        let first = spans.next().unwrap_or_else(Span::call_site);
        let last = spans.last().unwrap_or(first);

        SpanRange { first, last }
    }

    /// Join two span ranges. The resulting range will start at `self.first` and end at
    /// `other.last`.
    pub fn join_range(self, other: SpanRange) -> Self {
        SpanRange {
            first: self.first,
            last: other.last,
        }
    }

    /// Collapse the range into single span, preserving as much information as possible.
    #[must_use]
    pub fn collapse(self) -> Span {
        self.first.join(self.last).unwrap_or(self.first)
    }
}

/// This traits expands `Result<T, Into<Diagnostic>>` with some handy shortcuts.
pub trait ResultExt {
    type Ok;

    /// Behaves like `Result::unwrap`: if self is `Ok` yield the contained value,
    /// otherwise abort macro execution via `abort!`.
    fn unwrap_or_abort(self) -> Self::Ok;

    /// Behaves like `Result::expect`: if self is `Ok` yield the contained value,
    /// otherwise abort macro execution via `abort!`.
    /// If it aborts then resulting error message will be preceded with `message`.
    fn expect_or_abort(self, msg: &str) -> Self::Ok;
}

/// This traits expands `Option` with some handy shortcuts.
pub trait OptionExt {
    type Some;

    /// Behaves like `Option::expect`: if self is `Some` yield the contained value,
    /// otherwise abort macro execution via `abort_call_site!`.
    /// If it aborts the `message` will be used for [`compile_error!`][compl_err] invocation.
    ///
    /// [compl_err]: https://doc.rust-lang.org/std/macro.compile_error.html
    fn expect_or_abort(self, msg: &str) -> Self::Some;
}

/// Abort macro execution and display all the emitted errors, if any.
///
/// Does nothing if no errors were emitted (warnings do not count).
pub fn abort_if_dirty() {
    imp::abort_if_dirty();
}

impl<T, E: Into<Diagnostic>> ResultExt for Result<T, E> {
    type Ok = T;

    fn unwrap_or_abort(self) -> T {
        match self {
            Ok(res) => res,
            Err(e) => e.into().abort(),
        }
    }

    fn expect_or_abort(self, message: &str) -> T {
        match self {
            Ok(res) => res,
            Err(e) => {
                let mut e = e.into();
                e.msg = format!("{}: {}", message, e.msg);
                e.abort()
            }
        }
    }
}

impl<T> OptionExt for Option<T> {
    type Some = T;

    fn expect_or_abort(self, message: &str) -> T {
        match self {
            Some(res) => res,
            None => abort_call_site!(message),
        }
    }
}

/// This is the entry point for a proc-macro.
///
/// **NOT PUBLIC API, SUBJECT TO CHANGE WITHOUT ANY NOTICE**

fn abort_now() -> ! {
    check_correctness();
    let hook = verif::HOOK.with(Cell::get).expect("no abort hook installed");
    hook()
}

/// Verification harness entry (replaces `entry_point`).
pub mod verif {
    use super::*;

    thread_local! {
        pub(crate) static HOOK: Cell<Option<fn() -> !>> = const { Cell::new(None) };
    }

    /// A recorded diagnostic, in plain form.
    pub struct Diag {
        pub is_error: bool,
        pub msg: String,
        pub first: Span,
        pub last: Span,
        /// Number of attached helps/notes and child errors.
        pub extras: usize,
    }

    /// Enters the proc-macro context with empty stores.
    pub fn enter(on_abort: fn() -> !) {
        HOOK.with(|h| h.set(Some(on_abort)));
        ENTERED_ENTRY_POINT.with(|flag| flag.set(1));
        let _ = dummy::cleanup();
        let _ = imp::cleanup();
    }

    /// Leaves the context: everything emitted since `enter`, and the dummy.
    pub fn leave() -> (Vec<Diag>, Option<proc_macro2::TokenStream>) {
        let dummy = dummy::cleanup();
        let diags = imp::cleanup()
            .into_iter()
            .map(|d| Diag {
                is_error: d.level == Level::Error,
                first: d.span_range.first,
                last: d.span_range.last,
                extras: d.suggestions.len() + d.children.len(),
                msg: d.msg,
            })
            .collect();
        ENTERED_ENTRY_POINT.with(|flag| flag.set(0));
        (diags, dummy)
    }
}

thread_local! {
    static ENTERED_ENTRY_POINT: Cell<usize> = const { Cell::new(0) };
}


fn check_correctness() {
    assert!(
        ENTERED_ENTRY_POINT.with(Cell::get) != 0,
        "proc-macro-error2 API cannot be used outside of `entry_point` invocation, \
             perhaps you forgot to annotate your #[proc_macro] function with `#[proc_macro_error]"
    );
}

/// **ALL THE STUFF INSIDE IS NOT PUBLIC API!!!**
#[doc(hidden)]
pub mod __export {
    // reexports for use in macros
    pub use proc_macro;
    pub use proc_macro2;

    use proc_macro2::Span;
    use quote::ToTokens;

    use crate::SpanRange;

    // inspired by
    // https://github.com/dtolnay/case-studies/blob/master/autoref-specialization/README.md#simple-application

    pub trait SpanAsSpanRange {
        #[allow(non_snake_case)]
        fn FIRST_ARG_MUST_EITHER_BE_Span_OR_IMPLEMENT_ToTokens_OR_BE_SpanRange(&self) -> SpanRange;
    }

    pub trait Span2AsSpanRange {
        #[allow(non_snake_case)]
        fn FIRST_ARG_MUST_EITHER_BE_Span_OR_IMPLEMENT_ToTokens_OR_BE_SpanRange(&self) -> SpanRange;
    }

    pub trait ToTokensAsSpanRange {
        #[allow(non_snake_case)]
        fn FIRST_ARG_MUST_EITHER_BE_Span_OR_IMPLEMENT_ToTokens_OR_BE_SpanRange(&self) -> SpanRange;
    }

    pub trait SpanRangeAsSpanRange {
        #[allow(non_snake_case)]
        fn FIRST_ARG_MUST_EITHER_BE_Span_OR_IMPLEMENT_ToTokens_OR_BE_SpanRange(&self) -> SpanRange;
    }

    impl<T: ToTokens> ToTokensAsSpanRange for &T {
        fn FIRST_ARG_MUST_EITHER_BE_Span_OR_IMPLEMENT_ToTokens_OR_BE_SpanRange(&self) -> SpanRange {
            let mut ts = self.to_token_stream().into_iter();
            let first = match ts.next() {
                Some(t) => t.span(),
                None => Span::call_site(),
            };

            let last = match ts.last() {
                Some(t) => t.span(),
                None => first,
            };

            SpanRange { first, last }
        }
    }

    impl Span2AsSpanRange for Span {
        fn FIRST_ARG_MUST_EITHER_BE_Span_OR_IMPLEMENT_ToTokens_OR_BE_SpanRange(&self) -> SpanRange {
            SpanRange {
                first: *self,
                last: *self,
            }
        }
    }

    impl SpanAsSpanRange for proc_macro::Span {
        fn FIRST_ARG_MUST_EITHER_BE_Span_OR_IMPLEMENT_ToTokens_OR_BE_SpanRange(&self) -> SpanRange {
            SpanRange {
                first: (*self).into(),
                last: (*self).into(),
            }
        }
    }

    impl SpanRangeAsSpanRange for SpanRange {
        fn FIRST_ARG_MUST_EITHER_BE_Span_OR_IMPLEMENT_ToTokens_OR_BE_SpanRange(&self) -> SpanRange {
            *self
        }
    }
}

/// Only so that `use proc_macro_error2::proc_macro_error` resolves: the harness build
/// removes the attribute and notes that it was there.
#[macro_export]
macro_rules! proc_macro_error {
    ($($t:tt)*) => {};
}
