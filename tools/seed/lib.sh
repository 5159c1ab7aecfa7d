# Helpers for demo.sh: expands views with the core crate of the tree in $PWD.
# Everything is built in a scratch directory that is removed at the end.
set -u
REPO=$PWD
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2025-09-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
export CARGO_TARGET_DIR=$S/target
mkdir -p "$S/expander/src" "$S/user/src"
cat > "$S/Cargo.toml" <<X
[workspace]
members = ["expander", "user"]
resolver = "2"
X
cat > "$S/expander/Cargo.toml" <<X
[package]
name = "expander"
version = "0.0.0"
edition = "2021"
[lib]
proc-macro = true
[dependencies]
leptos-mview-core = { path = "$REPO/leptos-mview-core" }
proc-macro2 = "1"
quote = "1"
proc-macro-error2 = "2"
X
cat > "$S/expander/src/lib.rs" <<'X'
use proc_macro_error2::proc_macro_error;
/// The expansion, as a string literal.
#[proc_macro_error]
#[proc_macro]
pub fn expand(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let out = leptos_mview_core::mview_impl(input.into()).to_string();
    quote::quote!(#out).into()
}
/// Where each identifier of the expansion is located, as a string literal.
#[proc_macro_error]
#[proc_macro]
pub fn located(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    fn walk(ts: proc_macro2::TokenStream, out: &mut String) {
        for tt in ts {
            match tt {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                proc_macro2::TokenTree::Ident(i) => {
                    let s = i.span().unwrap().start();
                    let e = i.span().unwrap().end();
                    out.push_str(&format!("{}@{}:{}-{}:{} ", i, s.line(), s.column(), e.line(), e.column()));
                }
                _ => {}
            }
        }
    }
    let mut s = String::new();
    walk(leptos_mview_core::mview_impl(input.into()), &mut s);
    quote::quote!(#s).into()
}
/// Like `expand`, but a string even with errors (empty if expansion is aborted).
#[proc_macro]
pub fn anyway(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let text = std::rc::Rc::new(std::cell::RefCell::new(String::new()));
    let t = text.clone();
    let _ = proc_macro_error2::entry_point(std::panic::AssertUnwindSafe(move || { let o = leptos_mview_core::mview_impl(input.into()); *t.borrow_mut() = o.to_string(); o.into() }), false);
    let s = text.borrow().clone();
    quote::quote!(#s).into()
}
X
cat > "$S/user/Cargo.toml" <<X
[package]
name = "user"
version = "0.0.0"
edition = "2021"
[dependencies]
expander = { path = "../expander" }
X
cp "$REPO/Cargo.lock" "$S/Cargo.lock" 2>/dev/null

# run MACRO TOKENS: builds and runs a program printing MACRO!{TOKENS};
# output in $OUT without whitespace (compiler messages if it did not build), status in $ST
run() {
    printf '#![allow(unused)]\nfn main(){ print!("{}", expander::%s!{\n%s\n}); }\n' "$1" "$2" > "$S/user/src/main.rs"
    if ( cd "$S" && timeout 200 cargo build -q --offline -p user ) > "$S/log" 2>&1; then
        ST=0; OUT=$("$S/target/debug/user" | tr -d ' \n\t')
    else
        ST=1; OUT=$(cat "$S/log")
    fi
}
fail() { echo "DEMO FAILS: $*"; echo "$OUT" | head -c 4000; exit 1; }
# expansion of $1 contains $2 (whitespace removed)
has() { run expand "$1"; [ $ST = 0 ] || fail "does not expand: $1"; case "$OUT" in *"$2"*) ;; *) fail "expected '$2' in the expansion of: $1";; esac; }
hasnt() { run expand "$1"; [ $ST = 0 ] || fail "does not expand: $1"; case "$OUT" in *"$2"*) fail "did not expect '$2' in the expansion of: $1";; esac; }
# both expand to the same code
same() { run expand "$1"; [ $ST = 0 ] || fail "does not expand: $1"; A=$OUT; run expand "$2"; [ $ST = 0 ] || fail "does not expand: $2"; [ "$A" = "$OUT" ] || fail "expansions differ: $1 :: $2 :: $A"; }
# $1 is rejected with a message containing $2
rejects() { run expand "$1"; [ $ST = 1 ] || fail "accepted: $1"; case "$OUT" in *panicked*) fail "panics: $1";; esac; case "$OUT" in *"$2"*) ;; *) fail "expected the error '$2' for: $1";; esac; }
accepts() { run expand "$1"; [ $ST = 0 ] || fail "rejected: $1"; }
