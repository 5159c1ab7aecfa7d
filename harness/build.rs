use proc_macro2::{Delimiter, Group, TokenStream, TokenTree as T};
use std::{env, fs, path::Path, process::Command};

// The harness runtime (sym_* primitives) stays outside the LLVM module, so that the
// optimiser cannot look into it: natively it replays recorded values, under the
// symbolic engine the calls are intercepted.
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    let out = env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/rt.o");
    let lib = format!("{out}/libmvrt.a");
    assert!(Command::new("gcc").args(["-O1", "-c", "rt/rt.c", "-o", &obj]).status().unwrap().success());
    assert!(Command::new("ar").args(["crs", &lib, &obj]).status().unwrap().success());
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=mvrt");

    // the exported macro: a proc-macro crate cannot be linked into a program, so the
    // sources of the two crates around the core become modules of this one
    let m = fs::read_to_string("Cargo.toml").unwrap();
    let core = m.split("leptos-mview-core = { path = \"").nth(1).unwrap().split('"').next().unwrap();
    let repo = Path::new(core).parent().unwrap();
    let mut r = Real::default();
    let wrapper = r.module(&repo.join("leptos-mview-macro/src/lib.rs"));
    let exported = r.module(&repo.join("src/lib.rs"));
    fs::write(
        format!("{out}/exported.rs"),
        format!(
            "pub mod wrapper {{ {wrapper} }}\npub mod exported {{ use super::wrapper as leptos_mview_macro; {exported} }}\npub const GUARDED: bool = {};\n",
            r.guarded
        ),
    )
    .unwrap();
}

#[derive(Default)]
struct Real {
    /// `mview` is a `#[proc_macro_error]`
    guarded: bool,
}
impl Real {
    fn module(&mut self, file: &Path) -> TokenStream {
        println!("cargo:rerun-if-changed={}", file.display());
        println!("cargo:rerun-if-changed={}", file.parent().unwrap().display());
        let t: TokenStream = fs::read_to_string(file).unwrap().parse().unwrap();
        self.strip(t, file.parent().unwrap())
    }
    /// without the attributes that only a compiler running the macro gives a meaning to
    fn strip(&mut self, t: TokenStream, dir: &Path) -> TokenStream {
        let v: Vec<T> = t.into_iter().collect();
        let mut o = vec![];
        let mut i = 0;
        let is = |k: usize, s: &str| v.get(k).is_some_and(|t| t.to_string() == s);
        let mut guard = false;
        while i < v.len() {
            let inner = is(i, "#") && is(i + 1, "!");
            if inner || is(i, "#") {
                if let Some(T::Group(g)) = v.get(i + 1 + inner as usize) {
                    if g.delimiter() == Delimiter::Bracket {
                        let path: Vec<String> = g.stream().into_iter().take_while(|t| !matches!(t, T::Group(_))).map(|t| t.to_string()).collect();
                        let last = path.last().map_or("", |s| s);
                        guard |= last == "proc_macro_error";
                        if inner || ["proc_macro", "proc_macro_error", "skip"].contains(&last) || path[0] == "doc" {
                            i += 2 + inner as usize;
                            continue;
                        }
                    }
                }
            }
            if is(i, "extern") && is(i + 1, "crate") && is(i + 2, "proc_macro") && is(i + 3, ";") {
                i += 4;
                continue;
            }
            if is(i, "mod") && is(i + 2, ";") {
                let n = v[i + 1].to_string();
                let f = [dir.join(format!("{n}.rs")), dir.join(&n).join("mod.rs")];
                if let Some(f) = f.iter().find(|f| f.exists()) {
                    let sub = dir.join(&n);
                    let t: TokenStream = fs::read_to_string(f).unwrap().parse().unwrap();
                    let t = self.strip(t, &sub);
                    o.extend(v[i..i + 2].iter().cloned());
                    o.push(T::Group(Group::new(Delimiter::Brace, t)));
                    i += 3;
                    continue;
                }
            }
            if is(i, "fn") {
                if is(i + 1, "mview") {
                    self.guarded |= guard;
                }
                guard = false;
            }
            o.push(match &v[i] {
                T::Group(g) => T::Group(Group::new(g.delimiter(), self.strip(g.stream(), dir))),
                t => t.clone(),
            });
            i += 1;
        }
        o.into_iter().collect()
    }
}
