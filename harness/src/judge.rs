//! Common judgements. Check ids: 1 unexpected error, 2 aborted, 3 expansion differs,
//! 4 error not reported, others per entry.
use crate::{flat::*, run::*, spec::*, sym};
use proc_macro2::TokenStream;

extern "C" {
    fn rt_showing() -> i32;
}
pub fn showing() -> bool { unsafe { rt_showing() != 0 } }

pub fn tell(what: &str, t: &TokenStream) {
    if showing() {
        sym::show(&format!("{what}: {t}"));
    }
}
pub fn tell_res(r: &Res) {
    if showing() {
        match &r.out {
            Some(o) => sym::show(&format!("expansion: {}", render(&flat(o)))),
            None => sym::show("expansion: aborted"),
        }
        for d in &r.diags {
            sym::show(&format!("{}: {} (at {:?})", if d.is_error { "error" } else { "warning" }, d.msg, d.first));
        }
    }
}
pub fn tell_text(s: &str) {
    if showing() {
        sym::show(s);
    }
}

/// note (for the native cross-validation) what the real code produced
pub fn note_res(r: &Res) {
    if let Some(o) = &r.out {
        for f in flat_raw(o) {
            sym::note(&[f.k as u8, f.c]);
            sym::note(&f.s);
        }
    }
    for d in &r.diags {
        sym::note(d.msg.as_bytes());
    }
}

/// `input` is a documented view standing for `want`
pub fn want_tokens(input: TokenStream, want: TokenStream) {
    tell("input", &input);
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        sym::check(r.out.is_some(), 2);
        sym::check(r.errors() == 0, 1);
        let got = flat(r.out.as_ref().unwrap());
        let want = flat(&want);
        tell_text(&format!("expected:  {}", if showing() { render(&want) } else { String::new() }));
        sym::cover(1);
        sym::check(eq(&got, &want), 3);
    });
}
pub fn want(v: Vec<Node>) { want_tokens(print(&v), expect(&v)) }

/// `input` must be reported as an error
pub fn want_error(input: TokenStream) {
    tell("input", &input);
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        sym::cover(1);
        sym::check(r.reported(), 4);
    });
}
/// `input` must not be reported
pub fn want_clean(input: TokenStream) {
    tell("input", &input);
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        sym::cover(1);
        sym::check(r.out.is_some(), 2);
        sym::check(!r.reported(), 1);
    });
}

fn comma(f: &F) -> bool { f.k == Kd::Punct && f.c == b',' }
/// the tokens between the holes of an expectation; a hole takes the commas around it
fn segments(want: &[F]) -> Vec<Vec<F>> {
    let mut out = vec![vec![]];
    for f in want {
        if f.k == Kd::Ident && f.s.len() == HOLE.len() && f.s == HOLE.as_bytes() {
            let l: &mut Vec<F> = out.last_mut().unwrap();
            if l.last().is_some_and(comma) { l.pop(); }
            out.push(vec![]);
        } else if !(out.len() > 1 && out.last().unwrap().is_empty() && comma(f)) {
            out.last_mut().unwrap().push(f.clone());
        }
    }
    out
}
/// what is left of a list in error may be of any length
fn no_last_commas(f: &mut Vec<F>) {
    let drop: Vec<bool> = (0..f.len()).map(|i| comma(&f[i]) && f.get(i + 1).is_some_and(|g| g.k == Kd::Close)).collect();
    let mut i = 0;
    f.retain(|_| { i += 1; !drop[i - 1] });
}
/// `got` is `want` with something in place of every hole
pub fn fits(got: &[F], want: &[F]) -> bool {
    let segs = segments(want);
    if segs.len() == 1 {
        return eq(got, &segs[0]);
    }
    let (a, z) = (&segs[0], segs.last().unwrap());
    if got.len() < a.len() + z.len() || !eq(&got[..a.len()], a) || !eq(&got[got.len() - z.len()..], z) {
        return false;
    }
    let (mut at, end) = (a.len(), got.len() - z.len());
    for s in &segs[1..segs.len() - 1] {
        let mut k = at;
        loop {
            if k + s.len() > end {
                return false;
            }
            if eq(&got[k..k + s.len()], s) {
                break;
            }
            k += 1;
        }
        at = k + s.len();
    }
    true
}
/// an error is reported, and everything but what is in error is still there, once
pub fn want_local(v: Vec<Node>) {
    let (input, want) = (print(&v), expect(&v));
    tell("input", &input);
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        sym::cover(1);
        sym::check(r.reported(), 4);
        sym::check(r.out.is_some(), 2);
        let o = r.out.as_ref().unwrap();
        sym::check(o.clone().into_iter().count() == 1, 8);
        let (mut got, mut want) = (flat(o), flat(&want));
        tell_text(&format!("expected:  {}", if showing() { render(&want) } else { String::new() }));
        no_last_commas(&mut got);
        no_last_commas(&mut want);
        sym::check(fits(&got, &want), 3);
        // user code stands there once
        for (k, f) in want.iter().enumerate() {
            if f.k == Kd::Ident && f.s.starts_with(b"zz") && !f.s.starts_with(b"zzk") && !want[..k].iter().any(|g| g.s == f.s) {
                let n = |v: &[F]| v.iter().filter(|g| g.k == f.k && g.s == f.s).count();
                sym::check(n(&got) == n(&want), 6);
            }
        }
    });
}
