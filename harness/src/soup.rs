//! Arbitrary token sequences, and an independent recogniser of the documented grammar that
//! says which of them must be accepted and which must be reported.
use crate::{flat, judge::*, run::*, sym::*, tk};
use proc_macro2::{Delimiter, TokenStream, TokenTree};

#[derive(Clone)]
pub enum T { I(String), S(String), N(String), P(char), G(char, Vec<T>), X(TokenStream) }
use T::*;

pub fn toks(v: &[T]) -> TokenStream {
    tk::cat(v.iter().map(|t| match t {
        I(s) => tk::id(s),
        S(s) => tk::st(s),
        N(s) => tk::int(s),
        P(c) => tk::p(*c),
        G(c, v) => {
            // `..` is one token
            let mut o = TokenStream::new();
            let mut v = &v[..];
            while let [P('.'), P('.'), rest @ ..] = v {
                o.extend(tk::pj('.'));
                o.extend(tk::p('.'));
                v = rest;
            }
            o.extend(toks(v));
            tk::grp(match c { '{' => Delimiter::Brace, '(' => Delimiter::Parenthesis, _ => Delimiter::Bracket }, o)
        }
        X(t) => t.clone(),
    }))
}

/// menu letter to token; `k` makes marks unique
pub fn item(c: u8, k: usize) -> T {
    let m = format!("zz{k}");
    match c {
        b'a' => I(text(1, LOWER, LOWER)),
        b'b' => I(text(2, LOWER, LOWER)),
        b'B' => I("Bb".into()),
        b'D' => I("div".into()),
        b's' => S(m),
        b'n' => N("1".into()),
        b'{' => G('{', vec![S(m)]),
        b'(' => G('(', vec![S(m)]),
        b'[' => G('[', vec![I(m)]),
        b'*' => G('{', vec![P('.'), P('.'), I(m)]),
        b'~' => G('{', vec![I(text(1, LOWER, LOWER))]),
        b'0' => G('{', vec![]),
        b'E' => G('{', vec![I("slot".into()), P(':'), I("Tab".into()), G('{', vec![S(m)])]),
        b'e' => G('{', vec![I("p".into()), G('{', vec![S(m)])]),
        b'S' => I("slot".into()),
        b'f' => I("f".into()),
        b'c' => I("class".into()),
        b'o' => I("on".into()),
        b'u' => I("use".into()),
        b'p' => I("prop".into()),
        b't' => I("attr".into()),
        b'k' => I("clone".into()),
        b'r' => I("ref".into()),
        b'U' => I("undelegated".into()),
        b'T' => I("true".into()),
        b'_' => I("_".into()),
        c => P(c as char),
    }
}
pub fn soup(menu: &[u8], n: usize, base: usize) -> Vec<T> {
    (0..n).map(|i| item(menu[choice(menu.len() as u32)], base + i)).collect()
}
/// up to `n` tokens
pub fn soup_to(menu: &[u8], n: usize, base: usize) -> Vec<T> { soup(menu, choice(n as u32 + 1), base) }

pub fn i(s: &str) -> T { I(s.to_string()) }
pub fn g(c: char, v: Vec<T>) -> T { G(c, v) }

// ---------- recogniser ----------
#[derive(Clone, Copy, PartialEq)]
enum In { Root, Xml, Comp }
#[derive(Clone, Copy, PartialEq)]
enum Kd { Xml, Comp, Slot }

#[derive(Default)]
pub struct Verdict {
    /// must be reported
    pub bad: bool,
    /// neither documented nor ruled out
    pub vague: bool,
}

fn is(a: &str, b: &str) -> bool { same(a.as_bytes(), b.as_bytes()) }
fn any(a: &str, l: &[&str]) -> bool { flat::one_of(a.as_bytes(), l) }
fn boolean(a: &str) -> bool { any(a, &["true", "false"]) }

/// end of the name starting at `k`, its text and whether one starts there
fn name(ts: &[T], mut k: usize) -> Option<(usize, String)> {
    let mut s = String::new();
    let mut after_dash;
    match ts.get(k)? {
        I(x) => {
            s.push_str(x);
            after_dash = false;
        }
        P('-') => {
            s.push('-');
            after_dash = true;
        }
        _ => return None,
    }
    k += 1;
    loop {
        match ts.get(k) {
            Some(P('-')) => {
                s.push('-');
                after_dash = true;
            }
            Some(I(x)) if after_dash => {
                s.push_str(x);
                after_dash = false;
            }
            Some(N(x)) if after_dash => {
                s.push_str(x);
                after_dash = false;
            }
            _ => return Some((k, s)),
        }
        k += 1;
    }
}
/// can the name be used as a Rust identifier
fn rustable(n: &str) -> bool {
    let s = n.replace('-', "_");
    !any(&s, &crate::gen::UNRAW)
}
fn lit(ts: &[T], k: usize) -> Option<usize> {
    match (ts.get(k), ts.get(k + 1)) {
        (Some(S(_) | N(_)), _) => Some(k + 1),
        (Some(P('-')), Some(N(_))) => Some(k + 2),
        (Some(I(x)), _) if boolean(x) => Some(k + 1),
        _ => None,
    }
}

impl Verdict {
    pub fn of(ts: &[T]) -> Verdict {
        let mut v = Verdict::default();
        v.children(ts, In::Root);
        v
    }
    /// `k` of a value; `None`: no value there
    fn value(&mut self, ts: &[T], k: usize) -> Option<usize> {
        match (ts.get(k), ts.get(k + 1)) {
            (Some(G('[' | '{', _)), _) => Some(k + 1),
            (Some(I(n)), Some(G('[', _))) => {
                self.bad |= !is(n, "f");
                Some(k + 2)
            }
            _ => lit(ts, k),
        }
    }
    fn children(&mut self, ts: &[T], at: In) {
        let mut k = 0;
        while k < ts.len() && !self.bad {
            if let Some(e) = self.value(ts, k) {
                if lit(ts, k).is_some() && !matches!(ts[k], S(_)) {
                    self.bad = true;
                }
                k = e;
                continue;
            }
            match (&ts[k], ts.get(k + 1)) {
                (I(s), Some(P(':'))) if is(s, "slot") => {
                    if at != In::Comp {
                        self.bad = true;
                        return;
                    }
                    k = self.element(ts, k + 2, true);
                }
                (I(_), _) => k = self.element(ts, k, false),
                _ => self.bad = true,
            }
        }
    }
    fn element(&mut self, ts: &[T], k: usize, slot: bool) -> usize {
        let Some((mut k, tag)) = (match ts.get(k) { Some(I(_)) => name(ts, k), Some(P('-')) => name(ts, k), _ => None }) else {
            self.bad = true;
            return k;
        };
        let up = tag.as_bytes()[0].is_ascii_uppercase();
        let kd = if slot { Kd::Slot } else if up { Kd::Comp } else { Kd::Xml };
        if slot && !up {
            self.bad = true;
        }
        if !rustable(&tag) && !(tag.contains('-') && !up) {
            self.bad = true;
        }
        // selectors
        while let Some(P('.' | '#')) = ts.get(k) {
            match name(ts, k + 1) {
                Some((e, _)) => k = e,
                None => {
                    self.bad = true;
                    return k;
                }
            }
            if kd == Kd::Slot {
                self.bad = true;
            }
        }
        // attributes
        loop {
            if self.bad {
                return k;
            }
            match (ts.get(k), ts.get(k + 1)) {
                (Some(I(d)), Some(P(':'))) => k = self.directive(ts, k + 2, d, kd),
                (Some(I(_) | P('-')), _) => {
                    let (e, n) = name(ts, k).unwrap();
                    k = e;
                    if kd != Kd::Xml || !n.contains('-') {
                        self.bad |= !rustable(&n);
                    }
                    if let Some(P('=')) = ts.get(k) {
                        match self.value(ts, k + 1) {
                            Some(e) => k = e,
                            None => self.bad = true,
                        }
                    }
                }
                (Some(G('{', v)), _) => {
                    if let [P('.'), P('.'), ..] = &v[..] {
                        self.bad |= kd == Kd::Slot;
                        k += 1;
                    } else if matches!(name(v, 0), Some((e, _)) if e == v.len()) {
                        let (_, n) = name(v, 0).unwrap();
                        self.bad |= !rustable(&n);
                        k += 1;
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
        let at = if kd == Kd::Xml { In::Xml } else { In::Comp };
        match ts.get(k) {
            Some(P(';')) => k + 1,
            Some(G('{' | '(', v)) => {
                self.children(v, at);
                k + 1
            }
            Some(P('|')) => {
                self.bad |= kd == Kd::Xml;
                let mut j = k + 1;
                while j < ts.len() && !matches!(ts[j], P('|')) {
                    j += 1;
                }
                match ts.get(j + 1) {
                    Some(G('{' | '(', v)) => self.children(v, at),
                    _ => self.bad = true,
                }
                j + 2
            }
            _ => {
                self.bad = true;
                k
            }
        }
    }
    fn directive(&mut self, ts: &[T], mut k: usize, d: &str, kd: Kd) -> usize {
        let (mut value, string, key, short);
        match ts.get(k) {
            Some(G('{', v)) => match name(v, 0) {
                Some((e, n)) if e == v.len() => {
                    k += 1;
                    short = true;
                    string = false;
                    key = n;
                }
                _ => {
                    self.bad = true;
                    return k;
                }
            },
            Some(S(s)) => {
                k += 1;
                short = false;
                string = true;
                key = s.clone();
            }
            _ => match name(ts, k) {
                Some((e, n)) => {
                    k = e;
                    short = false;
                    string = false;
                    key = n;
                }
                None => {
                    self.bad = true;
                    return k;
                }
            },
        }
        value = short;
        if short {
            self.bad |= !rustable(&key);
        }
        let mut modifier = None;
        if let Some(P(':')) = ts.get(k) {
            match ts.get(k + 1) {
                Some(I(m)) => {
                    modifier = Some(m.clone());
                    k += 2;
                }
                _ => {
                    self.bad = true;
                    return k;
                }
            }
        }
        if !short && matches!(ts.get(k), Some(P('='))) {
            match self.value(ts, k + 1) {
                Some(e) => k = e,
                None => self.bad = true,
            }
            value = true;
        }
        if self.bad {
            return k;
        }
        if kd == Kd::Slot && !is(d, "clone") {
            self.bad = true;
        } else if any(d, &["class", "style", "prop"]) {
            self.bad |= modifier.is_some();
            self.vague |= kd == Kd::Xml && !value;
        } else if is(d, "on") {
            self.bad |= string | !rustable(&key);
            if let Some(m) = modifier {
                self.bad |= !is(&m, "undelegated");
            }
            self.vague |= !value;
        } else if is(d, "use") {
            self.bad |= string | !rustable(&key) | modifier.is_some();
        } else if is(d, "clone") {
            self.bad |= kd == Kd::Xml || string | !rustable(&key) | modifier.is_some() | value;
        } else if is(d, "attr") {
            self.bad |= kd == Kd::Xml || modifier.is_some();
            // a checked attribute needs an identifier
            let literal = key.contains('-') && !key.starts_with("aria-");
            self.bad |= !literal && (string || !rustable(&key));
        } else {
            self.bad = true;
        }
        k
    }
}

// ---------- judgements ----------
/// marks (`zz..`) of user code
fn marks(v: &[flat::F], out: &mut Vec<Vec<u8>>) {
    for f in v {
        let s = match f.k {
            flat::Kd::Lit if f.s.len() > 2 && f.s[0] == b'"' => &f.s[1..f.s.len() - 1],
            flat::Kd::Ident => &f.s[..],
            _ => continue,
        };
        // `zzk..`: names that may be repeated
            if s.len() > 2 && s.starts_with(b"zz") && s[2] != b'k' {
            out.push(s.to_vec());
        }
    }
}
/// 5: user code lost, 6: user code duplicated
pub fn conserved(input: &TokenStream, r: &Res) {
    let (mut a, mut b) = (vec![], vec![]);
    marks(&flat::flat_raw(input), &mut a);
    marks(&flat::flat_raw(r.out.as_ref().unwrap()), &mut b);
    for m in &a {
        let want = a.iter().filter(|x| *x == m).count();
        let got = b.iter().filter(|x| *x == m).count();
        check(got >= want, 5);
        check(got <= want, 6);
    }
}

/// C01: expands at all (a panic or a hang is an outcome of the path)
pub fn total(input: TokenStream) {
    tell("input", &input);
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        cover(1);
        // whatever happened, the compiler is given an expression or an error
        check(r.reported() || !r.out.as_ref().unwrap().is_empty(), 7);
    });
}
/// C02
pub fn conserve(input: TokenStream) {
    tell("input", &input);
    expand(input.clone(), move |r| {
        tell_res(&r);
        note_res(&r);
        if r.reported() {
            return;
        }
        cover(1);
        conserved(&input, &r);
    });
}
/// C11: the same, and in order
pub fn in_order(input: TokenStream) {
    tell("input", &input);
    expand(input.clone(), move |r| {
        tell_res(&r);
        note_res(&r);
        if r.reported() {
            return;
        }
        cover(1);
        conserved(&input, &r);
        let (mut a, mut b) = (vec![], vec![]);
        marks(&flat::flat_raw(&input), &mut a);
        marks(&flat::flat_raw(r.out.as_ref().unwrap()), &mut b);
        check(a.iter().zip(&b).all(|(x, y)| x == y), 3);
    });
}
/// C15 and C16: reported exactly if it must be
pub fn classify(v: Vec<T>, accept: bool) {
    let input = toks(&v);
    tell("input", &input);
    let d = Verdict::of(&v);
    if !d.bad && d.vague {
        return;
    }
    let bad = d.bad;
    // a view is judged by the property it belongs to
    if accept == bad {
        return;
    }
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        cover(1);
        if bad {
            check(r.reported(), 4);
        } else {
            check(!r.reported(), 1);
        }
    });
}
pub fn first_ident(t: &TokenStream) -> Option<String> {
    t.clone().into_iter().find_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None })
}
