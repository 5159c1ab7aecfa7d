//! Flattening of token streams to a canonical form, and branch-free comparison.
use crate::sym;
use proc_macro2::{Delimiter, TokenStream, TokenTree as T};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kd { Open, Close, Punct, Ident, Lit }

#[derive(Clone)]
pub struct F {
    pub k: Kd,
    /// delimiter or punctuation character; for identifiers 1 if written raw
    pub c: u8,
    pub s: Vec<u8>,
}

fn open(d: Delimiter) -> (u8, u8) {
    match d {
        Delimiter::Brace => (b'{', b'}'),
        Delimiter::Bracket => (b'[', b']'),
        Delimiter::Parenthesis => (b'(', b')'),
        Delimiter::None => (b'<', b'>'),
    }
}

pub fn ident_parts(i: &proc_macro2::Ident) -> (bool, Vec<u8>) {
    let s = i.to_string().into_bytes();
    if s.len() > 2 && s[1] == b'#' {
        (true, s[2..].to_vec())
    } else {
        (false, s)
    }
}

fn is_punct(t: Option<&T>, c: char) -> bool { matches!(t, Some(T::Punct(p)) if p.as_char() == c) }
fn is_allow(t: Option<&T>) -> bool {
    matches!(t, Some(T::Group(g)) if g.delimiter() == Delimiter::Bracket
        && matches!(g.stream().into_iter().next(), Some(T::Ident(i)) if i == "allow"))
}

/// Canonical form:
///  * `#[allow(..)]` attributes are dropped (they do not change what is generated),
///  * invisible groups are opened,
///  * `{ let __x = (); .. REST }` loses the dummy statements (they only carry spans), and a
///    brace group around a single literal or name is that token,
///  * `::core::` and `::alloc::` are `::std::`,
///  * a string literal is its value,
///  * a trailing comma where it means nothing (arguments, arrays, tuples of two or more) is dropped,
///  * `<[_]>::into_vec(Box::new([..]))` is `::std::vec![..]`.
pub fn flat(t: &TokenStream) -> Vec<F> {
    let mut v = vec![];
    walk(t, &mut v, true);
    vecs(&mut v);
    v
}
/// only the tokens, nothing normalised
pub fn flat_raw(t: &TokenStream) -> Vec<F> {
    let mut v = vec![];
    walk(t, &mut v, false);
    v
}

fn walk(t: &TokenStream, v: &mut Vec<F>, norm: bool) {
    let ts: Vec<T> = t.clone().into_iter().collect();
    walk_slice(&ts, v, norm)
}

fn walk_slice(ts: &[T], v: &mut Vec<F>, norm: bool) {
    let mut i = 0;
    while i < ts.len() {
        match &ts[i] {
            T::Punct(p) => {
                if norm && p.as_char() == '#' && is_allow(ts.get(i + 1)) {
                    i += 2;
                    continue;
                }
                v.push(F { k: Kd::Punct, c: p.as_char() as u8, s: vec![] });
            }
            T::Ident(id) => {
                let (raw, mut s) = ident_parts(id);
                if norm && (s.len() == 4 || s.len() == 5) && absolute_root(v) && one_of(&s, &["core", "alloc"]) {
                    s = b"std".to_vec();
                }
                v.push(F { k: Kd::Ident, c: raw as u8, s });
            }
            T::Literal(l) => {
                let s = l.to_string().into_bytes();
                v.push(F { k: Kd::Lit, c: 0, s: if norm { string(s) } else { s } });
            }
            T::Group(g) => {
                let d = g.delimiter();
                let inner: Vec<T> = g.stream().into_iter().collect();
                let mut rest = &inner[..];
                if norm && d == Delimiter::None {
                    walk_slice(rest, v, norm);
                    i += 1;
                    continue;
                }
                if norm && d == Delimiter::Brace {
                    while rest.len() >= 5 && is_dummy(&rest[..5]) {
                        rest = &rest[5..];
                    }
                    if let [T::Literal(_) | T::Ident(_)] = rest {
                        walk_slice(rest, v, norm);
                        i += 1;
                        continue;
                    }
                }
                if norm && (d == Delimiter::Parenthesis || d == Delimiter::Bracket) && is_punct(rest.last(), ',') {
                    let commas = (0..rest.len()).filter(|&i| is_punct(rest.get(i), ',')).count();
                    let call = v.last().is_some_and(|f| f.k == Kd::Ident);
                    if rest.len() > 1 && (d == Delimiter::Bracket || call || commas > 1) {
                        rest = &rest[..rest.len() - 1];
                    }
                }
                let (a, b) = open(d);
                v.push(F { k: Kd::Open, c: a, s: vec![] });
                walk_slice(rest, v, norm);
                v.push(F { k: Kd::Close, c: b, s: vec![] });
            }
        }
        i += 1;
    }
}

/// a string however it is written
fn string(s: Vec<u8>) -> Vec<u8> {
    let v = if s[0] == b'r' && (s[1] == b'"' || s[1] == b'#') {
        let h = s[1..].iter().take_while(|c| **c == b'#').count();
        s[h + 2..s.len() - h - 1].to_vec()
    } else if s[0] == b'"' && s.contains(&b'\\') {
        let mut v = vec![];
        let mut i = 1;
        while i + 1 < s.len() {
            let c = s[i];
            i += 1;
            if c != b'\\' {
                v.push(c);
                continue;
            }
            let e = s[i];
            i += 1;
            match e {
                b'n' => v.push(b'\n'),
                b't' => v.push(b'\t'),
                b'r' => v.push(b'\r'),
                b'0' => v.push(0),
                b'x' => {
                    v.push(u8::from_str_radix(std::str::from_utf8(&s[i..i + 2]).unwrap(), 16).unwrap());
                    i += 2;
                }
                b'u' => {
                    let e = i + s[i..].iter().position(|c| *c == b'}').unwrap();
                    let n: String = s[i + 1..e].iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
                    let c = char::from_u32(u32::from_str_radix(&n, 16).unwrap()).unwrap();
                    v.extend(c.to_string().bytes());
                    i = e + 1;
                }
                b'\n' => while i + 1 < s.len() && matches!(s[i], b' ' | b'\n' | b'\t' | b'\r') { i += 1 },
                c => v.push(c),
            }
        }
        v
    } else {
        return s;
    };
    let mut o = vec![b'"'];
    for c in v {
        if c == b'"' || c == b'\\' { o.push(b'\\'); }
        o.push(c);
    }
    o.push(b'"');
    o
}

fn colon(f: &F) -> bool { f.k == Kd::Punct && f.c == b':' }
/// the next name is the first of an absolute path
fn absolute_root(v: &[F]) -> bool {
    let n = v.len();
    n >= 2
        && colon(&v[n - 1])
        && colon(&v[n - 2])
        && (n == 2 || !(v[n - 3].k == Kd::Ident || v[n - 3].k == Kd::Close || v[n - 3].k == Kd::Punct && (v[n - 3].c == b'>' || v[n - 3].c == b':')))
}

fn named(f: &F, s: &str) -> bool { f.k == Kd::Ident && f.s.len() == s.len() && f.s == s.as_bytes() }
fn ch(f: &F, k: Kd, c: u8) -> bool { f.k == k && f.c == c }

/// `<[_]>::into_vec(::std::boxed::Box::new([..]))` to `::std::vec![..]`
fn vecs(v: &mut Vec<F>) {
    const HEAD: usize = 23;
    let mut i = 0;
    while i + HEAD < v.len() {
        if ch(&v[i], Kd::Punct, b'<') && ch(&v[i + 1], Kd::Open, b'[') && ch(&v[i + 4], Kd::Punct, b'>') && named(&v[i + 7], "into_vec")
            && ch(&v[i + 8], Kd::Open, b'(') && named(&v[i + 11], "std") && named(&v[i + 14], "boxed") && named(&v[i + 17], "Box")
            && named(&v[i + 20], "new") && ch(&v[i + 21], Kd::Open, b'(') && ch(&v[i + 22], Kd::Open, b'[')
        {
            let (mut d, mut j) = (1, i + HEAD);
            while j < v.len() && d > 0 {
                d = d + (v[j].k == Kd::Open) as i32 - (v[j].k == Kd::Close) as i32;
                j += 1;
            }
            if j + 2 <= v.len() && ch(&v[j], Kd::Close, b')') && ch(&v[j + 1], Kd::Close, b')') {
                v.drain(j..j + 2);
                let path: Vec<F> = v[i + 9..i + 12].to_vec();
                let colons = path[..2].to_vec();
                let mut head = path;
                head.extend(colons);
                head.push(F { k: Kd::Ident, c: 0, s: b"vec".to_vec() });
                head.push(F { k: Kd::Punct, c: b'!', s: vec![] });
                v.splice(i..i + HEAD - 1, head);
            }
        }
        i += 1;
    }
}

fn is_dummy(t: &[T]) -> bool {
    matches!(&t[0], T::Ident(i) if i == "let")
        && matches!(&t[1], T::Ident(i) if i == "__x")
        && is_punct(t.get(2), '=')
        && matches!(&t[3], T::Group(g) if g.delimiter() == Delimiter::Parenthesis && g.stream().is_empty())
        && is_punct(t.get(4), ';')
}

pub const KW: [&str; 52] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop",
    "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type",
    "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override",
    "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
];

/// branch-free: is this name a Rust keyword?
pub fn is_kw(s: &[u8]) -> bool { one_of(s, &KW) }
pub fn one_of(s: &[u8], set: &[&str]) -> bool {
    let mut r = false;
    for k in set {
        if k.len() == s.len() {
            r |= sym::same(s, k.as_bytes());
        }
    }
    r
}

/// Branch-free equality of two tokens. `r#x` and `x` are the same name unless `x` is a keyword.
pub fn tok_eq(a: &F, b: &F) -> bool {
    if a.k != b.k || a.s.len() != b.s.len() {
        return false;
    }
    let mut r = sym::same(&a.s, &b.s);
    if a.k == Kd::Ident {
        if a.c != b.c {
            r &= !is_kw(&a.s);
        }
    } else if a.c != b.c {
        return false;
    }
    r
}

pub fn eq(a: &[F], b: &[F]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= tok_eq(&a[i], &b[i]);
    }
    r
}

pub fn render(v: &[F]) -> String {
    let mut o = String::new();
    for f in v {
        if f.k == Kd::Ident && f.c == 1 {
            o.push_str("r#");
        }
        if f.s.is_empty() && f.k != Kd::Ident && f.k != Kd::Lit {
            o.push(f.c as char);
        }
        o.push_str(&String::from_utf8_lossy(&f.s));
        if f.k == Kd::Ident || f.k == Kd::Lit {
            o.push(' ');
        }
    }
    o
}

/// Splits at top-level commas (of a flattened list).
pub fn split_commas(v: &[F]) -> Vec<&[F]> {
    let (mut out, mut depth, mut st) = (vec![], 0, 0);
    for (i, f) in v.iter().enumerate() {
        match f.k {
            Kd::Open => depth += 1,
            Kd::Close => depth -= 1,
            Kd::Punct if f.c == b',' && depth == 0 => {
                out.push(&v[st..i]);
                st = i + 1;
            }
            _ => {}
        }
    }
    if st < v.len() {
        out.push(&v[st..]);
    }
    out
}
