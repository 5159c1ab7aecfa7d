//! C18 locations, C19 determinism, C20 absolute paths, C21 independence of the surroundings.
use super::p09::{dir_comp, dir_el};
use crate::{flat::*, gen::*, judge::*, run::*, spec::*, sym::*, tk};
use proc_macro2::{Delimiter, Group, Spacing, Span, TokenStream, TokenTree as TT};
use quote::quote;

fn nm(s: &str) -> Name { Name::new(s) }

// ---------- C18 ----------
type Key2 = (u32, u32);
fn key(s: Span) -> Key2 {
    // `bytes(lo..hi)`
    let t = format!("{s:?}");
    let mut it = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse::<u32>().unwrap());
    (it.next().unwrap(), it.next().unwrap())
}
fn source(t: &TokenStream, out: &mut String) {
    for x in t.clone() {
        match x {
            TT::Group(g) if g.delimiter() == Delimiter::None => source(&g.stream(), out),
            TT::Group(g) => {
                out.push('(');
                source(&g.stream(), out);
                out.push_str(") ");
            }
            _ => out.push_str("a "),
        }
    }
}
/// the spans of `()`/`a` source, in order, groups before their content
fn spans(t: TokenStream, out: &mut Vec<Span>) {
    for x in t {
        out.push(x.span());
        if let TT::Group(g) = x {
            spans(g.stream(), out);
        }
    }
}
/// Gives every token a location: of one file, or each of a file of its own (locations of
/// different files cannot be joined). Marked tokens (in invisible groups) are opened, and
/// their locations returned.
struct Stamp {
    joined: bool,
    spans: Vec<Span>,
    at: usize,
    ranges: Vec<Key2>,
    names: Vec<(Vec<u8>, Key2)>,
}
fn one(s: &str) -> Span { s.parse::<TokenStream>().unwrap().into_iter().next().unwrap().span() }
impl Stamp {
    fn next(&mut self, group: bool) -> Span {
        self.at += 1;
        if self.joined { self.spans[self.at - 1] } else { one(if group { "(a)" } else { "aaa" }) }
    }
    fn walk(&mut self, t: TokenStream, marked: bool, out: &mut TokenStream) {
        for mut x in t {
            match &x {
                TT::Group(g) if g.delimiter() == Delimiter::None => {
                    let first = self.at;
                    let mut inner = TokenStream::new();
                    self.walk(g.stream(), true, &mut inner);
                    out.extend(inner);
                    if self.joined {
                        let v: Vec<Key2> = self.spans[first..self.at].iter().map(|s| key(*s)).collect();
                        self.ranges.push((v.iter().map(|k| k.0).min().unwrap_or(0), v.iter().map(|k| k.1).max().unwrap_or(0)));
                    }
                    continue;
                }
                TT::Group(g) => {
                    let s = self.next(true);
                    let mut inner = TokenStream::new();
                    self.walk(g.stream(), marked, &mut inner);
                    let mut h = Group::new(g.delimiter(), inner);
                    h.set_span(s);
                    if marked {
                        self.ranges.push(key(s));
                    }
                    out.extend([TT::Group(h)]);
                    continue;
                }
                _ => {}
            }
            let s = self.next(false);
            if marked {
                self.ranges.push(key(s));
            }
            match &x {
                TT::Ident(i) => self.names.push((ident_parts(i).1, key(s))),
                TT::Literal(l) => self.names.push((l.to_string().into_bytes(), key(s))),
                _ => {}
            }
            x.set_span(s);
            out.extend([x]);
        }
    }
}
fn stamp(t: &TokenStream, joined: bool) -> (TokenStream, Stamp) {
    let mut st = Stamp { joined, spans: vec![], at: 0, ranges: vec![], names: vec![] };
    if joined {
        let mut s = String::from("a ");
        source(t, &mut s);
        let mut v = vec![];
        spans(s.parse().unwrap(), &mut v);
        // not at the start of the file
        v.remove(0);
        st.spans = v;
    }
    let mut o = TokenStream::new();
    st.walk(t.clone(), false, &mut o);
    (o, st)
}
fn inside(s: Span, v: &[Key2]) -> bool {
    let (a, b) = key(s);
    (a, b) != (0, 0) && v.iter().any(|r| r.0 <= a && b <= r.1)
}
fn error_spans(t: &TokenStream, out: &mut Vec<Span>) {
    for x in t.clone() {
        match x {
            TT::Ident(i) if i == "compile_error" => out.push(i.span()),
            TT::Group(g) => error_spans(&g.stream(), out),
            _ => {}
        }
    }
}
/// every error is on a marked token
pub fn located(t: TokenStream) {
    let joined = flag();
    let (input, st) = stamp(&t, joined);
    tell("input", &input);
    tell_text(if joined { "locations: one file" } else { "locations: not joinable" });
    tell_text(&format!("allowed: {:?}", if showing() { st.ranges.clone() } else { vec![] }));
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        check(r.reported(), 4);
        cover(1);
        for d in r.diags.iter().filter(|d| d.is_error) {
            check(key(d.first) != (0, 0), 10);
            check(inside(d.first, &st.ranges), 11);
            check(inside(d.last, &st.ranges), 11);
        }
        if let Some(o) = &r.out {
            let mut v = vec![];
            error_spans(o, &mut v);
            for s in v {
                check(inside(s, &st.ranges), 11);
            }
        }
    });
}
/// the user's own tokens keep their locations; `names`: also the names passed on
pub fn kept(t: TokenStream) { kept_but(t, "\0") }
/// `but`: except names starting with it
pub fn kept_but(t: TokenStream, but: &'static str) {
    let joined = flag();
    let (input, st) = stamp(&t, joined);
    tell("input", &input);
    tell_text(if joined { "locations: one file" } else { "locations: not joinable" });
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        check(r.out.is_some(), 2);
        check(r.errors() == 0, 1);
        let mut found = vec![false; st.names.len()];
        kept_in(r.out.as_ref().unwrap(), &st, &mut found);
        for (f, (s, _)) in found.iter().zip(&st.names) {
            if mine(s) && s.len() > 2 && !s.starts_with(but.as_bytes()) {
                cover(1);
                if !*f {
                    tell_text(&format!("not found at its own location: {}", String::from_utf8_lossy(s)));
                }
                check(*f, 12);
            }
        }
    });
}
/// code the user wrote: `zz..`, as identifier or text
fn mine(s: &[u8]) -> bool { s.starts_with(b"zz") || s.starts_with(b"\"zz") || s.starts_with(b"Zz") }
fn kept_in(t: &TokenStream, st: &Stamp, found: &mut [bool]) {
    for x in t.clone() {
        let s = match &x {
            TT::Ident(i) => ident_parts(i).1,
            TT::Literal(l) => l.to_string().into_bytes(),
            TT::Group(g) => {
                kept_in(&g.stream(), st, found);
                continue;
            }
            _ => continue,
        };
        if mine(&s) {
            for (k, n) in st.names.iter().enumerate() {
                if n.0 == s && key(x.span()) == n.1 {
                    found[k] = true;
                }
            }
        }
    }
}
/// how the component is built and its props are set is located at the component
fn built(t: TokenStream, kv: &'static str) {
    let joined = flag();
    let (input, st) = stamp(&t, joined);
    tell("input", &input);
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        check(r.out.is_some() && r.errors() == 0, 1);
        let hull = |n: &str| {
            let v: Vec<Key2> = st.names.iter().filter(|x| x.0.starts_with(n.as_bytes())).map(|x| x.1).collect();
            (v.iter().map(|k| k.0).min().unwrap(), v.iter().map(|k| k.1).max().unwrap())
        };
        let attr = hull(kv);
        let mut seen = 0;
        built_in(r.out.as_ref().unwrap(), &mut |i: &[u8], s: Span| {
            let k = key(s);
            if i == b"build" || i == b"component_props_builder" {
                seen += 1;
                check(inside(s, &st.ranges), 13);
            }
            if i.starts_with(kv.as_bytes()) {
                seen += 1;
                check(attr.0 <= k.0 && k.0 < attr.1, 14);
            }
        });
        cover(1);
        check(seen >= 2, 15);
    });
}
fn built_in(t: &TokenStream, f: &mut dyn FnMut(&[u8], Span)) {
    for x in t.clone() {
        match x {
            TT::Ident(i) => f(&ident_parts(&i).1, i.span()),
            TT::Group(g) => built_in(&g.stream(), f),
            _ => {}
        }
    }
}
/// marks the tokens of the offending construct
fn m(t: TokenStream) -> TokenStream { tk::none(t) }
fn hold(k: usize, t: TokenStream) -> TokenStream {
    match k {
        0 => t,
        1 => quote!(div { #t }),
        2 => quote!(Com { "a" #t }),
        3 => quote!(Com |x| ( #t )),
        4 => quote!(Com { slot:Tab a=1 { #t } }),
        _ => quote!("a" p; div a={b} { "c" #t "d" } "e"),
    }
}
fn kinds(k: usize) -> TokenStream {
    match k {
        0 => quote!(div),
        1 => quote!(my-el),
        2 => quote!(circle),
        3 => quote!(mfrac),
        4 => quote!(Com),
        5 => quote!(a::Com<T>),
        _ => quote!(slot:Tab),
    }
}
fn held(k: usize, t: TokenStream) -> TokenStream { if k == 6 { quote!(Com { "y" #t }) } else { t } }
/// an attribute in error, for an element, component or slot
fn bad_attr(k: usize) -> TokenStream {
    match k {
        0 => quote!(zzz:a={b}),
        1 => quote!(zzz:{a}),
        2 => quote!(class:a:q={b}),
        3 => quote!(use:a:q),
        4 => quote!(on:a:q={b}),
        5 => quote!(on:"a"={b}),
        6 => quote!(use:"a"={b}),
        7 => quote!(a=q[b]),
        8 => quote!(a={b} _={c}),
        9 => quote!({self}),
        10 => quote!(Self={a}),
        11 => quote!(on:super={a}),
        12 => quote!(style:{crate}),
        _ => quote!(prop:a:q={b}),
    }
}

// ---------- C19 ----------
/// a view that uses everything that could be collected in a table
fn busy(m: usize) -> TokenStream {
    let k = choice(6);
    match k {
        0 => {
            // slots of several names, some repeated
            let n = choice(m as u32 + 1) + 2;
            let s: Vec<TokenStream> = (0..n).map(|_| { let i = choice(3); let t = tk::id(["Aa", "Bb", "Cc"][i]); let m = mark(i); quote!(slot:#t x=#m[1];) }).collect();
            let s: Vec<TokenStream> = s.into_iter().map(|t| t.into_iter().filter(|_| true).collect()).collect();
            quote!(Com { #(#s)* })
        }
        1 => {
            let v: Vec<At> = (0..m).map(|j| dir_comp(choice(14), j)).collect();
            print(&[El::new(tag(4)).sels(vec![Sel::Class(nm("a")), Sel::Id(nm("b")), Sel::Id(nm("c"))]).attrs(v).kids(vec![txt(9)]).node()])
        }
        2 => {
            let v: Vec<At> = (0..m).map(|j| dir_el(choice(14), j)).collect();
            print(&[El::new(tag(0)).sels(vec![Sel::Class(nm("a")), Sel::Id(nm("b")), Sel::Class(nm("c"))]).attrs(v).kids(vec![txt(9)]).node()])
        }
        3 => {
            let (a, b) = (tk::id(&ident(2)), tk::id(&ident(2)));
            quote!(Com clone:#a clone:#b #a={x} #b={y} |q| { slot:Tab #a; slot:Foo #b; "z" })
        }
        4 => quote!(zzz:a; Com on:a:b={c} class:d:e { 1 slot:tab; } ; div slot:a={b} attr:x=1 { slot:Tab; } g["a"] p),
        _ => {
            let n = tk::id(&text(2, ALPHA_, WORD));
            quote!(#n.a {b} on:c:undelegated=[d] { "e" })
        }
    }
}
fn snapshot(r: &Res) -> (Option<Vec<F>>, Vec<(bool, String, Key2, Key2)>) {
    (r.out.as_ref().map(flat_raw), r.diags.iter().map(|d| (d.is_error, d.msg.clone(), key(d.first), key(d.last))).collect())
}
/// the same tokens were expanded before, from elsewhere
pub fn kept_after(t: TokenStream) {
    let (first, _) = stamp(&t, false);
    expand(first, move |_| kept_but(t, "zzk"));
}
pub fn located_after(t: TokenStream) {
    let (first, _) = stamp(&t, false);
    expand(first, move |_| located(t));
}
pub fn same_res(a: &Res, b: &Res) -> bool {
    let (x, y) = (snapshot(a), snapshot(b));
    if x.1.len() != y.1.len() || x.0.is_some() != y.0.is_some() {
        return false;
    }
    let mut ok = true;
    for (p, q) in x.1.iter().zip(&y.1) {
        ok &= p.0 == q.0 && p.2 == q.2 && p.3 == q.3 && same(p.1.as_bytes(), q.1.as_bytes());
    }
    if let (Some(p), Some(q)) = (&x.0, &y.0) {
        ok &= p.len() == q.len();
        if ok {
            for (f, g) in p.iter().zip(q) {
                ok &= f.k == g.k && f.c == g.c && same(&f.s, &g.s);
            }
        }
    }
    ok
}
pub fn again(t: TokenStream, between: TokenStream) {
    tell("input", &t);
    let t2 = t.clone();
    seed(1);
    expand(t, move |a| {
        tell_res(&a);
        note_res(&a);
        expand(between, move |_| {
            seed(choice(3) as u64 + 2);
            heap_base(3 + choice(2) as u64 * 37);
            expand(t2, move |b| {
                tell_res(&b);
                cover(1);
                check(same_res(&a, &b), 3);
            });
        });
    });
}
/// joint and alone are the same, unless Rust would read one token
fn respace(t: TokenStream, flip: &mut dyn FnMut() -> bool) -> TokenStream {
    const OPS: [&str; 25] = ["::", "..", "||", "=>", "->", "<-", "==", "&&", "-=", "|=", "!=", "<=", ">=", "<<", ">>", "+=", "*=", "/=", "^=", "%=", "&=", ".=", "|;", "'a", "//"];
    let v: Vec<TT> = t.into_iter().collect();
    let mut out = vec![];
    for (i, x) in v.iter().enumerate() {
        out.push(match x {
            TT::Group(g) => {
                let mut h = Group::new(g.delimiter(), respace(g.stream(), flip));
                h.set_span(g.span());
                TT::Group(h)
            }
            TT::Punct(p) => {
                let mut p = p.clone();
                if let Some(TT::Punct(q)) = v.get(i + 1) {
                    let s: String = [p.as_char(), q.as_char()].iter().collect();
                    if p.spacing() == Spacing::Alone && p.as_char() != '\'' && !OPS.contains(&&*s) && flip() {
                        p = proc_macro2::Punct::new(p.as_char(), Spacing::Joint);
                    }
                }
                TT::Punct(p)
            }
            x => x.clone(),
        });
    }
    out.into_iter().collect()
}
fn spacing(t: TokenStream) {
    let mut left = 7;
    let u = respace(t.clone(), &mut || { if left == 0 { return false; } left -= 1; flag() });
    tell("input", &t);
    expand(t, move |a| {
        tell_res(&a);
        note_res(&a);
        expand(u, move |b| {
            tell_res(&b);
            cover(1);
            check(a.reported() == b.reported() && a.out.is_some() == b.out.is_some(), 4);
            if let (Some(x), Some(y)) = (&a.out, &b.out) {
                check(eq(&flat(x), &flat(y)), 3);
            }
        });
    });
}

// ---------- C20 ----------
fn users(s: &[u8]) -> bool { s.starts_with(b"zz") || s.starts_with(b"Zz") || s.starts_with(b"__") }
/// every name is the user's, a method, a keyword, or part of an absolute path
fn absolute(ts: &[F], names: &[Vec<u8>]) {
    // names written in the view are the user's
    let users = |s: &[u8]| users(s) || names.iter().any(|n| n == s);
    let pun = |k: usize, c: u8| ts.get(k).is_some_and(|f| f.k == Kd::Punct && f.c == c);
    for k in 0..ts.len() {
        if ts[k].k != Kd::Ident {
            continue;
        }
        let s = &ts[k].s;
        if users(s) {
            continue;
        }
        // in a path: find its start
        let mut at = k;
        let mut rooted = false;
        loop {
            if at >= 2 && pun(at - 1, b':') && pun(at - 2, b':') {
                if at >= 3 && ts[at - 3].k == Kd::Ident && !one_of(&ts[at - 3].s, &["move", "return", "in"]) {
                    at -= 3;
                    continue;
                }
                if at >= 3 && pun(at - 3, b'>') {
                    // an associated function of a generic or qualified type: its own names are judged apart
                    rooted = true;
                    break;
                }
                rooted = true;
                let root = &ts[at].s;
                if !one_of(root, &["leptos", "std", "core", "alloc", "leptos_mview"]) {
                    tell_text(&format!("root: {}", String::from_utf8_lossy(root)));
                    check(false, 16);
                }
            }
            break;
        }
        if rooted || (at != k && users(&ts[at].s)) {
            continue;
        }
        if at == k {
            let method = k >= 1 && pun(k - 1, b'.') && !(k >= 2 && pun(k - 2, b'.'));
            let word = is_kw(s) && !one_of(s, &["self", "Self", "super", "crate"]) || one_of(s, &["_", "unused_braces", "unreachable_code", "allow"]);
            if !(method || word) {
                tell_text(&format!("unqualified: {}", String::from_utf8_lossy(s)));
                check(false, 17);
            }
        } else {
            tell_text(&format!("relative path: {}", String::from_utf8_lossy(&ts[at].s)));
            check(false, 17);
        }
    }
}
fn qualified(t: TokenStream) { qualified_with(t, vec![]) }
/// for views of concrete names: all the names written in it
pub fn qualified_but_names(t: TokenStream) {
    let n = flat_raw(&t).into_iter().filter(|f| f.k == Kd::Ident).map(|f| f.s).collect();
    qualified_with(t, n);
}
fn qualified_with(t: TokenStream, names: Vec<Vec<u8>>) {
    tell("input", &t);
    expand(t, move |r| {
        tell_res(&r);
        note_res(&r);
        check(r.out.is_some(), 2);
        cover(1);
        absolute(&flat(r.out.as_ref().unwrap()), &names);
    });
}
fn user_comp() -> Tag { let w = tk::id("ZzCom"); Tag::Comp(w.clone(), w) }
fn user_attr(comp: bool, j: usize) -> At {
    let v = Some(value(j));
    let n = |c: &str| Key::N(Name::new(&format!("zz{c}{j}")));
    match choice(if comp { 14 } else { 12 }) {
        0 => At::Kv(Name::id(&format!("a{j}")), v),
        1 => At::Kv(Name::id(&format!("a{j}")), None),
        2 => At::Kv(Name::new(&format!("a-{j}")), v),
        3 => At::Short(Name::id(&format!("zza{j}"))),
        4 => At::Dir("class", n("c"), None, v),
        5 => At::Dir("style", n("c"), None, v),
        6 => At::Dir("prop", n("c"), None, v),
        7 => At::Dir("on", Key::N(nm("click")), None, v),
        8 => At::Dir("on", Key::N(nm("click")), Some("undelegated"), v),
        9 => At::Dir("use", n("c"), None, v),
        10 => At::Dir("use", n("c"), None, None),
        11 => At::Spread(mark(j)),
        12 => At::Dir("attr", Key::N(nm(["title", "data-x", "class", "aria-label"][choice(4)])), None, v),
        _ => At::Dir("clone", n("c"), None, None),
    }
}

// ---------- C21 ----------
fn find(got: &[F], want: &[F]) -> usize {
    if want.len() > got.len() {
        return 0;
    }
    (0..=got.len() - want.len()).filter(|&k| eq(&got[k..k + want.len()], want)).count()
}
/// the inner expansion of `t` as the only node, `{ IntoRender(X) }`: `IntoRender(X)`
pub fn everywhere(t: TokenStream) { everywhere_at(choice(16), t) }
pub fn everywhere_at(k: usize, t: TokenStream) {
    let around = around(k, t.clone());
    tell("alone", &t);
    tell("inside", &around);
    expand(t, move |a| {
        tell_res(&a);
        check(a.out.is_some() && a.errors() == 0, 1);
        let fa = flat(a.out.as_ref().unwrap());
        let inner = fa[1..fa.len() - 1].to_vec();
        expand(around, move |b| {
            tell_res(&b);
            note_res(&b);
            check(b.out.is_some() && b.errors() == 0, 1);
            let fb = flat(b.out.as_ref().unwrap());
            cover(1);
            check(find(&fb, &inner) == 1, 3);
        });
    });
}
fn around(k: usize, t: TokenStream) -> TokenStream {
    match k {
        0 => quote!("y" #t),
        1 => quote!(#t "y"),
        2 => quote!(div { #t }),
        3 => quote!(svg { #t }),
        4 => quote!(math { #t "y" }),
        5 => quote!(my-el class="q" { "y" #t }),
        6 => quote!(Par { #t }),
        7 => quote!(Par |q| { #t "y" }),
        8 => quote!(Par { slot:Tab { #t } }),
        9 => quote!(Par clone:q class:r={s} .t { "y" #t slot:Tab; }).into_iter().take(0).collect::<TokenStream>().into_iter().chain(quote!(Par .t clone:q class:r={s} { "y" #t slot:Tab; })).collect(),
        10 => quote!(Par ( Par ( Par { slot:Tab |q| { p { #t } } } ) )),
        11 => quote!(div #[hidden] "x").into_iter().take(0).chain(quote!(div hidden on:click={q} use:d style:a={b} ( #t ))).collect(),
        12 => quote!(p.u; Par a={b} clone:c |q| { "r" } #t div {..w} { "v" }),
        13 => quote!(circle { g { #t } }),
        14 => quote!(foreignObject { #t } a { "y" }),
        _ => quote!(mrow { mi { #t } } Par<T> { "y" }),
    }
}

entries! {
    // ---------- C18 ----------
    fn c18_attr() {
        let k = choice(6);
        let h = kinds(k);
        let b = choice(14);
        // names are strings on custom and SVG elements
        if (k == 1 || k == 2) && (b == 8 || b == 10) { exit(); }
        let a = m(bad_attr(b));
        let t = match choice(3) { 0 => quote!(#h #a { "x" }), 1 => quote!(#h x={y} #a z;), _ => quote!("w" #h #a u={v} { "x" } "y") };
        located(hold([0, 1, 4][choice(3)], t));
    }
    fn c18_attr_on() {
        // what is not possible on elements, components or slots
        let k = choice(7);
        let h = kinds(k);
        let a = m(match (k, choice(5)) {
            (6, 0) => quote!(class:a={b}), (6, 1) => quote!(attr:a={b}), (6, 2) => quote!({..a}), (6, 3) => quote!(.a), (6, _) => quote!(on:a={b}),
            (4 | 5, 0) => quote!(clone:a={b}), (4 | 5, 1) => quote!(clone:"a"), (4 | 5, 2) => quote!(attr:a:q={b}), (4 | 5, 3) => quote!(clone:a:q), (4 | 5, _) => quote!(attr:"a b"={c}),
            (_, 0) => quote!(attr:a={b}), (_, 1) => quote!(clone:a), (_, 2) => quote!(attr:{a}), (_, 3) => quote!(clone:{a}), _ => quote!(class:a:q={b}),
        });
        located(held(k, if flag() { quote!(#h #a { "x" }) } else { quote!(#h #a; "z") }));
    }
    fn c18_missing_value() {
        let k = choice(7);
        let h = kinds(k);
        let key = match choice(if k == 6 { 2 } else { 4 }) { 0 => quote!(a), 1 => quote!(a-b), 2 => quote!(class:a), _ => quote!(style:"a") };
        // an error at the token that is not a value is at the offending construct as well
        let t = match choice(5) {
            0 => { let e = m(quote!(#h #key= ;)); quote!(#e "x") }
            1 => { let e = m(quote!(#h #key= b)); quote!(#e = 1;) }
            2 => m(quote!(#h #key=)),
            3 => { let e = m(quote!(#h #key= ("x"))); quote!(#e "y") }
            _ => { let e = m(quote!(#h #key= word)); quote!(#e;) }
        };
        located(held(k, t));
    }
    fn c18_child() {
        let b = m(match choice(9) { 0 => quote!(1), 1 => quote!(2u8), 2 => quote!('a'), 3 => quote!(2.5e3), 4 => quote!(g["a"]), 5 => quote!(;), 6 => quote!(g[]), 7 => quote!(1.5), _ => quote!(b"a") });
        located(hold(choice(6), match choice(3) { 0 => b, 1 => quote!("x" #b), _ => quote!(p; #b "y") }));
    }
    fn c18_stray() {
        const P: Set = Set::empty().with(b'!').with(b'$').with(b'%').with(b'&').with(b'*').with(b'+').with(b',').with(b'/')
            .with(b'>').with(b'?').with(b'@').with(b'^').with(b'~').with(b'=');
        let p = tk::p(byte(P) as char);
        located(hold(choice(6), match choice(6) {
            0 => m(p),
            1 => { let b = m(quote!(#p)); quote!("x" #b "y") }
            2 => { let b = m(quote!(div a=1 #p)); quote!(#b;) }
            3 => { let b = m(quote!(Com #p { "a" })); quote!(#b) }
            4 => { let b = m(quote!(div .a #p;)); quote!("x" #b) }
            _ => { let b = m(quote!(Com a={b} #p)); quote!(#b c;) }
        }));
    }
    fn c18_unterminated() {
        let k = choice(7);
        let h = kinds(k);
        let a = match choice(5) { 0 => quote!(), 1 => quote!(a), 2 => quote!(a=1), 3 => quote!(a-b=[c] {d}), _ => quote!({a}) };
        let e = m(quote!(#h #a));
        located(if k == 6 { quote!(Com { "y" #e }) } else { hold(choice(5), quote!("x" #e)) });
    }
    fn c18_args() {
        let k = choice(6);
        let h = kinds(k);
        let e = match choice(6) {
            0 => m(quote!(#h |x|)), 1 => m(quote!(#h |x| ;)), 2 => m(quote!(#h |x)), 3 => m(quote!(#h a={b} |)), 4 => m(quote!(#h || "x")),
            _ => { if k >= 4 { exit() } let a = m(quote!(|x|)); quote!(#h #a { "y" }) }
        };
        located(hold([0, 1, 2, 4][choice(4)], e));
    }
    fn c18_slots() {
        let k = choice(4);
        let h = kinds(k);
        let s = match choice(3) { 0 => quote!(slot:Tab;), 1 => quote!(slot:Tab a={b} { "x" }), _ => quote!(slot:Tab .a;) };
        let s = m(s);
        located(match choice(8) {
            0 => s,
            1 => quote!("a" #s),
            2 => quote!(#h { #s }),
            3 => quote!(#h { "a" #s "b" }),
            4 => { let s = m(quote!(slot:tab;)); quote!(Com { #s }) }
            5 => { let s = m(quote!(slot:a::Tab { "x" })); quote!(Com { "a" #s }) }
            6 => { let s = m(quote!(slot:my-tab;)); quote!(Com { #s "b" }) }
            _ => { let s = m(quote!(slot:Super;)); quote!(Com { #s #h; }) }
        });
    }
    fn c18_names() {
        // names that cannot be identifiers, and words in error
        let w = tk::id(UNRAW[choice(5)]);
        located(match choice(8) {
            0 => { let e = m(quote!(#w;)); quote!("a" #e) }
            1 => { let e = m(w); quote!(div a={b} #e;) }
            2 => { let e = m(quote!(#w={b})); quote!(Com #e c;) }
            3 => { let e = m(quote!({#w})); quote!(div #e "x";).into_iter().take(0).collect::<TokenStream>().into_iter().chain(quote!(div #e { "x" })).collect() }
            4 => { let e = m(quote!(on:#w={b})); quote!(div #e { "x" }) }
            5 => { let e = m(quote!(clone:#w)); quote!(Com #e { "x" }) }
            6 => { let e = m(quote!(use:{#w})); quote!(Com #e;) }
            _ => { let e = m(quote!(#w:a={b})); quote!(div #e;) }
        });
    }
    fn c18_incomplete() {
        let e = m(match choice(9) {
            0 => quote!(div class:;), 1 => quote!(div class:={b};), 2 => quote!(div on:a:;), 3 => quote!(Com use:,;), 4 => quote!(a::;), 5 => quote!(Com<T;), 6 => quote!(Com { slot:; }),
            7 => quote!(div {a b};), _ => quote!(div .;),
        });
        located(hold([0, 1, 2, 4][choice(4)], quote!("x" #e)));
    }
    // user code in every value, on every kind of element
    fn c18_user_values() {
        let k = choice(6);
        let v = value(0);
        let d = k == 4;
        let a = match choice(if k == 5 { 2 } else if d { 9 } else { 8 }) {
            0 => At::Kv(nm("a"), Some(v)),
            1 => At::Kv(nm("a-b"), Some(v)),
            2 => At::Dir("class", Key::N(nm("a")), None, Some(v)),
            3 => At::Dir("on", Key::N(nm("a")), Some("undelegated"), Some(v)),
            4 => At::Dir("use", Key::N(nm("a")), None, Some(v)),
            5 => At::Dir("prop", Key::S("a".into()), None, Some(v)),
            6 => At::Spread(mark(0)),
            7 => At::Dir("style", Key::N(nm("a")), None, Some(v)),
            _ => At::Dir("attr", Key::N(nm("a")), None, Some(v)),
        };
        let e = El::new(tag(k)).attr(a).attr(At::Kv(nm("w"), Some(block(1)))).kids(vec![txt(2), Node::V(value(3)), Node::V(Val::Block(TokenStream::new()))]);
        let e = if k >= 4 && flag() { e.args(quote!(|zz4, (zz5, _): Vec<zz6>|)) } else { e };
        kept(print(&if k == 5 { vec![El::new(tag(4)).kids(vec![e.node()]).node()] } else { vec![e.node(), Node::V(value(7))] }));
    }
    fn c18_user_code() {
        // longer code: every token of it
        let c = match choice(5) {
            0 => quote!(zz0 + zz1 * (zz2 - "zz3")), 1 => quote!(move |zz0| { zz1.zz2(zz3)?; zz4 }), 2 => quote!("zz0 {}", zz1, zz2), 3 => quote!(#[zz0] zz1 { zz2: [zz3] }), _ => quote!({ { zz0 } }),
        };
        let v = match choice(3) { 0 => Val::Block(c), 1 => Val::Clo(c), _ => Val::Fmt(c) };
        let t = v.print();
        kept(match choice(7) {
            0 => t, 1 => quote!(div { #t }), 2 => quote!(Com a=#t;), 3 => quote!(div on:a=#t;), 4 => quote!(Com { slot:Tab a=#t; }), 5 => quote!(Com class:a=#t { "b" }), _ => quote!(Com |x| { #t }),
        });
    }
    // names the macro passes on keep their locations too
    fn c18_user_names() {
        let k = choice(6);
        let a = match choice(if k == 5 { 4 } else if k == 4 { 9 } else { 7 }) {
            0 => At::Kv(nm("zzn"), Some(block(0))),
            1 => At::Kv(nm("zzn"), None),
            2 => At::Short(nm("zzn")),
            3 => if k >= 4 { At::Dir("clone", Key::N(nm("zzn")), None, None) } else { At::Dir("use", Key::N(nm("zzn")), None, None) },
            4 => At::Dir("on", Key::N(nm("zzn")), None, Some(block(0))),
            5 => At::Dir("use", Key::N(nm("zzn")), None, Some(block(0))),
            6 => At::Dir("class", Key::N(nm("k")), None, Some(block(0))),
            7 => At::Dir("attr", Key::N(nm("zzn")), None, Some(block(0))),
            _ => At::Dir("on", Key::N(nm("zzn")), Some("undelegated"), Some(block(0))),
        };
        // literal names may lose their location on svg and custom elements: they are strings there
        if (k == 1 || k == 2) && matches!(a, At::Kv(..) | At::Short(..)) { exit(); }
        let e = El::new(match k { 0 => Tag::html("zzdiv"), 4 => Tag::Comp(quote!(zza::Zzb<zzc>), quote!()), 5 => Tag::Slot("ZzTab".into(), "zz_tab".into()), k => tag(k) }).attr(a).kids(vec![txt(9)]);
        kept(print(&if k == 5 { vec![El::new(tag(4)).kids(vec![e.node()]).node()] } else { vec![e.node()] }));
    }
    // a missing or wrong prop is located at the component and the prop
    fn c18_component() {
        let p = match choice(4) { 0 => quote!(zzp::ZzCom), 1 => quote!(ZzCom), 2 => quote!(ZzCom<zzt>), _ => quote!(::zza::ZzCom) };
        let p = m(p);
        let rest = match choice(3) { 0 => quote!(;), 1 => quote!({ "x" }), _ => quote!(|q| { "x" }) };
        let a = match choice(4) { 0 => quote!(yyk={b}), 1 => quote!(yyk), 2 => quote!({yyk}), _ => quote!(x={y} yyk="z") };
        built(hold([0, 1, 5][choice(3)], quote!(#p #a #rest)), "yyk");
    }
    fn c18_slot_build() {
        let a = match choice(3) { 0 => quote!(yyk={b}), 1 => quote!(yyk), _ => quote!({yyk}) };
        let rest = match choice(2) { 0 => quote!(;), _ => quote!({ "x" }) };
        // the parent is built at its own path; only the slot's marks are in the slot
        let (p, q) = (m(quote!(Com)), m(quote!(Tab)));
        built(quote!(#p { slot:#q #a #rest }), "yyk");
    }

    // ---------- C19 ----------
    fn c19_again() { let t = busy(2); again(t, quote!()); }
    fn t19_again3() { let t = busy(3); again(t, quote!()); }
    fn c19_history() {
        let b = match choice(6) {
            0 => quote!(Foo { slot:Cc; slot:Aa; slot:Bb; }), 1 => quote!(1 2 ;), 2 => quote!(slot:Tab;), 3 => quote!(div a= ;), 4 => quote!(div class:),
            _ => quote!(Com { slot:Tab { slot:Aa; } clone:q }),
        };
        let t = match choice(4) {
            0 => quote!(Com { slot:Aa; slot:Bb; slot:Aa; slot:Cc; }),
            1 => { let n = tk::id(&text(2, ALPHA_, WORD)); quote!(#n a={b} { "c" }) }
            2 => quote!(Com .a .b on:c={d} {..e} |f| { "g" slot:Tab; }),
            _ => quote!(div a= ; 1 p),
        };
        again(t, b);
    }
    fn c19_spacing() {
        let (a, b) = (tk::id(&text(1, LOWER, LOWER)), tk::id(&text(1, LOWER, LOWER)));
        let h = tk::p('#');
        spacing(match choice(12) {
            0 => quote!(div -#a - - #b - ;), 1 => quote!(Com - - #a=1;), 2 => quote!(div .- #a .#b-;), 3 => quote!(div #h - #a #h #b - .c;),
            4 => quote!(div #a= - 1 #b-c= -2.5;), 5 => quote!(div style:- - #a="x";), 6 => quote!(#a-#b- -;), 7 => quote!(Com |&#a| { - 1 }),
            8 => quote!(div class:-#a- ={#b};), 9 => quote!(Com <&'a #a> ;), 10 => quote!(div { #a ; #b ; ; }), _ => quote!(Com { slot : Tab -#a=-1 ; "x" }),
        });
    }
    fn c19_spacing_soup() {
        let ts: Vec<TokenStream> = (0..4).map(|_| match choice(7) { 0 => tk::id("a"), c => tk::p(b"-:.;=#"[c - 1] as char) }).collect();
        let t = tk::cat(ts);
        spacing(quote!(div #t;));
    }
    // Rust's own lexer: the same text with and without spaces
    fn c19_text() {
        const V: [(&str, &str); 14] = [
            ("div a-b=1;", "div a - b = 1 ;"), ("div.a.b-c{\"x\"}", "div . a . b - c { \"x\" }"), ("Com class:--a={b};", "Com class : -- a = { b } ;"),
            ("Com|x|{\"y\"}", "Com | x | { \"y\" }"), ("a::Com<T>;", "a :: Com < T > ;"), ("div on:click:undelegated={a};", "div on : click : undelegated = { a } ;"),
            ("Com{slot:Tab a=1{\"x\"}}", "Com { slot : Tab a = 1 { \"x\" } }"), ("div{..a};", "div { .. a } ;"), ("my-el{f[\"{}\",a]}", "my - el { f [ \"{}\" , a ] }"),
            ("div a=-1;", "div a = - 1 ;"), ("p;\"x\";p{};", "p ; \"x\" ; p { } ;"), ("Com clone:a-b(\"x\")", "Com\n clone\t: a - b ( /* c */ \"x\" ) // d"), ("Com::<A,B>{}", "Com :: < A , B > { }"),
            ("div #a.b #c;", "div # a . b # c ;"),
        ];
        let (a, b) = V[choice(14)];
        let (a, b): (TokenStream, TokenStream) = (a.parse().unwrap(), b.parse().unwrap());
        tell("input", &a);
        expand(a, move |x| {
            tell_res(&x);
            expand(b, move |y| {
                tell_res(&y);
                cover(1);
                check(x.reported() == y.reported() && x.out.is_some() == y.out.is_some(), 4);
                if let (Some(x), Some(y)) = (&x.out, &y.out) { check(eq(&flat(x), &flat(y)), 3); }
            });
        });
    }

    // ---------- C20 ----------
    fn c20_element() {
        let k = choice(5);
        let mut e = El::new(if k == 4 { user_comp() } else { tag(k) });
        for j in 0..2 { e = e.attr(user_attr(k == 4, j)); }
        if flag() { e = e.sels(vec![Sel::Class(nm("a-b")), Sel::Id(nm("c"))]); }
        qualified(print(&[e.kids(vec![txt(8)]).node()]));
    }
    fn c20_names() {
        let l = choice(6) + 1;
        let n = Name::id(&ident(l));
        let k = choice(5);
        let a = match choice(7) { 0 => At::Kv(n, Some(block(0))), 1 => At::Kv(n, None), 2 => At::Dir("on", Key::N(n), None, Some(block(0))), 3 => At::Dir("class", Key::N(n), None, Some(block(0))),
            4 => At::Kv(Name(vec![n.0[0].clone(), Part::Dash, Part::Id("x".into())]), Some(block(0))), 5 => At::Dir("prop", Key::N(n), None, Some(block(0))),
            _ => if k == 4 { At::Dir("attr", Key::N(n), None, Some(block(0))) } else { At::Dir("style", Key::N(n), None, Some(block(0))) } };
        qualified(print(&[El::new(if k == 4 { user_comp() } else { tag(k) }).attr(a).node()]));
    }
    fn c20_tag() {
        let l = choice(6) + 1;
        let w = text(l, LOW_, LOWNUM);
        assume(!one_of(w.as_bytes(), &["slot"]) & !one_of(w.as_bytes(), &UNRAW));
        let t = match choice(2) { 0 => tk::id(&w), _ => { let i = tk::id(&w); quote!(#i-x) } };
        qualified(quote!(#t a { "zz1" }));
    }
    fn c20_children() {
        let mk = |j: usize| match choice(6) {
            0 => txt(j), 1 => Node::V(value(j)), 2 => El::new(tag(choice(4))).kids(vec![txt(j)]).node(), 3 => El::new(user_comp()).kids(vec![Node::V(Val::Clo(mark(j)))]).node(),
            4 => El::new(user_comp()).args(quote!(|zz50|)).kids(vec![]).node(), _ => El::new(Tag::html("p")).node(),
        };
        let k = choice(3);
        let mut kids: Vec<Node> = (0..2).map(mk).collect();
        qualified(match k {
            0 => print(&kids),
            1 => print(&[El::new(user_comp()).attr(At::Dir("clone", Key::N(nm("zzc")), None, None)).kids(kids).node()]),
            _ => { for _ in 0..choice(3) { kids.push(El::new(Tag::Slot("ZzTab".into(), "zz_tab".into())).attr(user_slot_attr()).kids(vec![txt(9)]).node()); } print(&[El::new(user_comp()).kids(kids).node()]) }
        });
    }
    // also when something is reported: what is put in its place
    fn c20_errors() {
        let bad = match choice(9) { 0 => quote!(p a= ;), 1 => quote!(ZzCom a= ;), 2 => quote!(1), 3 => quote!(p _;), 4 => quote!(ZzCom { slot:ZzTab a= ; }), 5 => quote!(p on:"x"={zz0};), 6 => quote!(p xx:a={zz0};), 7 => quote!(ZzCom class:a=q[zz0];), _ => quote!(self;) };
        qualified(quote!("zz1" #bad "zz2"));
    }

    // ---------- C21 ----------
    fn c21_element() {
        let k = choice(5);
        let mut e = El::new(tag(k));
        e = e.attr(if k == 4 { dir_comp(choice(14), 1) } else { dir_el(choice(14), 1) });
        if flag() { e = e.sels(vec![Sel::Class(nm("a"))]); }
        let e = match choice(3) { 0 => e, 1 => e.kids(vec![txt(7)]), _ => e.kids(vec![El::new(Tag::html("b")).attr(At::Kv(nm("c"), Some(block(8)))).node(), Node::V(Val::Clo(mark(9)))]) };
        everywhere(print(&[e.node()]));
    }
    // names that mean something in some surroundings
    fn c21_ambiguous() {
        let t = tk::id(["a", "title", "style", "script", "text", "image", "g", "mi", "font", "video", "switch", "svg", "math", "object", "slot_"][choice(15)]);
        everywhere(match choice(7) { 4 => quote!(#t;), 5 => quote!(#t {}), 6 => quote!(#t { "zz1" }), 0 => quote!(#t x;), 1 => quote!(#t class={zz0} data-a=1 { "zz1" }), 2 => quote!(#t.q;), _ => quote!(#t-e x={y};) });
    }
    fn c21_name() {
        let l = choice(3) + 1;
        let w = ident(l);
        assume(!one_of(w.as_bytes(), &["f"]));
        let t = tk::id(&w);
        everywhere(match choice(5) { 3 => quote!(#t;), 4 => quote!(#t-x {}), 0 => quote!(#t zz0;), 1 => quote!(p #t={zz0};), _ => quote!(Foo {#t} { "zz1" }) });
    }
    fn c21_component() {
        let t = match choice(6) {
            0 => quote!(Foo;), 1 => quote!(Foo { "zz1" }), 2 => quote!(Foo clone:zz3 |zz2| { "zz1" }), 3 => quote!(Foo { slot:Tab { "zz1" } slot:Tab; slot:Bar; }), 4 => quote!(a::Foo<T> x on:y={zz1};), _ => quote!(Foo .zz1 {..zz2} attr:class="zz3" ()),
        };
        everywhere(t);
    }
    fn c21_value() {
        everywhere(Node::V(value(0)).print());
    }
    // a slot expands the same whatever its parent
    fn c21_slot() {
        let s = match choice(4) { 0 => quote!(slot:Tab x={zz0};), 1 => quote!(slot:Tab |zz1| { "zz2" }), 2 => quote!(slot:Tab clone:zz1 { "zz2" slot:Tab; }), _ => quote!(slot:Tab) };
        let s = if s.clone().into_iter().count() == 3 { quote!(#s {}) } else { s };
        let (a, b) = (quote!(Par { #s }), match choice(7) {
            0 => quote!(Com a={b} { "y" #s }), 1 => quote!(Com |q| { #s "y" }), 2 => quote!(Com { slot:Tab; #s }), 3 => quote!(Com { slot:Foo { #s } }), 4 => quote!(div { Com { #s } "z" }),
            5 => quote!(Com clone:q { #s slot:Foo; "y" }), _ => quote!(p::Com<T> .c ( #s )),
        });
        tell("alone", &a);
        tell("inside", &b);
        expand(a, move |x| {
            check(x.out.is_some() && x.errors() == 0, 1);
            let fx = flat(x.out.as_ref().unwrap());
            // `.r#tab( X )`
            let at = (0..fx.len()).find(|&k| fx[k].k == Kd::Ident && fx[k].s == b"tab").unwrap();
            let inner = fx[at + 2..close(&fx, at + 1)].to_vec();
            expand(b, move |y| {
                tell_res(&y);
                note_res(&y);
                check(y.out.is_some() && y.errors() == 0, 1);
                cover(1);
                check(find(&flat(y.out.as_ref().unwrap()), &inner) >= 1, 3);
            });
        });
    }
}
fn close(v: &[F], open: usize) -> usize {
    let mut d = 0;
    for k in open..v.len() {
        match v[k].k {
            Kd::Open => d += 1,
            Kd::Close => d -= 1,
            _ => {}
        }
        if d == 0 {
            return k;
        }
    }
    v.len()
}
fn user_slot_attr() -> At {
    match choice(4) { 0 => At::Kv(nm("a"), Some(value(20))), 1 => At::Kv(nm("a-b"), None), 2 => At::Short(nm("zzd")), _ => At::Dir("clone", Key::N(nm("zzd")), None, None) }
}
