//! Symbolic generators.
use crate::{spec::*, sym::*, tk};
use proc_macro2::TokenStream;
use quote::quote;

/// names that cannot be Rust identifiers of any form
pub const UNRAW: [&str; 5] = ["_", "self", "Self", "super", "crate"];

/// an identifier of `n` symbolic bytes that can be written raw
pub fn ident(n: usize) -> String {
    let s = text(n, ALPHA_, WORD);
    assume(!crate::flat::one_of(s.as_bytes(), &UNRAW));
    s
}
/// an identifier of `n` bytes that is not a keyword either
pub fn plain(n: usize) -> String {
    let s = text(n, LOW_, LOWNUM);
    assume(!crate::flat::is_kw(s.as_bytes()) & !crate::flat::one_of(s.as_bytes(), &UNRAW));
    s
}
pub fn word(n: usize) -> String { text(n, LOWER, LOWER) }

/// unique user code: an identifier no generated code contains
pub fn mark(k: usize) -> TokenStream { tk::id(&format!("zz{k}")) }

/// one of the four documented value forms
pub fn value(k: usize) -> Val {
    let m = mark(k);
    match choice(4) {
        0 => Val::Lit(tk::st(&format!("zz{k}"))),
        1 => Val::Block(m),
        2 => Val::Clo(m),
        _ => Val::Fmt(quote!("{}", #m)),
    }
}
pub fn block(k: usize) -> Val { Val::Block(mark(k)) }
pub fn lit(k: usize) -> Val { Val::Lit(tk::st(&format!("zz{k}"))) }
pub fn txt(k: usize) -> Node { Node::V(lit(k)) }

/// an element of every kind of tag; component last
pub fn tag(k: usize) -> Tag {
    match k {
        0 => Tag::Html(Name::new("div")),
        1 => Tag::Custom(Name::new("my-el")),
        2 => Tag::Svg(Name::new("circle")),
        3 => Tag::Math(Name::new("mfrac")),
        4 => Tag::comp("Com"),
        _ => Tag::Slot("Tab".into(), "tab".into()),
    }
}

/// kebab-case names of varied shape; symbolic letters
pub fn kebab() -> Name {
    use Part::*;
    Name(match choice(9) {
        0 => vec![Id(ident(1))],
        1 => vec![Id(ident(3))],
        2 => vec![Raw(ident(4))],
        3 => vec![Id(ident(2)), Dash, Id(ident(2))],
        4 => vec![Id(ident(1)), Dash, Num(text(2, DIGIT, DIGIT))],
        5 => vec![Dash, Dash, Id(ident(2)), Dash, Id(ident(1))],
        6 => vec![Dash, Id(ident(3))],
        7 => vec![Id(ident(1)), Dash, Dash, Id(ident(1)), Dash],
        _ => vec![Id(ident(2)), Dash, Num(text(1, DIGIT, DIGIT)), Dash, Id(ident(1))],
    })
}

// ---------- what else an element carries, and where it stands ----------
pub fn nm(s: &str) -> Name { Name::new(s) }
pub fn key(s: &str) -> Key { Key::N(nm(s)) }
pub fn slot(w: &str, prop: &str) -> El { El::new(Tag::Slot(w.into(), prop.into())) }

/// number of decorations of [`decorate`]
pub const DECO: u32 = 24;
/// adds one more feature to an element; `i` makes what it adds unique
pub fn decorate(mut e: El, d: usize, i: usize) -> El {
    let v = Some(block(i));
    let (comp, slt) = (matches!(e.tag, Tag::Comp(..)), e.is_slot());
    let front = |e: &mut El, a: At| e.attrs.insert(0, a);
    let kid = |e: &mut El, last: bool, k: Node| {
        let body = std::mem::replace(&mut e.body, Body::Semi);
        e.body = match body {
            Body::Semi => Body::Brace(vec![k]),
            Body::Brace(mut v) => { v.insert(if last { v.len() } else { 0 }, k); Body::Brace(v) }
            Body::Paren(mut v) => { v.insert(if last { v.len() } else { 0 }, k); Body::Paren(v) }
        };
    };
    match d {
        0 => {}
        1 => front(&mut e, At::Kv(nm("b0"), v)),
        2 => e.attrs.push(At::Kv(nm("b1-x"), v)),
        3 => kid(&mut e, true, txt(i)),
        4 => kid(&mut e, false, El::new(Tag::html("p")).attr(At::Kv(nm("b2"), v)).kids(vec![Node::V(Val::Clo(mark(i + 1)))]).node()),
        5 => if let Body::Semi = e.body { e.body = Body::Brace(vec![]) },
        6 => e.body = match std::mem::replace(&mut e.body, Body::Semi) { Body::Semi => Body::Paren(vec![]), Body::Brace(v) => Body::Paren(v), Body::Paren(v) => Body::Brace(v) },
        7 => front(&mut e, At::Kv(nm("b3"), Some(Val::Clo(mark(i))))),
        8 => e.attrs.push(At::Short(nm(&format!("zzk{i}")))),
        // components and slots
        9 if comp | slt => e.attrs.push(At::Dir("clone", key(&format!("zzk{i}")), None, None)),
        10 if comp | slt => {
            if let Body::Semi = e.body { e.body = Body::Brace(vec![txt(i + 1)]) }
            let m = mark(i);
            e.args = Some(quote!(|(#m, _)|));
        }
        11 if comp | slt => kid(&mut e, false, slot("Oth", "oth").kids(vec![txt(i)]).node()),
        12 if comp | slt => kid(&mut e, true, slot("Tab", "tab").attr(At::Kv(nm("b4"), v)).node()),
        // elements and components
        _ if slt => return decorate(e, d % 9, i),
        13 => e.sels.push(Sel::Class(nm("b5-y"))),
        14 => e.sels.insert(0, Sel::Id(nm("b6"))),
        15 => front(&mut e, At::Dir("class", key("b7-z"), None, v)),
        16 => e.attrs.push(At::Dir("style", Key::S("--b8".into()), None, v)),
        17 => e.attrs.push(At::Dir("on", key("b9"), Some("undelegated"), v)),
        18 => front(&mut e, At::Dir("on", key("b10"), None, v)),
        19 => e.attrs.push(At::Dir("use", key("b11"), None, None)),
        20 => front(&mut e, At::Spread(mark(i))),
        21 => e.attrs.push(At::Dir("prop", key("b12"), None, v)),
        22 => front(&mut e, At::Kv(nm("class"), v)),
        // what is left: 9..=12 on elements, 23 on everything
        9 => front(&mut e, At::Kv(nm("ref"), v)),
        10 => e.attrs.push(At::Kv(nm("style"), v)),
        11 => e.attrs.push(At::Kv(nm("aria-b13"), v)),
        12 => kid(&mut e, true, El::new(Tag::comp("Foo")).sels(vec![Sel::Class(nm("b14"))]).kids(vec![txt(i)]).node()),
        _ => { front(&mut e, At::Dir("use", key("b15"), None, v)); e.attrs.push(At::Spread(mark(i + 1))) }
    }
    e
}

/// number of surroundings of [`place`]
pub const PLACE: u32 = 14;
/// a view with the element somewhere in it
pub fn place(e: El, k: usize) -> Vec<Node> {
    let (a, b) = (txt(90), El::new(Tag::html("hr")).node());
    let com = || El::new(Tag::comp("Par"));
    if e.is_slot() {
        let same = |i: usize| { let Tag::Slot(w, p) = &e.tag else { unreachable!() }; slot(w, p).attr(At::Kv(nm("w"), Some(block(i)))).node() };
        let oth = |i: usize| slot("Qqq", "qqq").kids(vec![txt(i)]).node();
        let (s, t) = (same(91), same(92));
        let e = e.clone().node();
        return vec![match k {
            0 => com().kids(vec![e]).node(),
            1 => com().kids(vec![a, e]).node(),
            2 => com().kids(vec![e, b]).node(),
            3 => com().kids(vec![s, e]).node(),
            4 => com().kids(vec![e, a, s, t]).node(),
            5 => com().kids(vec![oth(93), e, oth(94)]).node(),
            6 => com().attr(At::Kv(nm("w"), Some(block(95)))).sels(vec![Sel::Class(nm("w"))]).args(quote!(|zz96|)).kids(vec![b, e]).node(),
            7 => com().kids(vec![slot("Qqq", "qqq").kids(vec![e, a]).node()]).node(),
            8 => El::new(Tag::html("div")).kids(vec![com().kids(vec![e]).node()]).node(),
            9 => com().kids(vec![s, oth(93), e, t]).node(),
            10 => com().kids(vec![com().kids(vec![e]).node(), s]).node(),
            11 => com().attr(At::Dir("clone", key("zzk97"), None, None)).kids(vec![e, t]).node(),
            12 => { let mut c = com(); c.body = Body::Paren(vec![e, a]); c.node() }
            _ => com().attr(At::Spread(mark(98))).attr(At::Dir("on", key("w"), None, Some(block(95)))).kids(vec![e, b]).node(),
        }];
    }
    let e = e.node();
    match k {
        0 => vec![e],
        1 => vec![a, e],
        2 => vec![e, b],
        3 => vec![b.clone(), e, a, b],
        4 => vec![El::new(Tag::html("div")).kids(vec![e]).node()],
        5 => vec![com().kids(vec![a, e]).node()],
        6 => vec![com().attr(At::Dir("clone", key("zzk97"), None, None)).args(quote!(|zz96|)).kids(vec![e, b]).node()],
        7 => vec![com().kids(vec![slot("Qqq", "qqq").kids(vec![e, a]).node()]).node()],
        8 => vec![El::new(Tag::Svg(nm("svg"))).kids(vec![El::new(Tag::Svg(nm("g"))).kids(vec![e]).node()]).node()],
        9 => vec![El::new(Tag::Custom(nm("x-y"))).attr(At::Kv(nm("w"), Some(block(95)))).kids(vec![e, a]).node(), b],
        10 => vec![com().kids(vec![slot("Qqq", "qqq").kids(vec![a]).node(), e]).node()],
        11 => vec![El::new(Tag::html("div")).kids(vec![com().kids(vec![El::new(Tag::html("p")).kids(vec![b, e]).node(), a]).node()]).node()],
        12 => { let mut c = com().attr(At::Kv(nm("w"), Some(block(95)))).sels(vec![Sel::Id(nm("w"))]); c.body = Body::Paren(vec![e]); vec![c.node()] }
        _ => vec![El::new(Tag::html("ul")).kids(vec![El::new(Tag::html("li")).kids(vec![e]).node(), El::new(Tag::html("li")).kids(vec![a]).node()]).node()],
    }
}

/// the element alone with every decoration, or plain (with one more feature) in every place
pub fn one_more(e: El) -> Vec<Node> {
    let c = choice(DECO + PLACE - 1);
    if c < DECO as usize {
        place(decorate(e, c, 80), 0)
    } else {
        place(e, c - DECO as usize + 1)
    }
}
/// two more decorations, at one place each
pub fn two_more(e: El) -> Vec<Node> {
    let a = choice(DECO);
    let b = choice(DECO);
    place(decorate(decorate(e, a, 80), b, 84), (a * 5 + b) % PLACE as usize)
}
/// one more decoration, every place
pub fn anywhere(e: El) -> Vec<Node> {
    let a = choice(DECO);
    place(decorate(e, a, 80), choice(PLACE))
}

// ---------- non-ASCII names ----------
/// letters outside ASCII: with and without case, of 2, 3 and 4 bytes, a combining mark
const LETTERS: [&str; 8] = ["\u{e9}", "\u{df}", "\u{3a3}", "\u{130}", "\u{1c5}", "\u{5909}", "\u{10400}", "e\u{301}"];
/// an identifier with one letter outside ASCII before, between or after symbolic ones
pub fn foreign() -> String {
    let l = LETTERS[choice(8)];
    match choice(4) {
        0 => l.to_string(),
        1 => format!("{}{l}", ident(1)),
        2 => format!("{l}{}", text(1, WORD, WORD)),
        _ => format!("{}{l}{}", text(1, LOWER, LOWER), text(1, WORD, WORD)),
    }
}

// ---------- texts ----------
/// string literals outside printable ASCII, or not written as themselves
const ODD: [&str; 24] = [
    "\"\u{e9}\"", "\"\u{65e5}\u{672c}\"", "\"\u{10400}\"", "\"e\u{301}\"", "\"\u{a0}x\"", "\"a\\nb\"", "\"\\t\"", "\"\\0\"", "\"\\\\\"", "\"\\\"\"", "\"{}\"",
    "\"{{a}}\"", "\"<b>\"", "\"&amp;\"", "\"\"", "\" \"", "\" a \"", "r\"a\\b\"", "r##\"a\"#b\"##", "\"a\\\n   b\"", "\"\\u{41}\\x42\"", "\"a:b/c?d=e&f#g\"", "\"\u{202e}a\"", "\"-1\"",
];
pub const ODDS: u32 = 24;
pub fn odd(k: usize) -> proc_macro2::Literal { ODD[k].parse().unwrap() }
