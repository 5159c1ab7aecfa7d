//! C06 attributes of elements, C07 props, C03 values.
use crate::{gen::*, judge::*, spec::*, sym::*, tk};
use proc_macro2::{Literal, TokenStream};
use quote::quote;

/// one attribute of any form, with a symbolic name; `k` makes its value unique
pub fn plain_attr(k: usize) -> At {
    let v = Some(block(k));
    match choice(8) {
        0 => At::Kv(Name::id(&ident(2)), v),
        1 => At::Kv(Name::id(&ident(2)), None),
        2 => At::Short(Name::id(&ident(2))),
        3 => At::Kv(Name(vec![Part::Id(ident(1)), Part::Dash, Part::Id(ident(1))]), v),
        4 => At::Kv(Name::id("class"), v),
        5 => At::Kv(Name::id("style"), v),
        6 => At::Kv(Name::id("ref"), v),
        _ => At::Kv(Name::new("aria-label"), v),
    }
}

/// user code of varied shape
fn code() -> TokenStream {
    let a = tk::id(&plain(2));
    match choice(16) {
        0 => quote!(),
        1 => quote!(#a),
        2 => quote!(#a, #a),
        3 => quote!(|x| x + #a),
        4 => quote!(move || { #a.get(); #a }),
        5 => quote!("{} {:?}", #a, [1, 2, 3]),
        6 => quote!(#a == 1 && !#a || #a <= -2),
        7 => quote!({ { #a } }),
        8 => quote!(#[allow(x)] #a),
        9 => quote!(if #a { "b" } else { 'c' }),
        10 => quote!(r#type::<#a>() as u8; ..),
        11 => quote!(=> #a ; => $ ? @ ~),
        12 => tk::none(quote!(#a + 1)),
        13 => quote!(view! { #a }),
        14 => quote!(let __x = (); #a),
        _ => quote!("only"),
    }
}
/// literals of every kind
fn literal(child: bool) -> TokenStream {
    if child || choice(3) == 0 {
        let n = choice(4);
        return match choice(3) {
            0 => tk::st(&text(n, TEXT, TEXT)),
            1 => tk::lit("r#\"raw \" x\"#".parse::<Literal>().unwrap()),
            _ => tk::lit(format!("\"{}\\n\\u{{41}}\"", text(n, TEXT, TEXT)).parse::<Literal>().unwrap()),
        };
    }
    let d = text(1, DIGIT, DIGIT);
    match choice(12) {
        0 => tk::int(&d),
        1 => tk::int(&format!("{d}u8")),
        2 => tk::int(&format!("{d}.5")),
        3 => tk::int(&format!("{d}e3")),
        4 => tk::int("0xff_u32"),
        5 => tk::id("true"),
        6 => tk::id("false"),
        7 => tk::lit(Literal::character('q')),
        8 => tk::lit(Literal::byte_string(b"ab")),
        9 => tk::lit("b'x'".parse::<Literal>().unwrap()),
        10 => { let i = tk::int(&d); quote!(- #i) }
        _ => tk::int("123456789012345678901234567890"),
    }
}
pub fn any_value(child: bool) -> Val {
    match choice(4) {
        0 => Val::Lit(literal(child)),
        1 => Val::Block(code()),
        2 => Val::Clo(code()),
        _ => Val::Fmt(code()),
    }
}

/// code that resembles what surrounds it
fn more_code() -> TokenStream {
    let a = quote!(zz9);
    match choice(33) {
        0 => quote!(move || #a),
        1 => quote!(|| #a),
        2 => quote!(move |x| #a),
        3 => quote!(#a.await),
        4 => quote!(#a?),
        5 => quote!(self.#a),
        6 => quote!('l: loop { break 'l #a; }),
        7 => quote!(true),
        8 => quote!("a" "b"),
        9 => quote!(1),
        10 => quote!(-1),
        11 => quote!(&#a),
        12 => quote!(*#a),
        13 => quote!((#a)),
        14 => quote!([#a]),
        15 => quote!(unsafe { #a }),
        16 => quote!(async move { #a.await }),
        17 => quote!(return #a;),
        18 => quote!(const { 1 }),
        19 => quote!(#a as f64 / 2.0),
        20 => quote!(format!("{}", #a)),
        21 => quote!("{}", #a),
        22 => quote!("{a} {{}}", a = #a),
        23 => quote!(#a,),
        24 => quote!(;),
        25 => quote!(()),
        26 => quote!({}),
        27 => quote!(..#a),
        28 => quote!(mview! { div { "a" } }),
        29 => quote!(if let Some(x) = #a { x } else { return }),
        30 => quote!(r#fn),
        31 => quote!(#a.get()),
        _ => quote!(let x = 1; x),
    }
}
fn code_value(c: TokenStream) -> Val { [Val::Block, Val::Clo, Val::Fmt][choice(3)](c) }

/// a value that is likely to be singled out, and its neighbours
pub fn lit_value() -> Val {
    Val::Lit(match choice(12) {
        0 => { let d = text(1, DIGIT, DIGIT); tk::int(&d) }
        1 => { let d = text(3, DIGIT, DIGIT); tk::int(&d) }
        2 => { let d = text(2, DIGIT, DIGIT); tk::int(&format!("{}.{}", &d[..1], &d[1..])) }
        3 => { let d = text(1, DIGIT, DIGIT); tk::int(&format!("{d}usize")) }
        4 => tk::id("true"),
        5 => tk::id("false"),
        6 => tk::st(""),
        7 => tk::lit(Literal::character('q')),
        8 => tk::lit(Literal::byte_string(b"ab")),
        9 => tk::int("0x0"),
        10 => return [Val::Block, Val::Clo, Val::Fmt][choice(3)]([quote!(), quote!(true), quote!("a")][choice(3)].clone()),
        _ => { let l = [1, 2, 4, 7, 12][choice(5)]; tk::st(&text(l, LONG, LONG)) }
    })
}
/// an HTML element of any name of `l` characters
pub fn any_html(l: usize) -> El {
    let w = text(l, LOWER, LOWNUM);
    let s = w.as_bytes();
    assume(!crate::flat::one_of(s, super::p04::SVG) & !crate::flat::one_of(s, super::p04::MATH) & !crate::flat::one_of(s, &["true", "false", "slot", "use_"]) & !crate::flat::one_of(s, &UNRAW));
    El::new(Tag::Html(Name::id(&w)))
}

fn tag_key_value(l: usize, n: usize) {
    let e = any_html(l);
    let k = Name::id(&ident(n));
    let v = match choice(5) { 0 => None, 1 => Some(block(0)), 2 => { let d = text(1, DIGIT, DIGIT); Some(Val::Lit(tk::int(&d))) } 3 => Some(Val::Lit(tk::id("true"))), _ => Some(Val::Lit(tk::st(&text(4, LONG, LONG)))) };
    want(vec![e.attr(At::Kv(k, v)).node()]);
}

fn value_ctx(k: usize, v: Val) -> Vec<Node> {
    let n = |s: &str| Name::new(s);
    let key = |s: &str| Key::N(Name::new(s));
    let div = || El::new(Tag::html("div"));
    let com = || El::new(Tag::comp("Com"));
    let slot = || El::new(Tag::Slot("Tab".into(), "tab".into()));
    let v = Some(v);
    vec![match k {
        0 => div().attr(At::Kv(n("key"), v)),
        1 => div().attr(At::Kv(n("data-x"), v)),
        2 => div().attr(At::Kv(n("class"), v)),
        3 => div().attr(At::Kv(n("ref"), v)),
        4 => El::new(Tag::Svg(n("path"))).attr(At::Kv(n("d"), v)),
        5 => div().attr(At::Dir("class", key("a-b"), None, v)),
        6 => div().attr(At::Dir("style", key("a"), None, v)),
        7 => div().attr(At::Dir("prop", key("a"), None, v)),
        8 => div().attr(At::Dir("on", key("a"), None, v)),
        9 => div().attr(At::Dir("on", key("a"), Some("undelegated"), v)),
        10 => div().attr(At::Dir("use", key("a"), None, v)),
        11 => com().attr(At::Kv(n("a"), v)),
        12 => com().attr(At::Dir("class", key("a"), None, v)),
        13 => com().attr(At::Dir("style", key("a"), None, v)),
        14 => com().attr(At::Dir("attr", key("a"), None, v)),
        15 => com().attr(At::Dir("attr", key("a-b"), None, v)),
        16 => com().attr(At::Dir("attr", key("class"), None, v)),
        17 => com().attr(At::Dir("prop", key("a"), None, v)),
        18 => com().attr(At::Dir("on", key("a"), None, v)),
        19 => com().attr(At::Dir("use", key("a"), None, v)),
        20 => com().kids(vec![slot().attr(At::Kv(n("a"), v)).node()]),
        // children
        21 => return vec![Node::V(v.unwrap())],
        22 => div().kids(vec![Node::V(v.unwrap())]),
        23 => com().kids(vec![Node::V(v.unwrap())]),
        24 => com().args(quote!(|x|)).kids(vec![Node::V(v.unwrap())]),
        25 => com().kids(vec![slot().kids(vec![Node::V(v.unwrap())]).node()]),
        26 => return vec![Node::V(v.clone().unwrap()), Node::V(v.unwrap())],
        _ => El::new(Tag::Custom(n("a-b"))).attr(At::Kv(n("k"), v.clone())).kids(vec![Node::V(v.unwrap())]),
    }
    .node()]
}

entries! {
    // ---------- C03 ----------
    fn c03_values() {
        let k = choice(28);
        let v = any_value(k >= 21);
        want(value_ctx(k, v));
    }
    // several values side by side: each keeps its own form
    fn c03_mixed() {
        let mut e = El::new(tag(choice(5)));
        let n = choice(3) + 1;
        for i in 0..n {
            e = e.attr(At::Kv(Name::id(&format!("k{i}")), Some(value(i))));
        }
        let n = choice(3);
        let mut kids = vec![];
        for i in 0..n {
            kids.push(Node::V(value(i + 3)));
        }
        want(vec![e.kids(kids).node()]);
    }
    // symbolic string contents, every printable character
    fn c03_string() {
        let s = text(choice(3) + 1, PRINT, PRINT);
        let k = [0, 1, 5, 11, 12, 20, 21, 22, 23, 25][choice(10)];
        want(value_ctx(k, Val::Lit(tk::st(&s))));
    }

    // longer texts, with the first and last characters free
    fn c03_text() {
        let l = [5, 8, 12, 16, 20, 24, 32][choice(7)];
        let k = [0, 2, 5, 6, 11, 14, 20, 21, 22, 23, 25, 27][choice(12)];
        want(value_ctx(k, Val::Lit(tk::st(&text(l, LONG, LONG)))));
    }
    fn c03_odd_text() { let k = choice(28); want(value_ctx(k, Val::Lit(tk::lit(odd(choice(ODDS)))))); }
    // two texts next to each other, any
    fn c03_texts() {
        let (a, b) = (tk::st(&text(choice(3), TEXT, TEXT)), tk::st(&text(choice(3), TEXT, TEXT)));
        want(match choice(3) {
            0 => vec![Node::V(Val::Lit(a)), Node::V(Val::Lit(b))],
            1 => place(El::new(tag(choice(6))).attr(At::Kv(Name::new("k"), Some(Val::Lit(a)))).kids(vec![Node::V(Val::Lit(b))]), 0),
            _ => place(El::new(tag(choice(6))).kids(vec![Node::V(Val::Lit(a)), Node::V(Val::Lit(b))]), 0),
        });
    }
    // more code, in every form and every place
    fn c03_code() { let k = choice(28); want(value_ctx(k, code_value(more_code()))); }
    // one after the other inside one value
    fn c03_code2() {
        let k = [0, 5, 11, 22][choice(4)];
        let (a, b) = (more_code(), more_code());
        want(value_ctx(k, code_value(if flag() { quote!(#a #b) } else { quote!(#a, #b) })));
    }
    // code of two or three tokens, any
    fn c03_tokens() {
        let k = [0, 5, 11, 21, 22, 20][choice(6)];
        let f = choice(3);
        let t = crate::soup::toks(&crate::soup::soup_to(b"asn.:;|{~=-", 2, 0));
        want(value_ctx(k, [Val::Block, Val::Clo, Val::Fmt][f](t)));
    }

    // ---------- C06 ----------
    // any name with any value
    fn c06_key_value() {
        let k = Name::id(&ident([1, 2, 3, 4, 5, 7, 8, 11][choice(8)]));
        want(vec![El::new(tag(choice(4))).attr(At::Kv(k, Some(lit_value()))).node()]);
    }
    // on any HTML element
    fn c06_tag_key_value() { tag_key_value(5, 4); }
    fn t06_tag_key_value() { tag_key_value([1, 2, 3, 6, 8][choice(5)], [2, 4, 7][choice(3)]); }
    // any two, in any order
    fn c06_two_values() {
        let names = ["k", "data-x", "aria-x", "class", "style", "ref", "id", "type", "viewBox", "for"];
        let e = El::new(tag([0, 2, 3][choice(3)]));
        let (a, b) = (choice(10), choice(10));
        assume(a != b);
        let v = || match choice(5) { 0 => None, 1 => Some(Val::Lit(tk::int("0"))), 2 => Some(Val::Lit(tk::id("false"))), 3 => Some(Val::Lit(tk::st(""))), _ => Some(block(0)) };
        want(vec![e.attr(At::Kv(Name::new(names[a]), v())).attr(At::Kv(Name::new(names[b]), v())).node()]);
    }
    fn c07_key_value() {
        let k = Name::id(&ident([1, 2, 3, 4, 5, 7, 8, 11][choice(8)]));
        want(place(El::new(tag(4 + choice(2))).attr(At::Kv(k, Some(lit_value()))), 0));
    }
    fn c07_two_values() {
        let names = ["k", "k-x", "class", "style", "ref", "id", "children", "key", "on", "attr"];
        let e = El::new(tag(4 + choice(2)));
        let (a, b) = (choice(10), choice(10));
        assume(a != b);
        let v = || match choice(5) { 0 => None, 1 => Some(Val::Lit(tk::int("0"))), 2 => Some(Val::Lit(tk::id("false"))), 3 => Some(Val::Lit(tk::st(""))), _ => Some(block(0)) };
        want(place(e.attr(At::Kv(Name::new(names[a]), v())).attr(At::Kv(Name::new(names[b]), v())), 0));
    }
    fn c07_values() {
        let k = ["k", "k-x", "class", "style", "ref", "id", "children"][choice(7)];
        want(place(El::new(tag(4 + choice(2))).attr(At::Kv(Name::new(k), Some(any_value(false)))), 0));
    }
    fn c02_values() {
        let e = El::new(tag(choice(6)));
        want(place(match choice(3) {
            0 => e.attr(At::Kv(Name::new("k"), Some(any_value(false)))),
            1 => e.kids(vec![Node::V(any_value(true))]),
            _ => e.attr(At::Kv(Name::new("k"), Some(value(0)))).kids(vec![txt(1), Node::V(any_value(true)), txt(2)]),
        }, 0));
    }
    fn c13_values() {
        want(vec![El::new(tag(4)).kids(vec![slot("Tab", "tab").attr(At::Kv(Name::new("k"), Some(lit_value()))).kids(vec![Node::V(any_value(true))]).node()]).node()]);
    }
    // one attribute, any name of 1..=16 characters, on every kind of element
    fn c06_key() {
        let t = tag(choice(4));
        let n = choice(16) + 1;
        let k = Name::id(&ident(n));
        want(vec![El::new(t).attr(match choice(3) { 0 => At::Kv(k, Some(block(0))), 1 => At::Kv(k, None), _ => At::Short(k) }).node()]);
    }
    // hyphenated names, and names around `aria-`
    fn c06_hyphen() {
        use Part::*;
        let t = tag(choice(4));
        let n = choice(6) + 1;
        let k = Name(match choice(5) {
            0 => vec![Id(ident(n)), Dash, Id(ident(2))],
            1 => vec![Id(ident(n)), Dash],
            2 => vec![Dash, Id(ident(n))],
            3 => vec![Id(ident(2)), Dash, Id(ident(n)), Dash, Num(text(1, DIGIT, DIGIT))],
            _ => vec![Id("aria".into()), Dash, Id(ident(n)), Dash, Id(ident(1))],
        });
        want(vec![El::new(t).attr(At::Kv(Name::id("q"), Some(block(9)))).attr(match choice(3) { 0 => At::Kv(k, Some(block(0))), 1 => At::Kv(k, None), _ => { assume(!crate::flat::one_of(k.snake_str().as_bytes(), &UNRAW)); At::Short(k) } }).node()]);
    }
    // names the code treats specially, on every kind of tag including real ones
    fn c06_special() {
        let t = match choice(10) {
            k @ 0..=3 => tag(k),
            4 => Tag::html("input"),
            5 => Tag::html("a"),
            6 => Tag::Svg(Name::id("svg")),
            7 => Tag::Math(Name::id("math")),
            8 => Tag::html("for-x").clone(),
            _ => Tag::html("label"),
        };
        let t = if let Tag::Html(n) = &t { if n.hyphen() { Tag::Custom(n.clone()) } else { t } } else { t };
        let k = ["ref", "class", "style", "id", "for", "type", "async", "aria-label", "data-x", "on", "use", "prop", "attr", "slot", "clone",
            "key", "checked", "inner_html", "value", "role", "node_ref", "true"][choice(22)];
        let v = match choice(4) { 0 => None, 1 => Some(block(0)), 2 => Some(Val::Clo(mark(0))), _ => Some(lit(0)) };
        want(vec![El::new(t).attr(At::Kv(Name::new(k), v)).node()]);
    }
    // up to 4 attributes in any order
    fn c06_order() {
        let mut e = El::new(tag(choice(4)));
        let n = choice(3) + 2;
        for i in 0..n {
            let v = Some(block(i));
            e = e.attr(match choice(6) {
                0 => At::Kv(Name::id(&format!("a{i}")), v),
                1 => At::Kv(Name::id(&format!("b{i}")), None),
                2 => At::Short(Name::id(&format!("c{i}"))),
                3 => At::Kv(Name::new(&format!("d-{i}")), v),
                4 => At::Kv(Name::id("class"), v),
                _ => At::Kv(Name::id("ref"), v),
            });
        }
        want(vec![e.node()]);
    }
    // the same name twice, and repeated names
    fn c06_repeat() {
        let mut e = El::new(tag(choice(4)));
        let (a, b) = (ident(2), ident(2));
        for i in 0..4 {
            e = e.attr(At::Kv(Name::id(if flag() { &a } else { &b }), Some(block(i))));
        }
        want(vec![e.node()]);
    }
    // attributes do not leak: parent, siblings and children each have their own
    fn c06_leak() { leak(false); }
    fn t06_leak() { leak(true); }
    // many attributes
    fn c06_many() {
        let n = choice(20) + 4;
        let h = choice(3);
        let mut e = El::new(tag(choice(4)));
        for i in 0..n {
            let k = if i % 3 == h { Name::new(&format!("d-{i}")) } else { Name::id(&format!("a{i}")) };
            e = e.attr(At::Kv(k, Some(block(i))));
        }
        want(vec![e.node()]);
    }

    // ---------- C07 ----------
    fn c07_key() {
        let slot = flag();
        let n = choice(16) + 1;
        let k = Name::id(&ident(n));
        let a = match choice(3) { 0 => At::Kv(k, Some(block(0))), 1 => At::Kv(k, None), _ => At::Short(k) };
        want(vec![if slot { El::new(Tag::comp("Com")).kids(vec![El::new(tag(5)).attr(a).node()]) } else { El::new(tag(4)).attr(a) }.node()]);
    }
    fn c07_kebab() {
        let slot = flag();
        let k = kebab();
        assume(!crate::flat::one_of(k.snake_str().as_bytes(), &UNRAW));
        let a = match choice(3) { 0 => At::Kv(k, Some(value(0))), 1 => At::Kv(k, None), _ => At::Short(k) };
        let q = At::Kv(Name::id("q"), Some(block(9)));
        want(vec![if slot { El::new(Tag::comp("Com")).kids(vec![El::new(tag(5)).attr(q).attr(a).node()]) } else { El::new(tag(4)).attr(q).attr(a) }.node()]);
    }
    // up to 4 props, in order, before the props are built; with and without children and slots
    fn c07_order() {
        let slot = flag();
        let mut e = El::new(if slot { tag(5) } else { tag(4) });
        let n = choice(4) + 1;
        let same = flag();
        for i in 0..n {
            let v = Some(block(i));
            let nm = |c: &str| if same { c.to_string() } else { format!("{c}{i}") };
            e = e.attr(match choice(4) {
                0 => At::Kv(Name::id(&nm("a")), v),
                1 => At::Kv(Name::id(&nm("b")), None),
                2 => At::Short(Name::id(&nm("c"))),
                _ => At::Kv(Name::new(&format!("{}-x", nm("d"))), v),
            });
        }
        match choice(4) {
            0 => {}
            1 => e = e.kids(vec![txt(8)]),
            2 => e = e.kids(vec![El::new(Tag::Slot("Sl".into(), "sl".into())).node()]),
            _ => e = e.args(quote!(|y|)).kids(vec![txt(8)]),
        }
        want(vec![if slot { El::new(Tag::comp("Com")).kids(vec![e.node()]) } else { e }.node()]);
    }
    // props next to directives, selectors and spreads: none is taken for the other
    fn c07_among() {
        let mut e = El::new(tag(4));
        if flag() { e = e.sels(vec![Sel::Class(Name::new("s")), Sel::Id(Name::new("i"))]); }
        for i in 0..3 {
            e = e.attr(match choice(5) {
                0 => At::Kv(Name::id(["class", "style", "id", "attr"][i]), Some(block(i))),
                1 => At::Dir("class", Key::N(Name::id("k")), None, Some(block(i))),
                2 => At::Dir("attr", Key::N(Name::id("k")), None, Some(block(i))),
                3 => At::Spread(mark(i)),
                _ => At::Dir("clone", Key::N(Name::id(&format!("v{i}"))), None, None),
            });
        }
        want(vec![e.kids(vec![txt(7)]).node()]);
    }
    fn c07_special() {
        let k = ["ref", "class", "style", "id", "for", "type", "children", "build", "key", "node_ref", "aria-label", "data-x", "on", "slot",
            "fallback", "let"][choice(16)];
        let slot = flag();
        let v = match choice(4) { 0 => None, 1 => Some(block(0)), 2 => Some(Val::Clo(mark(0))), _ => Some(lit(0)) };
        let a = At::Kv(Name::new(k), v);
        want(vec![if slot { El::new(Tag::comp("Com")).kids(vec![El::new(tag(5)).attr(a).node()]) } else { El::new(tag(4)).attr(a) }.node()]);
    }
    fn c07_many() {
        let n = choice(20) + 4;
        let mut e = El::new(tag(if flag() { 4 } else { 5 }));
        for i in 0..n {
            e = e.attr(At::Kv(Name::id(&format!("a{i}")), Some(block(i))));
        }
        want(vec![if e.is_slot() { El::new(Tag::comp("Com")).kids(vec![e.node()]) } else { e }.node()]);
    }
    // each component and slot of a tree gets its own props
    fn c07_leak() {
        let mk = |i: usize, k: usize| {
            let mut e = El::new(tag(k));
            if flag() { e = e.attr(At::Kv(Name::id(&format!("a{i}")), Some(block(i)))); }
            if flag() { e = e.attr(At::Short(Name::id(&format!("b{i}")))); }
            e
        };
        let s = mk(1, 5).kids(vec![mk(2, 4).node()]);
        let p = mk(0, 4).kids(vec![s.node(), mk(3, 5).node(), mk(4, 4).node()]);
        want(vec![p.node(), mk(5, 4).node()]);
    }
}

fn leak(four: bool) {
    let mk = |i: usize| {
        let mut e = El::new(tag(choice(4)));
        if flag() { e = e.attr(At::Kv(Name::id(&format!("a{i}")), Some(block(i)))); }
        if flag() { e = e.attr(At::Kv(Name::new(&format!("d-{i}")), Some(block(i + 10)))); }
        e
    };
    let mut kids = vec![mk(1).node(), txt(9)];
    if four { kids.push(mk(2).node()); }
    let p = mk(0).kids(kids);
    want(vec![p.node(), mk(3).node()]);
}
