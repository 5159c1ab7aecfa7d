//! C04 tags, C05 names, C23 component paths.
use crate::{flat::*, gen::*, judge::*, run::*, spec::*, sym::*, tk};
use proc_macro2::TokenStream;
use quote::quote;

/// Elements of tachys 0.1.9 `svg::element` (those that are not also HTML elements).
pub const SVG: &[&str] = &[
    "animate", "animateMotion", "animateTransform", "circle", "clipPath", "defs", "desc", "discard", "ellipse", "feBlend",
    "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap",
    "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge",
    "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "filter",
    "foreignObject", "g", "hatch", "hatchpath", "image", "line", "linearGradient", "marker", "mask", "metadata", "mpath", "path",
    "pattern", "polygon", "polyline", "radialGradient", "rect", "set", "stop", "svg", "switch", "symbol", "text", "textPath", "tspan",
    "use", "view",
];
/// Elements of tachys 0.1.9 `mathml`.
pub const MATH: &[&str] = &[
    "math", "mi", "mn", "mo", "ms", "mspace", "mtext", "menclose", "merror", "mfenced", "mfrac", "mpadded", "mphantom", "mroot", "mrow",
    "msqrt", "mstyle", "mmultiscripts", "mover", "mprescripts", "msub", "msubsup", "msup", "munder", "munderover", "mtable", "mtd",
    "mtr", "maction", "annotation", "semantics",
];

/// judges `NAME ;` for a name without hyphens
fn tag_case(name: String) {
    let b = name.as_bytes();
    // a boolean is a literal, and the five names without a raw form cannot name an element
    assume(!one_of(b, &["true", "false", "_", "self", "Self", "super", "crate", "use_"]));
    let input = TokenStream::from_iter([tk::id(&name), tk::p(';')]);
    tell("input", &input);
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        check(r.out.is_some() && r.errors() == 0, 1);
        let got = flat(r.out.as_ref().unwrap());
        let b = name.as_bytes();
        let i = crate::tk::name(&name);
        // which constructor was used
        let mut ok = false;
        let mut hit = false;
        let comp = quote!({ ::leptos::prelude::IntoRender::into_render(::leptos::prelude::View::new(
            ::leptos::component::component_view(&#i, ::leptos::component::component_props_builder(&#i).build()).add_any_attr(()))) });
        let upper = b[0] <= b'Z' && b[0] >= b'A';
        let (svg, math) = (one_of(b, SVG), one_of(b, MATH));
        for (m, w) in [("html", !svg & !math & !upper), ("svg", svg & !upper), ("math", math & !svg & !upper)] {
            let m = tk::id(m);
            let want = flat(&quote!({ ::leptos::prelude::IntoRender::into_render(::leptos::tachys::#m::element::#i()) }));
            if want.len() == got.len() && same(&want[10].s, &got[10].s) && !hit {
                let k = want.iter().position(|f| f.k == Kd::Ident && f.s == b"tachys").unwrap() + 3;
                if got[k].k == Kd::Ident && got[k].s == want[k].s {
                    hit = true;
                    cover(10);
                    ok = eq(&want, &got) & w;
                }
            }
        }
        if !hit {
            cover(11);
            let want = flat(&comp);
            ok = eq(&want, &got) & upper;
        }
        check(ok, 3);
    });
}

/// a component path as written and as it must be named in the output
fn path() -> (TokenStream, TokenStream) {
    let g = || -> (TokenStream, TokenStream) {
        let a = tk::id(&plain(1));
        match choice(7) {
            0 => (quote!(), quote!()),
            1 => (quote!(<#a>), quote!(::<#a>)),
            2 => (quote!(::<#a>), quote!(::<#a>)),
            3 => (quote!(<'static, Vec<#a>>), quote!(::<'static, Vec<#a>>)),
            4 => (quote!(::<[#a; 3], (#a, u8)>), quote!(::<[#a; 3], (#a, u8)>)),
            5 => (quote!(<fn(#a) -> u8>), quote!(::<fn(#a) -> u8>)),
            _ => (quote!(<{ 1 + 2 }, 7, >), quote!(::<{ 1 + 2 }, 7, >)),
        }
    };
    let seg = tk::id(&text(2, UPPER, WORD));
    let low = tk::id(&plain(2));
    let (gw, ge) = g();
    match choice(9) {
        0 => (quote!(#seg #gw), quote!(#seg #ge)),
        1 => (quote!(#low::#seg #gw), quote!(#low::#seg #ge)),
        2 => (quote!(::#low::#seg #gw), quote!(::#low::#seg #ge)),
        3 => (quote!(crate::#low::#seg #gw), quote!(crate::#low::#seg #ge)),
        4 => (quote!(self::#seg #gw), quote!(self::#seg #ge)),
        5 => (quote!(super::super::#seg #gw), quote!(super::super::#seg #ge)),
        6 => {
            let (hw, he) = g();
            (quote!(#low::#seg #hw ::#low #gw), quote!(#low::#seg #he ::#low #ge))
        }
        7 => (quote!(#low::#low #gw), quote!(#low::#low #ge)),
        _ => (quote!(#low::#low::#low::#seg::#low), quote!(#low::#low::#low::#seg::#low)),
    }
}

/// an independent reading of a sequence of name pieces: pieces join at hyphens
#[derive(Clone)]
enum Pc { Id(String), Dash(bool), Num(String) }

fn pieces(n: usize) -> Vec<Pc> {
    (0..n)
        .map(|_| match choice(4) {
            0 => Pc::Id(plain(1)),
            1 => Pc::Dash(false),
            2 => Pc::Dash(true),
            _ => Pc::Num(text(1, DIGIT, DIGIT)),
        })
        .collect()
}
fn pc_tokens(v: &[Pc]) -> TokenStream {
    tk::cat(v.iter().map(|p| match p {
        Pc::Id(s) => tk::id(s),
        Pc::Dash(j) => if *j { tk::pj('-') } else { tk::p('-') },
        Pc::Num(s) => tk::int(s),
    }))
}
/// splits pieces into names: a name starts with a word or hyphen; after a word or number
/// only a hyphen continues it; after a hyphen anything does. `None`: not a list of names.
fn split_names(v: &[Pc]) -> Option<Vec<Name>> {
    let mut out: Vec<Name> = vec![];
    let mut prev = 0; // 0 nothing, 1 word or number, 2 hyphen
    for p in v {
        match p {
            Pc::Dash(_) => {
                if prev == 0 {
                    out.push(Name(vec![]));
                }
                out.last_mut()?.0.push(Part::Dash);
                prev = 2;
            }
            Pc::Id(s) => {
                if prev != 2 {
                    out.push(Name(vec![]));
                }
                out.last_mut()?.0.push(Part::Id(s.clone()));
                prev = 1;
            }
            Pc::Num(s) => {
                if prev != 2 {
                    return None;
                }
                out.last_mut()?.0.push(Part::Num(s.clone()));
                prev = 1;
            }
        }
    }
    Some(out)
}
fn names_case(n: usize, comp: bool) {
    let v = pieces(n);
    let toks = pc_tokens(&v);
    let t = if comp { Tag::comp("Com") } else { Tag::html("div") };
    let Some(names) = split_names(&v) else { return };
    if comp {
        for n in &names {
            if one_of(n.snake_str().as_bytes(), &UNRAW) {
                return;
            }
        }
    }
    let h = if comp { tk::id("Com") } else { tk::id("div") };
    let mut e = El::new(t).attr(At::Kv(Name::id("q"), Some(block(9))));
    let mut input = quote!(#h q={zz9});
    // the run of names is followed by `=value`, then by another attribute
    input.extend(toks);
    let has = !names.is_empty();
    let k = names.len();
    for (i, n) in names.into_iter().enumerate() {
        e = e.attr(At::Kv(n, if i + 1 == k { Some(block(0)) } else { None }));
    }
    if has {
        input.extend(quote!(= {zz0}));
    }
    input.extend(quote!(other {zz1} ;));
    e = e.attr(At::Kv(Name::id("other"), None)).attr(At::Short(Name::id("zz1")));
    want_tokens(input, expect(&[e.node()]));
}

/// a name in every position where the grammar has one
fn name_context(k: usize, n: Name) -> (TokenStream, TokenStream) {
    let v = [named(k, n).node()];
    (print(&v), expect(&v))
}
pub fn named(k: usize, n: Name) -> El {
    let v = || Some(block(0));
    let key = || Key::N(n.clone());
    // a leading hyphen directly after the tag would continue the tag: an attribute comes first
    let q = || At::Kv(Name::id("q"), Some(block(9)));
    let div0 = || El::new(Tag::html("div"));
    let com0 = || El::new(Tag::comp("Com"));
    let div = || div0().attr(q());
    let com = || com0().attr(q());
    match k {
        0 => div().attr(At::Kv(n, v())),
        1 => div().attr(At::Kv(n, None)),
        2 => div().attr(At::Short(n)),
        3 => div0().sels(vec![Sel::Class(n)]),
        4 => div0().sels(vec![Sel::Id(n)]),
        5 => div().attr(At::Dir("class", key(), None, v())),
        6 => div().attr(At::Dir("style", key(), None, v())),
        7 => div().attr(At::Dir("prop", key(), None, v())),
        8 => div().attr(At::Dir("on", key(), None, v())),
        9 => div().attr(At::Dir("use", key(), None, v())),
        10 => div().attr(At::DirShort("style", n, None)),
        11 => com().attr(At::Kv(n, v())),
        12 => com().attr(At::Short(n)),
        13 => com0().sels(vec![Sel::Class(n)]),
        14 => com0().sels(vec![Sel::Id(n)]),
        15 => com().attr(At::Dir("class", key(), None, v())),
        16 => com().attr(At::Dir("style", key(), None, v())),
        17 => com().attr(At::Dir("prop", key(), None, v())),
        18 => com().attr(At::Dir("attr", key(), None, v())),
        19 => com().attr(At::Dir("on", key(), None, v())),
        20 => com().attr(At::DirShort("prop", n, None)),
        21 => com().attr(At::Dir("clone", key(), None, None)).kids(vec![txt(1)]),
        22 => com().kids(vec![El::new(Tag::Slot("Tab".into(), "tab".into())).attr(q()).attr(At::Kv(n, v())).node()]),
        23 => com().kids(vec![El::new(Tag::Slot("Tab".into(), "tab".into())).attr(At::Short(n)).node()]),
        24 => El::new(Tag::Svg(Name::id("g"))).attr(q()).attr(At::Kv(n, v())),
        _ => El::new(Tag::Custom(Name::new("a-b"))).attr(q()).attr(At::Kv(n, v())),
    }
}
pub const NAME_CTX: u32 = 26;

/// a name of `n` pieces, of any shape: after a piece that is no hyphen comes a hyphen
fn shape(n: usize) -> Name {
    let mut v: Vec<Part> = vec![];
    for i in 0..n {
        let open = v.last().map_or(true, |p| matches!(p, Part::Dash));
        v.push(match if open { choice(if i > 0 { 3 } else { 2 }) } else { 1 } {
            0 => Part::Id(["p", "Q", "fn", "r1", "_s", "t_", "u", "v"][i].into()),
            1 => Part::Dash,
            _ => Part::Num(["0", "1", "20", "03", "4", "5", "6", "7"][i].into()),
        });
    }
    Name(v)
}

fn ok_snake(n: &Name) -> bool { !one_of(n.snake_str().as_bytes(), &UNRAW) }

entries! {
    // every name of 1..=17 letters, digits and underscores that starts with a letter or underscore
    fn c04_word() {
        let n = choice(17) + 1;
        tag_case(text(n, ALPHA_, WORD));
    }
    // names with hyphens: custom elements (or components when they start with a capital)
    fn c04_hyphen() {
        use Part::*;
        let first = if flag() { LOW_ } else { UPPER };
        let n = choice(4) + 1;
        let a = text(n, first, WORD);
        // `true` and `false` are literals
        assume(!one_of(a.as_bytes(), &["true", "false"]));
        let b = text(choice(3) + 1, ALPHA_, WORD);
        let upper = a.as_bytes()[0] <= b'Z' && a.as_bytes()[0] >= b'A';
        let name = Name(match choice(5) {
            0 => vec![Id(a), Dash, Id(b)],
            1 => vec![Id(a), Dash],
            2 => vec![Id(a), Dash, Dash, Id(b)],
            3 => vec![Id(a), Dash, Id(b.clone()), Dash, Id(b)],
            _ => vec![Id(a), Dash, Num(text(2, DIGIT, DIGIT))],
        });
        let s = name.snake();
        let t = if upper { Tag::Comp(name.print(), quote!(#s)) } else { Tag::Custom(name) };
        want(vec![El::new(t).node()]);
    }
    // a known SVG or MathML name with a hyphenated tail is a custom element
    fn c04_known_hyphen() {
        let k = choice((SVG.len() + MATH.len()) as u32);
        let s = if k < SVG.len() { SVG[k] } else { MATH[k - SVG.len()] };
        let t = text(2, LOWER, LOWER);
        let n = Name(vec![Part::Id(s.into()), Part::Dash, Part::Id(t)]);
        want(vec![El::new(Tag::Custom(n)).node()]);
    }
    // every shape of a hyphenated tag name
    fn c04_shapes() {
        let nm = shape(choice(6) + 2);
        assume(matches!(nm.0[0], Part::Id(_)) && nm.hyphen());
        let e = El::new(Tag::Custom(nm));
        want(vec![match choice(3) { 0 => e, 1 => e.sels(vec![Sel::Class(Name::new("c"))]).kids(vec![txt(0)]), _ => e.sels(vec![Sel::Id(Name::new("c"))]).attr(At::Kv(Name::id("k"), Some(block(0)))) }.node()]);
    }
    // a path or generics make a component of any name
    fn c04_path() {
        let (w, e) = match choice(9) {
            0 => (quote!(Com<>), quote!(Com::<>)),
            1 => (quote!(Com::<>), quote!(Com::<>)),
            2 => (quote!(div<>), quote!(div::<>)),
            3 => (quote!(div<T>), quote!(div::<T>)),
            4 => (quote!(a::div), quote!(a::div)),
            5 => (quote!(svg::<T>), quote!(svg::<T>)),
            6 => (quote!(::a::math<>), quote!(::a::math::<>)),
            7 => (quote!(slot<T>), quote!(slot::<T>)),
            _ => path(),
        };
        want(one_more(El::new(Tag::Comp(w, e))));
    }
    // raw identifiers name the same element
    fn c04_raw() {
        let n = choice(6) + 1;
        let s = text(n, LOWER, LOWNUM);
        assume(!one_of(s.as_bytes(), &UNRAW) & !one_of(s.as_bytes(), SVG) & !one_of(s.as_bytes(), MATH) & !one_of(s.as_bytes(), &["use_"]));
        want(vec![El::new(Tag::Html(Name(vec![Part::Raw(s)]))).node()]);
    }
    // the kind of tag does not depend on what the element carries
    fn c04_loaded() {
        let k = choice(8);
        let w = |s: &str, t: fn(Name) -> Tag| t(Name::new(s));
        let t = match k {
            0 => w("span", Tag::Html), 1 => w("text", Tag::Svg), 2 => w("mi", Tag::Math), 3 => w("x-y", Tag::Custom),
            4 => Tag::comp("Text"), 5 => w("a", Tag::Html), 6 => w("title", Tag::Html), _ => w("style", Tag::Html),
        };
        let mut e = El::new(t);
        if flag() { e = e.sels(vec![Sel::Class(Name::new("c"))]); }
        if flag() { e = e.attr(At::Kv(Name::id("k"), Some(block(0)))); }
        if flag() { e = e.attr(At::Dir("on", Key::N(Name::id("click")), None, Some(block(1)))); }
        match choice(3) { 0 => {} 1 => e = e.kids(vec![]), _ => e = e.kids(vec![txt(2)]) }
        want(vec![e.node()]);
    }

    // ---------- C05 ----------
    // every position of a name x every shape of name
    fn c05_context() {
        let k = choice(NAME_CTX);
        let n = kebab();
        assume(ok_snake(&n));
        let (i, o) = name_context(k, n);
        want_tokens(i, o);
    }
    // every shape of a name in every position
    fn c05_shapes() {
        let nm = shape(choice(5) + 1);
        assume(ok_snake(&nm));
        let (i, o) = name_context(choice(NAME_CTX), nm);
        want_tokens(i, o);
    }
    fn t05_shapes8() {
        let nm = shape(choice(3) + 6);
        assume(ok_snake(&nm));
        let (i, o) = name_context(choice(NAME_CTX), nm);
        want_tokens(i, o);
    }
    // longer names
    fn c05_long() { long(4); }
    fn t05_longer() { long(8); }
    // number pieces of every integer spelling
    fn c05_numbers() {
        let k = [0, 3, 6, 11, 16, 18, 25][choice(7)];
        let d = text(1, DIGIT, DIGIT);
        let s = match choice(9) {
            0 => d,
            7 => {
                // a suffix, unless it makes a prefix or an exponent
                let x = text(choice(2) + 1, ALPHA_, WORD);
                assume(!one_of(&x.as_bytes()[..1], &["b", "o", "x", "e", "E", "_"]));
                format!("{d}{x}")
            }
            8 => format!("{d}\u{e9}X"),
            1 => format!("{d}00"),
            2 => format!("{d}_0"),
            3 => format!("0x{d}f"),
            4 => format!("{d}a"),
            5 => format!("{d}u8"),
            _ => "0b11".to_string(),
        };
        let w = ident(1);
        let n = Name(if flag() { vec![Part::Id(w), Part::Dash, Part::Num(s)] } else { vec![Part::Id(w), Part::Dash, Part::Num(s), Part::Dash, Part::Id("z".into())] });
        let (i, o) = name_context(k, n);
        want_tokens(i, o);
    }
    // where a name ends: every sequence of up to 5 pieces
    fn c05_split() {
        let n = choice(6);
        names_case(n, false);
    }
    fn c05_split_component() {
        let n = choice(5);
        names_case(n, true);
    }
    // neighbouring selectors
    fn c05_selectors() {
        let n = choice(4) + 1;
        let mut e = El::new(if flag() { Tag::comp("Com") } else { Tag::html("div") });
        for _ in 0..n {
            let nm = match choice(4) {
                0 => Name(vec![Part::Id(ident(1))]),
                1 => Name(vec![Part::Id(ident(1)), Part::Dash]),
                2 => Name(vec![Part::Dash, Part::Id(ident(1))]),
                _ => Name(vec![Part::Id(ident(1)), Part::Dash, Part::Num(text(1, DIGIT, DIGIT))]),
            };
            e.sels.push(if flag() { Sel::Class(nm) } else { Sel::Id(nm) });
        }
        want(vec![e.node()]);
    }

    // ---------- C23 ----------
    fn c23_path() {
        let (w, e) = path();
        want(vec![El::new(Tag::Comp(w, e)).node()]);
    }
    fn c23_loaded() {
        let (w, e) = path();
        let mut el = El::new(Tag::Comp(w, e));
        match choice(4) {
            0 => el = el.attr(At::Kv(Name::id("a"), Some(block(0)))).kids(vec![txt(1)]),
            1 => el = el.sels(vec![Sel::Class(Name::new("a"))]).attr(At::Short(Name::id("b"))),
            2 => el = el.attr(At::Dir("on", Key::N(Name::id("click")), None, Some(block(0)))).args(quote!(|x|)).kids(vec![txt(1)]),
            _ => el = el.attr(At::Spread(quote!(zz1))).kids(vec![El::new(Tag::Slot("Tab".into(), "tab".into())).node()]),
        }
        want(vec![el.node()]);
    }
    // longer names, more segments, generics on each
    fn c23_long() {
        let l = choice(16) + 1;
        let a = text(l, UPPER, WORD);
        assume(!one_of(a.as_bytes(), &["Self"]));
        let a = tk::id(&a);
        let b = tk::id(&plain(l));
        let (w, e) = match choice(6) {
            0 => (quote!(#a), quote!(#a)),
            1 => (quote!(#a<T>), quote!(#a::<T>)),
            2 => (quote!(a::#a<T>), quote!(a::#a::<T>)),
            3 => (quote!(#b::Com), quote!(#b::Com)),
            4 => (quote!(a::#b<T>::Com), quote!(a::#b::<T>::Com)),
            _ => (quote!(::#b::#a::<T>), quote!(::#b::#a::<T>)),
        };
        want(place(El::new(Tag::Comp(w, e)).attr(At::Kv(Name::id("k"), Some(block(0)))), [0, 5][choice(2)]));
    }
    fn c23_many() {
        let m = choice(8) + 1;
        let g = choice(m as u32 + 2);
        let (mut w, mut e) = (quote!(), quote!());
        if flag() { w = quote!(::); e = quote!(::); }
        for i in 0..m {
            let s = tk::id(&format!("{}{i}", if i + 1 == m { "Com" } else { "a" }));
            let more = g == i || g > m;
            let sep = if i > 0 { quote!(::) } else { quote!() };
            let t = tk::id(&format!("T{i}"));
            if more { w.extend(quote!(#sep #s<#t>)); e.extend(quote!(#sep #s::<#t>)); } else { w.extend(quote!(#sep #s)); e.extend(quote!(#sep #s)); }
        }
        want(vec![El::new(Tag::Comp(w, e)).kids(vec![txt(0)]).node()]);
    }
    // any argument a type can have
    fn c23_args() {
        let one = |k| match k {
            0 => quote!(Vec<Option<T>>),
            1 => quote!('a),
            2 => quote!(-1),
            3 => quote!("a"),
            4 => quote!(true),
            5 => quote!({ 1 }),
            6 => quote!(Item = T),
            7 => quote!(dyn Fn(A, B) -> C + 'a),
            8 => quote!(&'a mut str),
            9 => quote!(*const T),
            10 => quote!(_),
            11 => quote!(!),
            12 => quote!(<T as a::Tr>::X),
            13 => quote!([T; 4]),
            14 => quote!((A, B<C>)),
            15 => quote!(impl Tr),
            16 => quote!(fn(A) -> B),
            17 => quote!(a::b::<C>::D),
            18 => quote!(for<'a> fn(&'a T)),
            19 => quote!(m!(x)),
            20 => quote!(Vec<Vec<Vec<T>>>),
            21 => quote!('static),
            22 => quote!(()),
            _ => quote!(7),
        };
        let (k, l) = (choice(24), choice(24));
        // lifetimes come first
        assume(![1, 21].contains(&l) || [1, 21].contains(&k));
        let (a, b) = (one(k), one(l));
        let g = match choice(3) { 0 => if k == l { quote!() } else { quote!(#a) }, 1 => quote!(#a, #b), _ => quote!(#a, #b,) };
        let (w, e) = match choice(3) {
            0 => (quote!(Com<#g>), quote!(Com::<#g>)),
            1 => (quote!(Com::<#g>), quote!(Com::<#g>)),
            _ => (quote!(a::b<#g>::Com), quote!(a::b::<#g>::Com)),
        };
        let e = El::new(Tag::Comp(w, e));
        want(vec![match choice(3) { 0 => e, 1 => e.attr(At::Kv(Name::id("k"), Some(block(0)))), _ => e.sels(vec![Sel::Class(Name::new("c"))]).kids(vec![txt(0)]) }.node()]);
    }
    // inside other elements, and nested in each other
    fn c23_nested() {
        let (w, e) = path();
        let c = El::new(Tag::Comp(w, e)).node();
        let outer = match choice(4) {
            0 => El::new(Tag::html("div")).kids(vec![c]).node(),
            1 => El::new(Tag::comp("Com")).kids(vec![txt(0), c]).node(),
            2 => El::new(Tag::Comp(quote!(a::B<u8>), quote!(a::B::<u8>))).args(quote!(|x|)).kids(vec![c]).node(),
            _ => El::new(Tag::comp("Com")).kids(vec![El::new(Tag::Slot("Tab".into(), "tab".into())).kids(vec![c]).node()]).node(),
        };
        want(vec![outer]);
    }
}

fn long(more: u32) {
    use Part::*;
    let k = [0, 3, 11, 15, 18, 22][choice(6)];
    let len = choice(more) + 2;
    let n = match choice(3) {
        0 => Name(vec![Id(ident(len))]),
        1 => Name(vec![Id(ident(len)), Dash, Id(ident(len))]),
        _ => {
            // 3..=9 pieces
            let mut v = vec![Id(ident(1))];
            for _ in 0..len {
                v.push(Dash);
                v.push(if flag() { Id(ident(1)) } else { Num(text(1, DIGIT, DIGIT)) });
            }
            Name(v)
        }
    };
    assume(ok_snake(&n));
    let (i, o) = name_context(k, n);
    want_tokens(i, o);
}
