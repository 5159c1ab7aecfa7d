//! Every feature together with every other one, and everywhere in a view.
use super::p06::any_value;
use super::p09::{dir_comp, dir_el};
use crate::{gen::*, judge::*, spec::*, sym::*, tk};
use quote::quote;

fn n(s: &str) -> Name { Name::new(s) }
fn kv(s: &str, i: usize) -> At { At::Kv(n(s), Some(block(i))) }
fn simple_value() -> Val {
    match choice(5) {
        0 => Val::Lit(tk::int("7")),
        k => [block(0), Val::Clo(quote!(zz0 + 1)), Val::Fmt(quote!("{}", zz0)), lit(0)][k - 1].clone(),
    }
}

/// C03: a value of every form in one place of every kind
fn f03() -> El {
    let v = Some(simple_value());
    let com = || El::new(Tag::comp("Com"));
    match choice(10) {
        0 => El::new(Tag::html("div")).attr(At::Kv(n("k"), v)),
        1 => El::new(Tag::Custom(n("a-b"))).attr(At::Kv(n("k"), v)),
        2 => El::new(Tag::html("div")).attr(At::Dir("class", key("k"), None, v)),
        3 => El::new(Tag::html("div")).attr(At::Dir("use", key("k"), None, v)),
        4 => com().attr(At::Kv(n("k"), v)),
        5 => com().attr(At::Dir("attr", key("k"), None, v)),
        6 => com().attr(At::Dir("on", key("k"), None, v)),
        7 => slot("Tab", "tab").attr(At::Kv(n("k"), v)),
        k => {
            let e = if k == 8 { El::new(Tag::html("div")) } else { com() };
            match v.unwrap() {
                Val::Lit(t) if t.to_string() == "7" => e.kids(vec![txt(0), txt(1)]),
                v => e.kids(vec![Node::V(v)]),
            }
        }
    }
}
/// C04: a tag of every kind
fn f04() -> El {
    let w = text(2, LOWER, LOWNUM);
    assume(!crate::flat::one_of(w.as_bytes(), &["mi", "mn", "mo", "ms"]));
    El::new(match choice(8) {
        7 => Tag::html(["slot", "body", "var", "b", "f", "r", "on", "clone"][choice(8)]),
        0 => Tag::Html(Name::id(&w)),
        1 => Tag::Custom(Name(vec![Part::Id(w), Part::Dash, Part::Id("x".into())])),
        2 => Tag::Svg(n(["text", "image", "g", "use", "feOffset"][choice(5)])),
        3 => Tag::Math(n(["mi", "semantics", "math"][choice(3)])),
        4 => Tag::html(["a", "title", "style", "script", "input"][choice(5)]),
        5 => { let u = format!("Z{w}"); Tag::comp(&u) }
        _ => Tag::Custom(Name(vec![Part::Id("svg".into()), Part::Dash, Part::Id(w)])),
    })
}
/// C05: a name in every place
fn f05() -> El {
    use Part::*;
    let w = ident(1);
    let nm = Name(match choice(4) {
        0 => vec![Id(w)],
        1 => vec![Id(w), Dash, Id("y".into())],
        2 => vec![Id(w), Dash, Num("2".into()), Dash, Dash, Id("y".into())],
        _ => vec![Id("y".into()), Dash, Num(text(1, DIGIT, DIGIT))],
    });
    assume(!crate::flat::one_of(nm.snake_str().as_bytes(), &UNRAW));
    super::p04::named(choice(super::p04::NAME_CTX), nm)
}
/// C06: an attribute of every kind on every kind of element
fn f06() -> El {
    let a = match choice(7) {
        0 => kv("key", 0),
        1 => At::Kv(n("key"), None),
        2 => At::Short(n("key")),
        3 => kv("data-x", 0),
        4 => kv("aria-label", 0),
        5 => kv(["class", "style", "ref"][choice(3)], 0),
        _ => At::Kv(Name::id(&ident(2)), Some(block(0))),
    };
    El::new(tag(choice(4))).attr(a)
}
/// C07: a prop of every form
fn f07() -> El {
    let a = match choice(6) {
        0 => kv("key", 0),
        1 => At::Kv(n("key"), None),
        2 => At::Short(n("key")),
        3 => kv("key-x", 0),
        4 => kv(["class", "style", "ref", "children"][choice(4)], 0),
        _ => At::Kv(Name::id(&ident(2)), Some(Val::Clo(mark(0)))),
    };
    El::new(tag(4 + choice(2))).attr(a)
}
fn f08() -> El {
    let m = choice(4);
    let s = (0..m).map(|i| { let x = n(["a", "b-c", "d"][i]); if flag() { Sel::Class(x) } else { Sel::Id(x) } }).collect();
    El::new(tag(choice(5))).sels(s)
}
fn f09() -> El { El::new(tag(choice(4))).attr(dir_el(choice(14), 0)) }
fn f10() -> El { El::new(tag(4)).attr(dir_comp(choice(14), 0)) }
fn f11() -> El {
    let m = choice(3);
    let kids = (0..m).map(|i| match choice(4) {
        0 => txt(i),
        1 => El::new(Tag::html("p")).kids(vec![txt(i)]).node(),
        2 => El::new(Tag::comp("Foo")).attr(kv("k", i)).node(),
        _ => Node::V(Val::Clo(mark(i))),
    }).collect();
    El::new(tag(choice(6))).kids(kids)
}
fn f12() -> El {
    let mut e = El::new(tag(4 + choice(2)));
    for i in 0..choice(3) { e = e.attr(At::Dir("clone", key(&format!("zzk{i}")), None, None)); }
    if flag() { e = e.args(quote!(|zz5, Foo { zz6, .. }|)); }
    e.kids(if flag() { vec![txt(7)] } else { vec![] })
}
fn f13() -> El {
    let mk = |i: usize| {
        let w = choice(2);
        let s = slot(["Tab", "OneTwo"][w], ["tab", "one_two"][w]);
        match choice(3) { 0 => s, 1 => s.attr(kv("k", i)), _ => s.kids(vec![txt(i)]) }.node()
    };
    let m = choice(3);
    let kids = (0..m).map(mk).collect();
    El::new(tag(4 + choice(2))).kids(kids)
}
fn f23() -> El {
    let (w, e) = match choice(7) {
        0 => (quote!(Com<T>), quote!(Com::<T>)),
        6 => (quote!(Com<>), quote!(Com::<>)),
        1 => (quote!(a::Com), quote!(a::Com)),
        2 => (quote!(::a::b::Com<T, 3>), quote!(::a::b::Com::<T, 3>)),
        3 => (quote!(a::Com<T>::D<U>), quote!(a::Com::<T>::D::<U>)),
        4 => (quote!(self::Com::<Vec<T>>), quote!(self::Com::<Vec<T>>)),
        _ => (quote!(crate::Com<'static>), quote!(crate::Com::<'static>)),
    };
    El::new(Tag::Comp(w, e))
}
/// everything at once, one of each
pub fn f_any() -> El {
    match choice(9) {
        0 => f03(), 1 => f06(), 2 => f07(), 3 => f08(), 4 => f09(), 5 => f10(), 6 => f12(), 7 => f13(), _ => f23(),
    }
}

/// `e` bare against `long(e)`, both decorated and placed alike
fn both((k, s, l): (usize, El, El)) {
    // where the class is among the attributes is a difference
    let c = if k == 6 { [0, 3, 4, 5, 6, 12, 25, 28, 31, 35][choice(10)] } else { choice(DECO + PLACE - 1) };
    let f = |e: El| print(&if c < DECO as usize { place(decorate(e, c, 80), 0) } else { place(e, c - DECO as usize + 1) });
    super::p09::same_expansion(f(s), f(l));
}
fn f22() -> (usize, El, El) {
    let t = Val::Lit(quote!(true));
    let k = choice(8);
    let (s, l) = match k {
        0 => { let e = El::new(tag(choice(6))); (e.clone().attr(At::Kv(n("k"), None)), e.attr(At::Kv(n("k"), Some(t)))) }
        1 => { let e = El::new(tag(choice(6))); let a = At::Short(n("k-x")); (e.clone().attr(a.clone()), e.attr(a.long())) }
        2 => { let e = El::new(tag(choice(5))); let a = At::DirShort(["class", "style", "prop", "on", "use"][choice(5)], n("k-x"), None); (e.clone().attr(a.clone()), e.attr(a.long())) }
        3 => { let e = El::new(tag(choice(5))); let a = At::DirShort("on", n("k"), Some("undelegated")); (e.clone().attr(a.clone()), e.attr(a.long())) }
        4 => { let e = El::new(tag(4)); let d = ["class", "style", "prop", "attr"][choice(4)]; (e.clone().attr(At::Dir(d, key("k"), None, None)), e.attr(At::Dir(d, key("k"), None, Some(t)))) }
        5 => { let e = El::new(tag(4)); let a = At::DirShort("attr", n("k-x"), None); (e.clone().attr(a.clone()), e.attr(a.long())) }
        6 => { let e = El::new(tag(4)); (e.clone().sels(vec![Sel::Class(n("k-x"))]), e.attr(At::Dir("class", key("k-x"), None, Some(t)))) }
        _ => { let mut e = El::new(tag(choice(6))).kids(vec![txt(0), El::new(Tag::html("p")).node()]); let s = e.clone(); e.body = Body::Paren(vec![txt(0), El::new(Tag::html("p")).node()]); (s, e) }
    };
    (k, s, l)
}
/// a name with letters outside ASCII in every place
fn foreign_name() -> El {
    use Part::*;
    let w = foreign();
    let nm = Name(match choice(3) {
        0 => vec![Id(w)],
        1 => vec![Id(w), Dash, Id("y".into())],
        _ => vec![Id("y".into()), Dash, Id(w)],
    });
    super::p04::named(choice(super::p04::NAME_CTX), nm)
}
fn foreign_slot() -> El {
    let w = foreign();
    // a capital first; only ASCII letters change
    let cap = text(1, UPPER, UPPER);
    let mut p = cap.to_ascii_lowercase();
    for c in w.chars() {
        if c.is_ascii_uppercase() {
            p.push('_');
        }
        p.push(c.to_ascii_lowercase());
    }
    slot(&format!("{cap}{w}"), &p)
}

/// the same feature several times
pub fn repeated(k: usize, m: usize) -> El {
    let x = |i: usize| format!("k{i}");
    let mut e = El::new(if k < 8 { Tag::html("div") } else { Tag::comp("Com") });
    let mut kids = vec![];
    for i in 0..m {
        let v = Some(block(i));
        let d = |d: &'static str| At::Dir(d, key(&format!("k{i}")), None, v.clone());
        match k {
            0 | 8 => e.sels.push(Sel::Class(n(&x(i)))),
            1 | 9 => e.sels.push(Sel::Id(n(&x(i)))),
            2 | 10 => e = e.attr(d("class")),
            3 | 11 => e = e.attr(d("style")),
            4 | 12 => e = e.attr(d("on")),
            5 | 13 => e = e.attr(kv(&x(i), i)),
            6 | 14 => e = e.attr(At::Spread(mark(i))),
            7 | 15 => { e = e.attr(d(if i % 2 == 0 { "use" } else { "prop" })); kids.push(txt(10 + i)) }
            16 => e = e.attr(d("attr")),
            17 => e = e.attr(At::Dir("clone", key(&x(i)), None, None)),
            18 => { let w = ["Aa", "Bb", "Cc", "Dd", "Ee", "Ff"][i % 6]; kids.push(slot(w, &w.to_lowercase()).attr(kv("k", i)).node()) }
            19 => { let w = ["Aa", "Bb", "Aa", "Bb", "Cc", "Cc"][i % 6]; kids.push(slot(w, &w.to_lowercase()).attr(kv("k", i)).node()) }
            _ => kids.push([txt(i), El::new(Tag::html("p")).attr(kv("k", i)).node(), Node::V(Val::Clo(mark(i)))][i % 3].clone()),
        }
    }
    if k == 17 && kids.is_empty() { kids.push(txt(9)); }
    if kids.is_empty() { e } else { e.kids(kids) }
}

/// number of features of [`feature`]
const FEAT: u32 = 22;
/// adds a feature called `k` with the value of mark `i`: two of them differ in nothing else
fn feature(mut e: El, f: usize, i: usize) -> El {
    let v = Some(block(i));
    let comp = e.tag.is_comp();
    let d = |d: &'static str, v: Option<Val>| At::Dir(d, key("k"), None, v);
    let a = match f {
        0 => { e.sels.push(Sel::Class(n("k"))); return e }
        1 => { e.sels.push(Sel::Id(n("k"))); return e }
        2 => At::Kv(n("k"), v),
        3 => At::Kv(n("k"), None),
        4 => At::Short(n("k")),
        5 => At::Kv(n("class"), Some(Val::Lit(tk::st("k")))),
        6 => At::Kv(n("id"), Some(Val::Lit(tk::st("k")))),
        7 => d("class", v),
        8 => At::DirShort("class", n("k"), None),
        9 => d("style", v),
        10 => d("on", v),
        11 => At::Dir("on", key("k"), Some("undelegated"), v),
        12 => d("use", None),
        13 => d("use", v),
        14 => d("prop", v),
        15 => At::Spread(tk::id("k")),
        16 if comp => d("attr", v),
        17 if comp => d("class", None),
        18 if comp => d("clone", None),
        16 => At::Kv(n("style"), Some(Val::Lit(tk::st("k")))),
        17 => At::Kv(n("ref"), Some(Val::Block(quote!(k)))),
        18 => At::Dir("style", Key::S("k".into()), None, v),
        _ => {
            let k = match f {
                19 => txt(i),
                20 => El::new(if i == 0 { Tag::html("k") } else { Tag::comp("K") }).attr(At::Kv(n("k"), v)).node(),
                _ if comp => slot("K", "k").attr(At::Kv(n("k"), v)).node(),
                _ => Node::V(Val::Clo(mark(i))),
            };
            let Body::Brace(mut kids) = std::mem::replace(&mut e.body, Body::Semi) else { return e.kids(vec![k]) };
            kids.push(k);
            return e.kids(kids);
        }
    };
    e.attr(a)
}
/// features which a slot has
const SLOT_FEAT: [usize; 7] = [2, 3, 4, 18, 19, 20, 21];
fn some_feature(e: El, i: usize) -> El {
    let f = if e.is_slot() { SLOT_FEAT[choice(7)] } else { choice(FEAT) };
    feature(e, f, i)
}
fn one_feature(e: El, of: &[usize], i: usize) -> El { let f = of[choice(of.len() as u32)]; feature(e, f, i) }
/// `of` once, and two features of the same name and value, in every order
fn same_names(t: Tag, of: &[usize]) -> Vec<Node> {
    let e = El::new(t);
    let c = choice(3);
    let e = match c {
        0 => { let e = one_feature(e, of, 0); some_feature(e, 0) }
        1 => { let e = some_feature(e, 0); one_feature(e, of, 0) }
        _ => { let e = one_feature(e, of, 0); let e = some_feature(e, choice(2)); one_feature(e, of, 0) }
    };
    place(e, if c < 2 { [0, 1, 5][choice(3)] } else { 0 })
}

/// tokens in error in the place of an attribute of an element, component or slot
fn wrong_attr(t: &Tag, k: usize) -> Option<proc_macro2::TokenStream> {
    let common = 15;
    Some(match k {
        0 => quote!(zzz:w={q}),
        1 => quote!(zzz:{w}),
        2 => quote!(class:w:m={q}),
        3 => quote!(style:w:m=1),
        4 => quote!(prop:{w}:m),
        5 => quote!(use:w:m),
        6 => quote!(on:w:m={q}),
        7 => quote!(on:{w}:m),
        8 => quote!(on:"w"={q}),
        9 => quote!(use:"w"={q}),
        10 => quote!(w=q[r]),
        11 => quote!({self}),
        12 => quote!(class:"w"=q[r]),
        13 => quote!(class:w=g["r"]),
        14 => quote!(on:super={q}),
        _ => match (t, k - common) {
            (Tag::Slot(..), 0) => quote!(class:w={q}),
            (Tag::Slot(..), 1) => quote!(on:{w}),
            (Tag::Slot(..), 2) => quote!({..q}),
            (Tag::Slot(..), 3) => quote!(attr:w="q"),
            (Tag::Comp(..) | Tag::Slot(..), 4) => quote!(clone:w={q}),
            (Tag::Comp(..) | Tag::Slot(..), 5) => quote!(clone:"w"),
            (Tag::Comp(..) | Tag::Slot(..), 6) => quote!(clone:w:m),
            (Tag::Comp(..) | Tag::Slot(..), 7) => quote!(clone:{w}),
            (Tag::Comp(..), 0) => quote!(attr:w:m={q}),
            (Tag::Comp(..), 1) => quote!(attr:{super}),
            (Tag::Comp(..), 2) => quote!(Self={q}),
            (Tag::Comp(..), 3) => quote!({self}),
            (Tag::Comp(..) | Tag::Slot(..), _) => return None,
            (_, 0) => quote!(attr:w={q}),
            (_, 1) => quote!(attr:{w}),
            (_, 2) => quote!(clone:w),
            (_, 3) => quote!(clone:{w}),
            _ => return None,
        },
    })
}
/// tokens in error in the place of a child
fn wrong_child(k: usize) -> proc_macro2::TokenStream {
    match k {
        0 => quote!(1),
        1 => quote!(true),
        2 => quote!('a'),
        3 => quote!(;),
        4 => quote!(q[r]),
        5 => quote!(b w=g[r];),
        6 => quote!(b zzz:w={q} { "r" }),
        7 => quote!(-1.5),
        8 => quote!(b"a"),
        9 => quote!(Foo on:w:m={q};),
        10 => quote!(b { slot:Tab; }),
        11 => quote!(b |q| { "r" }),
        12 => quote!(Foo { slot:tab; }),
        _ => quote!(Foo { slot:Tab .w; }),
    }
}
/// an element with something in error; whether it has at least one good child
fn wrong(mark: fn(proc_macro2::TokenStream) -> proc_macro2::TokenStream) -> El {
    let t = tag(choice(6));
    let raw = |t| At::Raw(mark(t));
    let e = El::new(t.clone());
    let k = choice(35);
    if k < 23 {
        let Some(a) = wrong_attr(&t, k) else { exit() };
        return match choice(3) { 0 => e.attr(raw(a)), 1 => e.attr(kv("a0", 60)).attr(raw(a)), _ => e.attr(raw(a)).kids(vec![txt(61)]) };
    }
    let c = Node::Raw(mark(wrong_child([0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13][k - 23])));
    e.kids(match choice(3) { 0 => vec![c, txt(61)], 1 => vec![El::new(Tag::html("p")).attr(kv("a0", 60)).node(), c], _ => vec![txt(61), c, Node::V(block(62))] })
}
pub fn wrong_any() -> El { wrong(id_tokens) }
fn id_tokens(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream { t }
/// errors which cannot be followed by anything or which have no place of their own
fn wrong_shape(k: usize) -> El {
    let xml = El::new(tag(choice(4)));
    match k {
        0 => xml.args(quote!(|zz63|)).kids(vec![txt(61)]),
        1 => xml.kids(vec![txt(61), slot("Tab", "tab").attr(kv("a0", 60)).node(), txt(62)]),
        2 => El::new(tag(4 + choice(2))).attr(At::Raw(quote!(w=))).attr(kv("a0", 60)),
        3 => El::new(tag(choice(6))).attr(kv("a0", 60)).attr(At::Raw(quote!(w-x=))).attr(kv("a1", 63)).kids(vec![txt(61)]),
        4 => El::new(tag(choice(5))).attr(At::Raw(quote!(class:w=))).attr(kv("a0", 60)),
        5 => El::new(tag(4 + choice(2))).kids(vec![txt(61), Node::Raw(quote!(slot:a::Tab; )), txt(62)]),
        _ => El::new(Tag::Slot("Tab".into(), "tab".into())).sels(vec![if flag() { Sel::Class(n("w")) } else { Sel::Id(n("w")) }]),
    }
}

fn everywhere_of(e: El) { super::p18::everywhere(print(&[e.node()])); }

entries! {
    // an error whatever else the element has, wherever it stands
    fn c15_more() { let e = wrong(id_tokens); want_error(print(&one_more(e))); }
    fn c15_more_shape() { let e = wrong_shape(choice(7)); want_error(print(&one_more(e))); }
    fn t15_more2() { let e = wrong(id_tokens); want_error(print(&two_more(e))); }
    fn c17_more() { let e = wrong(id_tokens); want_local(one_more(e)); }
    fn c17_more_shape() { let e = wrong_shape(choice(7)); want_local(one_more(e)); }
    fn t17_more2() { let e = wrong(id_tokens); want_local(two_more(e)); }
    fn c18_more() { let e = wrong(tk::none); super::p18::located(print(&one_more(e))); }
    // (a name to clone stands for nothing where there are no children)
    fn c18_kept_more() { super::p18::kept_but(print(&one_more(f_any())), "zzk"); }
    // the same view was expanded before, somewhere else
    fn c18_kept_after() { super::p18::kept_after(print(&place(f_any(), 0))); }
    fn c18_after() { super::p18::located_after(print(&place(wrong(tk::none), 0))); }
    // the same name, the same value: nothing is merged, replaced or dropped
    fn c02_same() {
        let e = El::new(tag(choice(6)));
        let (e, b) = (some_feature(e, 0), choice(2));
        want(place(some_feature(e, b), choice(3)));
    }
    fn t02_same3() {
        let e = El::new(tag(choice(6)));
        let e = some_feature(e, 0);
        let e = some_feature(e, 0);
        want(place(some_feature(e, 0), 0));
    }
    fn c06_same() { want(same_names(tag(choice(4)), &[2, 3, 4, 5, 6, 16, 17])); }
    fn c07_same() { let t = tag(4 + choice(2)); want(same_names(t, &[2, 3, 4])); }
    fn c08_same() { want(same_names(tag(choice(5)), &[0, 1])); }
    fn c09_same() { want(same_names(tag(choice(2)), &[7, 8, 9, 10, 11, 12, 13, 14, 15, 18])); }
    fn c10_same() { want(same_names(tag(4), &[7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17])); }
    fn c11_same() { want(same_names(tag(choice(6)), &[19, 20, 21])); }
    fn c12_same() { want(same_names(tag(4 + choice(2)), &[18])); }
    fn c13_same() { want(same_names(tag(4 + choice(2)), &[21])); }
    fn c16_same() {
        let e = some_feature(El::new(tag(choice(6))), 0);
        want_clean(print(&place(some_feature(e, 0), [0, 5][choice(2)])));
    }
    fn c19_same() {
        let e = some_feature(El::new(tag(choice(6))), 0);
        let a = some_feature(e.clone(), 0);
        super::p18::again(print(&place(a, 0)), print(&place(e, 0)));
    }
    // many of a kind
    fn c02_many() { let k = choice(21); let m = [9, 17, 27, 33, 40][choice(5)]; want(place(repeated(k, m), [0, 5][choice(2)])); }
    fn c14_many_nodes() {
        let m = [9, 17, 27, 33, 40][choice(5)];
        let x = |i: usize| [txt(i), El::new(Tag::html("p")).attr(kv("k", i)).node(), Node::V(Val::Clo(mark(i)))][i % 3].clone();
        if flag() {
            want((0..m).map(x).collect());
        } else {
            let mut v: Vec<Node> = (0..m - 1).map(x).collect();
            v.insert(choice(m as u32), slot("Tab", "tab").node());
            want_error(print(&v));
        }
    }
    // several of a kind: nothing is reordered by a table
    fn c19_repeated() {
        let e = repeated(choice(21), choice(5) + 2);
        super::p18::again(print(&[e.node()]), quote!());
    }
    fn c19_repeated_in() {
        let k = choice(21);
        let e = repeated(k, 3);
        super::p18::again(print(&place(e, choice(PLACE))), print(&[repeated([k, 18, 1][choice(3)], 4).node()]));
    }
    fn c08_repeated() { let e = repeated([0, 1, 8, 9][choice(4)], choice(8)); want(one_more(e)); }
    fn c07_repeated() { let e = repeated(13, choice(8)); want(one_more(e)); }
    fn c06_repeated() { let e = repeated(5, choice(8)); want(one_more(e)); }
    fn c09_repeated() { let e = repeated([2, 3, 4, 6, 7][choice(5)], choice(8)); want(one_more(e)); }
    fn c10_repeated() { let e = repeated([10, 11, 12, 14, 15, 16][choice(6)], choice(8)); want(one_more(e)); }
    fn c11_repeated() { let e = repeated(20, choice(8)); want(one_more(e)); }
    fn c12_repeated() { let e = repeated(17, choice(8)); want(one_more(e)); }
    fn c13_repeated() { let e = repeated([18, 19][choice(2)], choice(8)); want(one_more(e)); }
    fn c21_repeated() { let e = repeated(choice(21), choice(4)); super::p18::everywhere(print(&[e.node()])); }
    fn c20_repeated() {
        let e = repeated(choice(21), choice(4) + 3);
        super::p18::qualified_but_names(print(&one_more(e)));
    }
    fn c16_repeated() {
        let e = repeated(choice(21), choice(4) + 3);
        want_clean(print(&one_more(e)));
    }
    fn c02_repeated() {
        let e = repeated(choice(21), choice(4) + 3);
        crate::soup::conserve(print(&one_more(e)));
    }
    fn c18_repeated() {
        let k = choice(21);
        if k == 17 { exit() }
        let m = choice(4) + 3;
        super::p18::kept_but(print(&one_more(repeated(k, m))), "zzk");
    }
    // an empty element of every kind, whatever stands around it
    fn c21_tags() {
        let e = f04();
        everywhere_of(match choice(3) { 0 => e, 1 => e.kids(vec![]), _ => e.kids(vec![txt(0)]) });
    }
    fn c21_more() {
        let e = El::new(tag(choice(5)));
        let (a, b) = (choice(DECO), choice(DECO));
        super::p18::everywhere_at(choice(4) * 4 + (a + b) % 4, print(&[decorate(decorate(e, a, 80), b, 84).node()]));
    }
    fn c03_more() { want(one_more(f03())); }
    fn t03_more2() { want(two_more(f03())); }
    fn t03_anywhere() { want(anywhere(El::new(tag(choice(6))).attr(At::Kv(n("k"), Some(any_value(false)))))); }
    fn c04_more() { want(one_more(f04())); }
    fn t04_more2() { want(two_more(f04())); }
    fn c05_more() { want(one_more(f05())); }
    fn c06_more() { want(one_more(f06())); }
    fn t06_more2() { want(two_more(f06())); }
    fn c07_more() { want(one_more(f07())); }
    fn t07_more2() { want(two_more(f07())); }
    fn c08_more() { want(one_more(f08())); }
    fn t08_more2() { want(two_more(f08())); }
    fn c09_more() { want(one_more(f09())); }
    fn t09_more2() { want(two_more(f09())); }
    fn c10_more() { want(one_more(f10())); }
    fn t10_more2() { want(two_more(f10())); }
    fn c11_more() { want(one_more(f11())); }
    fn c12_more() { want(one_more(f12())); }
    fn t12_more2() { want(two_more(f12())); }
    fn c13_more() { want(one_more(f13())); }
    fn c23_more() { want(one_more(f23())); }
    fn t23_more2() { want(two_more(f23())); }
    fn c22_more() { both(f22()); }
    // tags that mean something elsewhere in the syntax
    fn c16_more_tags() { want_clean(print(&one_more(f04()))); }
    fn c16_more_names() { want_clean(print(&one_more(f05()))); }
    fn c16_more() { want_clean(print(&one_more(f_any()))); }
    fn c02_more() { crate::soup::conserve(print(&one_more(f_any()))); }
    fn t02_more2() { crate::soup::conserve(print(&two_more(f_any()))); }
    fn c20_more() { super::p18::qualified_but_names(print(&one_more(f_any()))); }

    fn c04_foreign() {
        let w = foreign();
        // a component starts with a capital
        assume(!w.as_bytes()[0].is_ascii_uppercase());
        want(vec![El::new(if flag() { Tag::Html(Name::id(&w)) } else { Tag::Custom(Name(vec![Part::Id(w), Part::Dash, Part::Id("x".into())])) }).node()]);
    }
    fn c05_foreign() { want(vec![foreign_name().node()]); }
    fn c13_foreign() {
        let e = foreign_slot();
        want(place(if flag() { e.attr(kv("k", 0)) } else { e }, choice(PLACE)));
    }
    fn c01_foreign() {
        crate::soup::total(print(&if flag() { place(foreign_slot(), 0) } else { vec![foreign_name().node()] }));
    }
}
