//! C08 selectors, C09 directives on elements, C10 directives on components, C22 shorthands.
use super::p06::{any_html, lit_value};
use crate::{flat::*, gen::*, judge::*, run::*, spec::*, sym::*, tk};
use proc_macro2::TokenStream;
use quote::quote;

fn key(s: &str) -> Key { Key::N(Name::new(s)) }

/// names without a leading hyphen problem (selectors and directive keys accept any)
fn key_name() -> Name {
    let n = kebab();
    assume(!one_of(n.snake_str().as_bytes(), &UNRAW));
    n
}

pub fn dir_el(k: usize, i: usize) -> At {
    let v = Some(block(i));
    let n = |c: &str| Key::N(Name::new(&format!("{c}{i}")));
    match k {
        0 => At::Dir("class", n("c-"), None, v),
        1 => At::Dir("style", n("s"), None, v),
        2 => At::Dir("prop", n("p"), None, v),
        3 => At::Dir("on", n("e"), None, v),
        4 => At::Dir("on", n("e"), Some("undelegated"), v),
        5 => At::Dir("use", n("u"), None, v),
        6 => At::Dir("use", n("u"), None, None),
        7 => At::DirShort("class", Name::id(&format!("k{i}")), None),
        8 => At::DirShort("on", Name::id(&format!("k{i}")), Some("undelegated")),
        9 => At::Dir("class", Key::S(format!("x y{i}")), None, v),
        10 => At::Kv(Name::id("class"), v),
        11 => At::Kv(Name::id("style"), v),
        12 => At::Kv(Name::id(&format!("a{i}")), v),
        _ => At::Spread(mark(i)),
    }
}
pub fn dir_comp(k: usize, i: usize) -> At {
    let v = Some(block(i));
    let n = |c: &str| Key::N(Name::new(&format!("{c}{i}")));
    match k {
        0 => At::Dir("class", n("c-"), None, v),
        1 => At::Dir("style", n("s"), None, v),
        2 => At::Dir("attr", n("a"), None, v),
        3 => At::Dir("attr", n("a-"), None, None),
        4 => At::Dir("prop", n("p"), None, v),
        5 => At::Dir("on", n("e"), None, v),
        6 => At::Dir("on", n("e"), Some("undelegated"), v),
        7 => At::Dir("use", n("u"), None, v),
        8 => At::Dir("class", n("c"), None, None),
        9 => At::DirShort("style", Name::id(&format!("k{i}")), None),
        10 => At::Spread(mark(i)),
        11 => At::Kv(Name::id(&format!("b{i}")), v),
        12 => At::Dir("use", n("u"), None, None),
        _ => At::Dir("attr", key("class"), None, v),
    }
}

/// two inputs must have the same expansion
pub fn same_expansion(a: TokenStream, b: TokenStream) {
    tell("short", &a);
    tell("long", &b);
    expand(a, move |ra| {
        tell_res(&ra);
        check(ra.out.is_some() && ra.errors() == 0, 1);
        let fa = flat(ra.out.as_ref().unwrap());
        expand(b, move |rb| {
            tell_res(&rb);
            note_res(&rb);
            check(rb.out.is_some() && rb.errors() == 0, 1);
            let fb = flat(rb.out.as_ref().unwrap());
            cover(1);
            check(eq(&fa, &fb), 3);
        });
    });
}

entries! {
    // ---------- C08 ----------
    fn c08_names() {
        let mut e = El::new(tag(choice(5)));
        let n = choice(2) + 1;
        for _ in 0..n {
            let nm = kebab();
            e.sels.push(if flag() { Sel::Class(nm) } else { Sel::Id(nm) });
        }
        want(vec![e.node()]);
    }
    fn c08_long_name() {
        let mut e = El::new(tag(if flag() { 4 } else { 0 }));
        let nm = Name::id(&ident(choice(12) + 1));
        e.sels.push(if flag() { Sel::Class(nm) } else { Sel::Id(nm) });
        want(vec![e.node()]);
    }
    // every sequence of up to 5 selectors, with repeated names
    fn c08_order() {
        let mut e = El::new(tag(choice(5)));
        let n = choice(6);
        for i in 0..n {
            let nm = Name::new(["a", "b-c", "a", "d", "b-c"][i]);
            e.sels.push(if flag() { Sel::Class(nm) } else { Sel::Id(nm) });
        }
        want(vec![e.kids(vec![]).node()]);
    }
    fn c08_with_attrs() {
        let c = flag();
        let mut e = El::new(tag(if c { 4 } else { choice(4) }));
        for i in 0..choice(4) {
            let nm = Name::new(&format!("s{i}"));
            e.sels.push(if flag() { Sel::Class(nm) } else { Sel::Id(nm) });
        }
        for i in 0..2 {
            e = e.attr(match choice(5) {
                0 => At::Kv(Name::id("class"), Some(block(i))),
                1 => At::Kv(Name::id("id"), Some(block(i))),
                2 => At::Dir("class", key("k"), None, Some(block(i))),
                3 => At::Spread(mark(i)),
                _ => At::Dir("style", key("k"), None, Some(block(i))),
            });
        }
        want(vec![e.node()]);
    }
    fn c08_many() {
        let mut e = El::new(tag(choice(5)));
        let n = choice(14) + 3;
        let h = choice(3);
        for i in 0..n {
            let nm = Name::new(&format!("s-{i}"));
            e.sels.push(if i % 3 == h { Sel::Id(nm) } else { Sel::Class(nm) });
        }
        want(vec![e.node()]);
    }
    // selectors of one element stay with it
    fn c08_leak() {
        let mk = |i: usize| {
            let mut e = El::new(tag(if flag() { 4 } else { 0 }));
            match choice(3) {
                0 => {}
                1 => e.sels.push(Sel::Class(Name::new(&format!("c{i}")))),
                _ => e.sels.push(Sel::Id(Name::new(&format!("i{i}")))),
            }
            e
        };
        let k = mk(1).node();
        let p = mk(0).kids(vec![k, mk(2).node()]);
        want(vec![p.node(), mk(3).node()]);
    }

    // ---------- C09 ----------
    // one directive of each kind with any name
    fn c09_names() {
        let e = El::new(tag(choice(4)));
        let n = key_name();
        let v = match choice(3) { 0 => block(0), 1 => Val::Clo(mark(0)), _ => lit(0) };
        let a = match choice(7) {
            0 => At::Dir("class", Key::N(n), None, Some(v)),
            1 => At::Dir("style", Key::N(n), None, Some(v)),
            2 => At::Dir("prop", Key::N(n), None, Some(v)),
            3 => At::Dir("on", Key::N(n), None, Some(v)),
            4 => At::Dir("on", Key::N(n), Some("undelegated"), Some(v)),
            5 => At::Dir("use", Key::N(n), None, Some(v)),
            _ => At::Dir("use", Key::N(n), None, None),
        };
        want(vec![e.attr(a).node()]);
    }
    fn c09_long_name() {
        let e = El::new(tag(choice(2)));
        let n = Key::N(Name::id(&ident(choice(16) + 1)));
        let d = ["class", "style", "prop", "on", "use"][choice(5)];
        let u = if d == "on" && flag() { Some("undelegated") } else { None };
        want(vec![e.attr(At::Dir(d, n, u, Some(block(0)))).node()]);
    }
    fn c09_short() {
        let e = El::new(tag(choice(4)));
        let n = key_name();
        let d = ["class", "style", "prop", "on", "use"][choice(5)];
        let u = if d == "on" && flag() { Some("undelegated") } else { None };
        want(vec![e.attr(At::DirShort(d, n, u)).node()]);
    }
    // string keys
    fn c09_string_key() {
        let e = El::new(tag(choice(4)));
        let s = text(choice(4), TEXT, TEXT);
        want(vec![e.attr(At::Dir(["class", "style", "prop"][choice(3)], Key::S(s), None, Some(block(0)))).node()]);
    }
    // any name with any value, on any kind of element
    fn c09_key_value() {
        let d = ["class", "style", "prop", "on", "use"][choice(5)];
        let k = Name::id(&ident([1, 2, 4, 5, 7, 11][choice(6)]));
        want(vec![El::new(tag(choice(4))).attr(At::Dir(d, Key::N(k), None, Some(lit_value()))).node()]);
    }
    fn c09_string_key_value() {
        let d = ["class", "style", "prop"][choice(3)];
        let k = text([0, 1, 2, 4, 7, 11][choice(6)], LONG, LONG);
        want(vec![El::new(tag(choice(4))).attr(At::Dir(d, Key::S(k), None, Some(lit_value()))).node()]);
    }
    fn c09_tag_key_value() {
        let e = any_html(5);
        let d = ["class", "style", "prop", "on", "use"][choice(5)];
        let k = Name::id(&ident(4));
        want(vec![e.attr(At::Dir(d, Key::N(k), None, Some([block(0), Val::Lit(tk::id("true")), lit(0)][choice(3)].clone()))).node()]);
    }
    fn c10_key_value() {
        let d = ["class", "style", "attr", "prop", "on", "use"][choice(6)];
        let k = Name::id(&ident([1, 2, 4, 5, 7, 11][choice(6)]));
        want(vec![El::new(tag(4)).attr(At::Dir(d, Key::N(k), None, Some(lit_value()))).node()]);
    }
    fn c10_string_key_value() {
        let d = ["class", "style", "prop"][choice(3)];
        let k = text([0, 1, 2, 4, 7, 11][choice(6)], LONG, LONG);
        want(vec![El::new(tag(4)).attr(At::Dir(d, Key::S(k), None, Some(lit_value()))).node()]);
    }
    fn c09_string_key_long() {
        let e = El::new(tag(choice(4)));
        let s = text([6, 9, 12, 16, 24][choice(5)], LONG, LONG);
        want(vec![e.attr(At::Dir(["class", "style", "prop"][choice(3)], Key::S(s), None, Some(block(0)))).node()]);
    }
    // however the string is written, whatever is in it; also twice
    fn c09_odd_key() {
        let e = El::new(tag(choice(4)));
        let d = ["class", "style", "prop"][choice(3)];
        let s = odd(choice(ODDS));
        let a = At::Dir(d, Key::L(s), None, Some(block(0)));
        want(vec![if flag() { e.attr(a) } else { e.attr(a).attr(At::Dir(d, Key::L(odd(choice(ODDS))), None, None)) }.node()]);
    }
    // every sequence of 3 attributes and directives
    fn c09_order() {
        let mut e = El::new(tag(choice(2)));
        for i in 0..3 {
            e = e.attr(dir_el(choice(14), i));
        }
        want(vec![e.node()]);
    }
    fn c09_order4() {
        let mut e = El::new(tag(0));
        for i in 0..4 {
            e = e.attr(dir_el([0, 1, 3, 5, 10, 11, 13][choice(7)], i));
        }
        want(vec![e.sels(if flag() { vec![Sel::Class(Name::new("c"))] } else { vec![] }).kids(vec![txt(9)]).node()]);
    }
    // the same directive and name again
    fn c09_repeat() {
        let mut e = El::new(tag(choice(4)));
        for i in 0..3 {
            let d = ["class", "style", "prop", "on", "use"][choice(5)];
            e = e.attr(At::Dir(d, key(if flag() { "a" } else { "b" }), None, Some(block(i))));
        }
        want(vec![e.node()]);
    }
    fn c09_many() {
        let n = choice(16) + 4;
        let d = choice(7);
        let mut e = El::new(tag(choice(4)));
        for i in 0..n {
            e = e.attr(dir_el(if i % 2 == 0 { d } else { (d + 3) % 14 }, i));
        }
        want(vec![e.node()]);
    }
    fn c09_leak() {
        let mk = |i: usize| {
            let e = El::new(tag(choice(2)));
            if flag() { e.attr(dir_el(choice(6), i)) } else { e }
        };
        let k = mk(1).node();
        let p = mk(0).kids(vec![k, txt(8)]);
        want(vec![p.node(), mk(2).node()]);
    }

    // ---------- C10 ----------
    fn c10_names() {
        let e = El::new(tag(4));
        let n = key_name();
        let v = match choice(4) { 0 => Some(block(0)), 1 => Some(Val::Clo(mark(0))), 2 => Some(lit(0)), _ => None };
        let d = ["class", "style", "attr", "prop", "on", "use"][choice(6)];
        let (u, v) = if d == "on" { (if flag() { Some("undelegated") } else { None }, Some(v.unwrap_or(block(1)))) } else { (None, v) };
        want(vec![e.attr(At::Dir(d, Key::N(n), u, v)).node()]);
    }
    fn c10_long_name() {
        let e = El::new(tag(4));
        let n = Name::id(&ident(choice(16) + 1));
        let d = ["class", "style", "attr", "prop", "on", "use"][choice(6)];
        want(vec![e.attr(At::Dir(d, Key::N(n), None, Some(block(0)))).node()]);
    }
    fn c10_attr_hyphen() {
        use Part::*;
        let n = choice(6) + 1;
        let n = Name(match choice(4) {
            0 => vec![Id(ident(n)), Dash, Id(ident(2))],
            1 => vec![Id(ident(n)), Dash],
            2 => vec![Dash, Id(ident(n))],
            _ => vec![Id("aria".into()), Dash, Id(ident(n))],
        });
        want(vec![El::new(tag(4)).attr(At::Dir("attr", Key::N(n), None, if flag() { Some(block(0)) } else { None })).node()]);
    }
    fn c10_special() {
        let k = ["class", "style", "id", "ref", "for", "type", "aria-label", "data-x", "key", "contenteditable"][choice(10)];
        let d = ["class", "style", "attr", "prop", "on", "use"][choice(6)];
        let v = if d == "on" { Some(block(0)) } else { match choice(3) { 0 => None, 1 => Some(block(0)), _ => Some(Val::Clo(mark(0))) } };
        want(vec![El::new(tag(4)).attr(At::Dir(d, key(k), None, v)).node()]);
    }
    fn c10_short() {
        let n = key_name();
        let d = ["class", "style", "attr", "prop", "on", "use"][choice(6)];
        let u = if d == "on" && flag() { Some("undelegated") } else { None };
        want(vec![El::new(tag(4)).attr(At::DirShort(d, n, u)).node()]);
    }
    fn c10_string_key() {
        let s = text(choice(4), TEXT, TEXT);
        let v = if flag() { Some(block(0)) } else { None };
        want(vec![El::new(tag(4)).attr(At::Dir(["class", "style", "prop"][choice(3)], Key::S(s), None, v)).node()]);
    }
    fn c10_string_key_long() {
        let s = text([6, 9, 12, 16, 24][choice(5)], LONG, LONG);
        let v = if flag() { Some(block(0)) } else { None };
        want(vec![El::new(tag(4)).attr(At::Dir(["class", "style", "prop"][choice(3)], Key::S(s), None, v)).node()]);
    }
    fn c10_odd_key() {
        let d = ["class", "style", "prop"][choice(3)];
        let a = At::Dir(d, Key::L(odd(choice(ODDS))), None, Some(block(0)));
        let e = El::new(tag(4)).attr(a);
        want(vec![if flag() { e } else { e.attr(At::Dir(d, Key::L(odd(choice(ODDS))), None, None)) }.node()]);
    }
    fn c10_attr_string_key() {
        // a string key of `attr:` with a hyphen names a custom attribute
        let s = format!("{}-{}", text(choice(3) + 1, LOWER, LOWNUM), text(choice(3), TEXT, TEXT));
        want(vec![El::new(tag(4)).attr(At::Dir("attr", Key::S(s), None, Some(block(0)))).node()]);
    }
    fn c10_order() {
        let mut e = El::new(tag(4));
        for i in 0..3 {
            e = e.attr(dir_comp(choice(14), i));
        }
        if flag() { e = e.sels(vec![Sel::Id(Name::new("i")), Sel::Class(Name::new("c"))]); }
        want(vec![e.node()]);
    }
    fn c10_order4() {
        let mut e = El::new(tag(4));
        for i in 0..4 {
            e = e.attr(dir_comp([0, 1, 2, 5, 7, 10, 11][choice(7)], i));
        }
        want(vec![e.kids(vec![txt(9)]).node()]);
    }
    fn c10_repeat() {
        let mut e = El::new(tag(4));
        for i in 0..3 {
            let d = ["class", "style", "attr", "prop", "on", "use"][choice(6)];
            e = e.attr(At::Dir(d, key(if flag() { "a" } else { "b" }), None, Some(block(i))));
        }
        want(vec![e.node()]);
    }
    fn c10_many() {
        let n = choice(20) + 4;
        let d = choice(14);
        let mut e = El::new(tag(4));
        for i in 0..n {
            e = e.attr(dir_comp(if i % 2 == 0 { d } else { (d + 3) % 14 }, i));
        }
        want(vec![e.node()]);
    }
    // of components within components and slots, each forwards its own
    fn c10_leak() {
        let mk = |i: usize| {
            let e = El::new(tag(4));
            if flag() { e.attr(dir_comp([0, 2, 4, 5, 10][choice(5)], i)) } else { e }
        };
        let inner = mk(1).node();
        let k = if flag() { El::new(tag(5)).kids(vec![inner]).node() } else { inner };
        let p = mk(0).kids(vec![k]);
        want(vec![p.node(), mk(2).node()]);
    }

    // ---------- C22 ----------
    // `key` is `key=true`, `{key}` is `key={key}`
    fn c22_attr() {
        let k = choice(6);
        let n = kebab();
        assume(!one_of(n.snake_str().as_bytes(), &UNRAW));
        let q = || At::Kv(Name::id("q"), Some(block(9)));
        let wrap = |a: At| {
            let e = El::new(tag(k)).attr(q()).attr(a);
            print(&[if k == 5 { El::new(Tag::comp("Com")).kids(vec![e.node()]).node() } else { e.node() }])
        };
        let (s, l) = match choice(2) {
            0 => (At::Kv(n.clone(), None), At::Kv(n, Some(Val::Lit(quote!(true))))),
            _ => { let a = At::Short(n); (a.clone(), a.long()) }
        };
        same_expansion(wrap(s), wrap(l));
    }
    fn c22_attr_long() {
        let k = [0, 2, 4][choice(3)];
        let n = Name::id(&ident(choice(12) + 1));
        let wrap = |a: At| print(&[El::new(tag(k)).attr(a).node()]);
        let (s, l) = match choice(2) {
            0 => (At::Kv(n.clone(), None), At::Kv(n, Some(Val::Lit(quote!(true))))),
            _ => { let a = At::Short(n); (a.clone(), a.long()) }
        };
        same_expansion(wrap(s), wrap(l));
    }
    fn c22_dir() {
        let comp = flag();
        let n = kebab();
        assume(!one_of(n.snake_str().as_bytes(), &UNRAW));
        let d = ["class", "style", "prop", "on", "use", "attr"][choice(if comp { 6 } else { 5 })];
        let u = if d == "on" && flag() { Some("undelegated") } else { None };
        let a = At::DirShort(d, n, u);
        let wrap = |a: At| print(&[El::new(tag(if comp { 4 } else { 0 })).attr(a).node()]);
        same_expansion(wrap(a.clone()), wrap(a.long()));
    }
    // an omitted directive value on a component is `true`
    fn c22_dir_true() {
        let n = kebab();
        assume(!one_of(n.snake_str().as_bytes(), &UNRAW));
        let d = ["class", "style", "prop", "attr"][choice(4)];
        let wrap = |v: Option<Val>| print(&[El::new(tag(4)).attr(At::Dir(d, Key::N(n.clone()), None, v)).node()]);
        same_expansion(wrap(None), wrap(Some(Val::Lit(quote!(true)))));
    }
    // `.c` on a component is `class:c=true`
    fn c22_class() {
        let m = choice(3) + 1;
        let ns: Vec<Name> = (0..m).map(|_| kebab()).collect();
        let rest = At::Dir("on", key("click"), None, Some(block(0)));
        // a name that ends in a hyphen would go on with the `on`
        let last = ns.last().unwrap().repr();
        if last.ends_with('-') {
            exit();
        }
        let a = El::new(tag(4)).sels(ns.iter().cloned().map(Sel::Class).collect()).attr(rest.clone());
        let b = El::new(tag(4)).attrs(ns.into_iter().map(|n| At::Dir("class", Key::N(n), None, Some(Val::Lit(quote!(true))))).collect()).attr(rest);
        same_expansion(print(&[a.node()]), print(&[b.node()]));
    }
    // `[e]` is `{move || {e}}`, `f[a]` is `[format!(a)]` up to the path of `format!`
    fn c22_closure() {
        let k = choice(6);
        let c = match choice(4) { 0 => quote!(zz0), 1 => quote!(zz0.get() + 1), 2 => quote!(), _ => quote!("{}", zz0) };
        let f = flag();
        let (s, l) = if f { (Val::Fmt(c.clone()), quote!(move || ::std::format!(#c))) } else { (Val::Clo(c.clone()), quote!(move || {#c})) };
        let place = |v: TokenStream| match k {
            0 => quote!(div a=#v;),
            1 => quote!(div { #v }),
            2 => quote!(Com a=#v;),
            3 => quote!(Com { #v }),
            4 => quote!(div class:a=#v;),
            _ => quote!(#v "x"),
        };
        let (a, b) = (place(s.print()), place(tk::brace(l)));
        tell("short", &a);
        tell("long", &b);
        expand(a, move |ra| {
            tell_res(&ra);
            check(ra.out.is_some() && ra.errors() == 0, 1);
            let fa = flat(ra.out.as_ref().unwrap());
            expand(b, move |rb| {
                tell_res(&rb);
                note_res(&rb);
                check(rb.out.is_some() && rb.errors() == 0, 1);
                // the block keeps its braces: `{ move || .. }` against `move || ..`
                let fb = strip_block(flat(rb.out.as_ref().unwrap()));
                let fa = strip_block(fa);
                cover(1);
                check(eq(&fa, &fb), 3);
            });
        });
    }
    fn c22_parens() {
        let k = choice(6);
        let n = choice(3);
        let kids: Vec<Node> = (0..n).map(|i| match choice(3) { 0 => txt(i), 1 => El::new(Tag::html("p")).kids(vec![txt(i)]).node(), _ => Node::V(block(i)) }).collect();
        let args = if k >= 4 && flag() { Some(quote!(|x|)) } else { None };
        let mk = |b: Body| {
            let mut e = El::new(tag(k));
            e.args = if n > 0 { args.clone() } else { None };
            e.body = b;
            print(&[if k == 5 { El::new(Tag::comp("Com")).kids(vec![e.node()]).node() } else { e.node() }])
        };
        same_expansion(mk(Body::Paren(kids.clone())), mk(Body::Brace(kids)));
    }
}

/// `{ move || X }` reads as `move || X`
fn strip_block(v: Vec<F>) -> Vec<F> {
    let mut out = vec![];
    let mut skip: Vec<usize> = vec![];
    for i in 0..v.len() {
        if skip.contains(&i) {
            continue;
        }
        if v[i].k == Kd::Open && v[i].c == b'{' && v.get(i + 1).is_some_and(|f| f.k == Kd::Ident && f.s == b"move") {
            let mut d = 0;
            for j in i..v.len() {
                match v[j].k {
                    Kd::Open => d += 1,
                    Kd::Close => d -= 1,
                    _ => {}
                }
                if d == 0 {
                    skip.push(j);
                    break;
                }
            }
            continue;
        }
        out.push(v[i].clone());
    }
    out
}
