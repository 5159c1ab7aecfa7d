//! C11 children, C12 children closures and clones, C13 slots.
use crate::{soup::{in_order, soup, soup_to, toks}, flat::*, gen::*, judge::*, spec::*, sym::*, tk};
use proc_macro2::TokenStream;
use quote::quote;

fn n(s: &str) -> Name { Name::new(s) }
/// a child of the given kind; `i` makes its content unique
fn kid(k: usize, i: usize) -> Node {
    match k {
        0 => txt(i),
        1 => Node::V(block(i)),
        2 => Node::V(Val::Clo(mark(i))),
        3 => El::new(Tag::html("p")).kids(vec![txt(i)]).node(),
        4 => El::new(Tag::comp("Foo")).attr(At::Kv(n("a"), Some(block(i)))).node(),
        5 => El::new(Tag::Custom(n("x-y"))).attr(At::Kv(n("a"), Some(block(i)))).node(),
        6 => Node::V(Val::Fmt(quote!("zz"))),
        7 => El::new(Tag::html("br")).node(),
        8 => El::new(Tag::Slot("Tab".into(), "tab".into())).attr(At::Kv(n("a"), Some(block(i)))).node(),
        9 => El::new(Tag::Slot("Foo".into(), "foo".into())).kids(vec![txt(i)]).node(),
        10 => Node::V(Val::Block(TokenStream::new())),
        11 => El::new(Tag::html("p")).kids(vec![]).node(),
        _ => Node::V(Val::Block(quote!("zz"))),
    }
}
/// a container of every kind, in its context
fn wrap(k: usize, e: El) -> Vec<Node> {
    if k == 5 { vec![El::new(Tag::comp("Par")).kids(vec![e.node()]).node()] } else { vec![e.node()] }
}
/// `|..|` of every documented shape
fn params() -> TokenStream {
    let (a, b) = (tk::id(&plain(2)), tk::id(&plain(2)));
    match choice(14) {
        0 => quote!(|#a|),
        1 => quote!(|(#a, #b)|),
        2 => quote!(|Foo { #a, bar: #b, .. }|),
        3 => quote!(|#a: Vec<(A, B)>|),
        4 => quote!(|&#a|),
        5 => quote!(||),
        6 => { let (a, b) = (tk::p('|'), tk::p('|')); quote!(#a #b) }
        7 => quote!(|_|),
        8 => quote!(|mut #a|),
        9 => quote!(|[#a, .., #b]|),
        10 => quote!(|#a, #b|),
        11 => quote!(|(#a | #b)|),
        12 => quote!(|#a: impl Fn(u8) -> u8, r#type: &'a str,|),
        _ => quote!(|{ weird } = ; #a => "x" 1 ?|),
    }
}
/// snake case as documented: a `_` before each capital that is not the first
fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.bytes().enumerate() {
        if c.is_ascii_uppercase() {
            if i > 0 {
                o.push('_');
            }
            o.push((c + 32) as char);
        } else {
            o.push(c as char);
        }
    }
    o
}
fn slot(name: &str) -> El { El::new(Tag::Slot(name.into(), snake(name))) }
fn clone(s: &str) -> At { At::Dir("clone", Key::N(n(s)), None, None) }

entries! {
    // ---------- C11 ----------
    // every container with every sequence of children
    fn c11_flat() {
        let k = choice(6);
        let m = choice(4);
        let kids: Vec<Node> = (0..m).map(|i| kid(choice(8), i)).collect();
        let mut e = El::new(tag(k));
        e.body = if flag() { Body::Brace(kids) } else { Body::Paren(kids) };
        want(wrap(k, e));
    }
    fn c11_four() {
        let kids: Vec<Node> = (0..4).map(|i| kid([0, 1, 3, 4, 7][choice(5)], i)).collect();
        want(vec![El::new(tag([0, 4][choice(2)])).kids(kids).node()]);
    }
    // with slots between them
    fn c11_slots() {
        let k = [4, 5][choice(2)];
        let kids: Vec<Node> = (0..3).map(|i| kid([0, 1, 3, 4, 8, 9][choice(6)], i)).collect();
        want(wrap(k, El::new(tag(k)).kids(kids)));
    }
    // two children of every kind, empty ones too, next to each other
    fn c11_pairs() {
        let k = choice(6);
        let kids: Vec<Node> = (0..2).map(|i| kid([0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12][choice(11)], i)).collect();
        want(wrap(k, El::new(tag(k)).kids(kids)));
    }
    // a chain of containers of every kind, text before, inside and after
    fn c11_deep() {
        let d = choice(5) + 1;
        let mut v = vec![txt(0)];
        for i in 0..d {
            let mut e = El::new(match choice(3) { 0 => tag(0), 1 => tag(4), _ => tag(1) });
            let mut kids = vec![txt(10 + i)];
            kids.append(&mut v);
            kids.push(txt(20 + i));
            e.body = if i % 2 == 0 { Body::Brace(kids) } else { Body::Paren(kids) };
            v = vec![e.node()];
        }
        want(v);
    }
    // every tree with up to 3 levels of up to 2 children
    fn c11_tree() {
        let mut i = 0;
        fn node(d: usize, i: &mut usize) -> Node {
            *i += 1;
            let id = *i;
            if d == 0 || flag() {
                return txt(id);
            }
            let m = choice(3);
            let kids = (0..m).map(|_| node(d - 1, i)).collect();
            El::new(if (id + d) % 2 == 0 { Tag::html("div") } else { Tag::comp("Com") }).kids(kids).node()
        }
        let v = (0..2).map(|_| node(2, &mut i)).collect();
        want(v);
    }
    fn c11_empty() {
        let k = choice(6);
        let mut e = El::new(tag(k));
        e.body = match choice(3) { 0 => Body::Semi, 1 => Body::Brace(vec![]), _ => Body::Paren(vec![]) };
        if flag() { e = e.attr(At::Kv(n("a"), Some(block(1)))); }
        let mut f = El::new(tag(choice(5)));
        f.body = match choice(3) { 0 => Body::Semi, 1 => Body::Brace(vec![]), _ => Body::Paren(vec![]) };
        let v = wrap(k, e);
        let mut w = vec![f.node()];
        w.extend(v);
        w.push(txt(2));
        want(w);
    }
    // whatever sequence is accepted
    fn c11_soup() {
        let t = toks(&soup_to(b"DBs{[;", 4, 0));
        in_order(match choice(3) { 0 => t, 1 => quote!(p { #t }), _ => quote!(Com { #t }) });
    }
    fn c11_soup_end() { in_order(toks(&soup(b"D{;s", 5, 0))); }
    fn t11_soup() { in_order(toks(&soup(b"aBs{[;", 5, 0))); }
    fn t11_soup_end() { in_order(toks(&soup(b"D{;s", 7, 0))); }
    // symbolic text contents of neighbours
    fn c11_string() {
        let k = choice(5);
        let kids = (0..2).map(|_| { let l = choice(3); Node::V(Val::Lit(tk::st(&text(l, PRINT, PRINT)))) }).collect();
        want(vec![El::new(tag(k)).kids(kids).node()]);
    }
    // symbolic tag names of neighbours: nothing merges, nothing is swallowed
    fn c11_names() {
        let mk = |_| {
            let l = choice(2) + 1;
            let s = plain(l);
            assume(!one_of(s.as_bytes(), &["f", "a", "g"]) );
            s
        };
        let (a, b) = (mk(0), mk(1));
        // the kind of element is another property: names no tag list contains
        assume(!one_of(a.as_bytes(), &["ms", "mi", "mn", "mo"]) & !one_of(b.as_bytes(), &["ms", "mi", "mn", "mo"]));
        let p = El::new(Tag::comp("Com")).kids(vec![
            El::new(Tag::html(&a)).kids(vec![txt(1)]).node(), El::new(Tag::html(&b)).node(), txt(2),
        ]);
        want(vec![p.node()]);
    }
    fn c11_many() {
        let m = choice(30);
        let k = choice(3);
        let kids: Vec<Node> = (0..m).map(|i| kid([0, 1, 3, 4, 7][(i + k) % 5], i)).collect();
        want(vec![El::new(tag([0, 4, 1][k])).kids(kids).node()]);
    }
    // symbolic choice in the middle of many
    fn c11_middle() {
        let mut kids: Vec<Node> = (0..8).map(|i| kid([0, 3, 1, 4][i % 4], i)).collect();
        let at = choice(9);
        kids.insert(at, kid(choice(13).min(7), 50));
        want(vec![El::new(tag([0, 4][choice(2)])).kids(kids).node()]);
    }

    // ---------- C12 ----------
    fn c12_params() {
        let k = [4, 5][choice(2)];
        let mut e = El::new(tag(k)).args(params());
        let kids = match choice(4) { 0 => vec![], 1 => vec![txt(0)], 2 => vec![kid(3, 0), txt(1)], _ => vec![kid(8, 0), txt(1)] };
        e.body = if flag() { Body::Brace(kids) } else { Body::Paren(kids) };
        want(wrap(k, e));
    }
    // clones among attributes and directives
    fn c12_clones() {
        let k = [4, 5][choice(2)];
        let mut e = El::new(tag(k));
        let c = choice(4);
        for i in 0..c {
            e = e.attr(match choice(if k == 4 { 6 } else { 4 }) {
                0 => At::Dir("clone", Key::N(Name::id(&plain(2))), None, None),
                1 => clone("a-b"),
                2 => At::Kv(n(&format!("p{i}")), Some(block(i))),
                3 => clone(&format!("c{i}")),
                4 => At::Dir("class", Key::N(n("k")), None, Some(block(i))),
                _ => At::Spread(mark(i)),
            });
        }
        match choice(4) {
            0 => {}
            1 => e = e.kids(vec![txt(20)]),
            2 => e = e.args(quote!(|q|)).kids(vec![txt(20)]),
            _ => e = e.kids(vec![slot("Tab").kids(vec![txt(21)]).node()]),
        }
        want(wrap(k, e));
    }
    fn c12_clone_name() {
        let k = [4, 5][choice(2)];
        let l = choice(8) + 1;
        let key = Name(match choice(3) {
            0 => vec![Part::Id(ident(l))],
            1 => vec![Part::Raw(ident(l))],
            _ => vec![Part::Id(ident(l)), Part::Dash, Part::Id(ident(1))],
        });
        want(wrap(k, El::new(tag(k)).attr(At::Dir("clone", Key::N(key), None, None)).kids(vec![txt(0)])));
    }
    // clones and parameters belong to one component only
    fn c12_nested() {
        let mk = |i: usize, kids: Vec<Node>| {
            let mut e = El::new(if i == 1 && flag() { tag(0) } else { Tag::comp("Com") });
            if e.tag.is_comp() {
                if flag() { e = e.attr(clone(&format!("c{i}"))); }
                if flag() { let m = mark(i); e = e.args(quote!(|#m|)); }
            }
            e.kids(kids)
        };
        let e = mk(2, vec![txt(10)]);
        let f = mk(1, vec![e.node(), txt(11)]);
        let g = mk(3, vec![txt(12)]);
        want(vec![mk(0, vec![f.node(), g.node()]).node()]);
    }
    // slots have parameters and clones of their own
    fn c12_slots() {
        let mk = |i: usize| {
            let mut e = slot("Tab");
            if flag() { e = e.attr(clone(&format!("c{i}"))); }
            if flag() { let m = mark(i); e = e.args(quote!(|#m|)); }
            if flag() { e.kids(vec![txt(10 + i)]) } else { e.kids(vec![]) }
        };
        let kids = vec![mk(0).node(), txt(20), mk(1).node()];
        let mut p = El::new(Tag::comp("Com"));
        if flag() { p = p.attr(clone("p")); }
        if flag() { p = p.args(quote!(|zz9|)); }
        want(vec![p.kids(kids).node()]);
    }
    // many parameters tokens, groups containing bars
    fn c12_long_params() {
        let m = choice(12);
        let ts: Vec<TokenStream> = (0..m).map(|i| {
            let a = mark(i);
            match choice(if i == 5 { 4 } else { 1 }) { 0 => quote!(#a,), 1 => quote!((#a | b),), 2 => quote!({ |x| #a },), _ => quote!([ || #a ],) }
        }).collect();
        want(vec![El::new(tag(4)).args(quote!(|#(#ts)*|)).kids(vec![txt(50)]).node()]);
    }
    fn c12_many_clones() {
        let m = choice(12);
        let mut e = El::new(tag(4));
        for i in 0..m { e = e.attr(clone(&format!("c{i}"))); }
        want(vec![e.kids(vec![txt(0)]).node()]);
    }
    // the original is still there for everything else of the component
    fn c12_order() {
        let mut e = El::new(tag(4));
        for i in 0..3 {
            e = e.attr(match choice(3) { 0 => clone("x"), 1 => At::Kv(n("p"), Some(Val::Block(quote!(x)))), _ => At::Dir("on", Key::N(n("e")), None, Some(block(i))) });
        }
        want(vec![e.kids(vec![txt(9)]).node(), El::new(Tag::html("p")).kids(vec![Node::V(Val::Block(quote!(x)))]).node()]);
    }

    fn c12_long_name() {
        let l = choice(16) + 1;
        let a = At::Dir("clone", Key::N(Name::id(&ident(l))), None, None);
        let e = El::new(tag(4 + choice(2))).attr(a);
        let e = if flag() { e.attr(clone("zzk1")) } else { e };
        want(place(e.args(if flag() { quote!(|zz2|) } else { quote!(||) }).kids(vec![txt(9)]), 0));
    }

    // ---------- C13 ----------
    fn c13_name() {
        let l = choice(5) + 1;
        let s = text(l, UPPER, WORD);
        assume(!one_of(s.as_bytes(), &["Self"]));
        let m = snake(&s);
        assume(!one_of(m.as_bytes(), &UNRAW));
        let mut e = El::new(Tag::Slot(s, m));
        if flag() { e = e.attr(At::Kv(n("a"), Some(block(0)))); }
        want(vec![El::new(tag(4)).kids(vec![e.node()]).node()]);
    }
    fn c13_long_name() {
        let s = ["TabPanelHeader", "URL", "A1B2", "Tab_Panel", "X", "ReactRouterLinkV2", "Loop", "Type", "MOD", "Abc__D", "AsyncFn"][choice(11)];
        let kids: Vec<Node> = (0..choice(3) + 1).map(|i| slot(s).attr(At::Kv(n("a"), Some(block(i)))).node()).collect();
        want(vec![El::new(tag(4)).kids(kids).node()]);
    }
    // groups: every sequence of slots, text and elements
    fn c13_groups() {
        let kids: Vec<Node> = (0..choice(5)).map(|i| match choice(5) {
            0 => slot("Aa").attr(At::Kv(n("a"), Some(block(i)))).node(),
            1 => slot("Bb").attr(At::Kv(n("a"), Some(block(i)))).node(),
            2 => slot("Cc").kids(vec![txt(i)]).node(),
            3 => txt(i),
            _ => El::new(Tag::html("p")).kids(vec![txt(i)]).node(),
        }).collect();
        want(vec![El::new(tag(4)).kids(kids).node()]);
    }
    fn c13_longest() {
        let l = [6, 8, 11, 16, 24][choice(5)];
        let mut s = text(1, UPPER, UPPER);
        let up = [1, 3, l - 2, l - 1, l][choice(5)];
        for i in 1..l {
            s += &if i == up { text(1, UPPER, UPPER) } else { text(1, LOWNUM, LOWNUM) };
        }
        let m = snake(&s);
        let e = El::new(Tag::Slot(s, m));
        want(place(El::new(tag(4 + choice(2))).kids(vec![e.clone().attr(At::Kv(n("a"), Some(block(0)))).node(), txt(1), e.node()]), 0));
    }
    // names that only differ in shape are different slots
    fn c13_similar() {
        let names = ["Tab", "TAB", "TaB", "Tabs", "T", "Tab_"];
        let kids: Vec<Node> = (0..3).map(|i| slot(names[choice(6)]).attr(At::Kv(n("a"), Some(block(i)))).node()).collect();
        want(vec![El::new(tag(4)).kids(kids).node()]);
    }
    // symbolic pairs: the same name gives one list
    fn c13_pair() {
        let a = text(2, UPPER, ALPHA_);
        let b = text(2, UPPER, ALPHA_);
        let same = same(a.as_bytes(), b.as_bytes());
        // decide now, so that the specification below is concrete in it
        let eq = if same { true } else { false };
        let b = if eq { a.clone() } else { b };
        want(vec![El::new(tag(4)).kids(vec![slot(&a).attr(At::Kv(n("a"), Some(block(0)))).node(), txt(2), slot(&b).kids(vec![txt(1)]).node()]).node()]);
    }
    // what slots can carry
    fn c13_content() {
        let mut e = slot("Tab");
        for i in 0..2 {
            match choice(5) {
                0 => e = e.attr(At::Kv(n("a-b"), Some(value(i)))),
                1 => e = e.attr(At::Kv(n("b"), None)),
                2 => e = e.attr(At::Short(n("c-d"))),
                3 => e = e.attr(clone("c")),
                _ => {}
            }
        }
        if flag() { e = e.args(quote!(|q|)).kids(vec![]); }
        if flag() { e = e.kids(vec![txt(5), Node::V(block(6))]); }
        let parent = El::new(tag(4)).attr(At::Kv(n("a"), Some(block(10))));
        let parent = if flag() { parent.args(quote!(|zz11|)) } else { parent };
        want(vec![parent.kids(vec![e.node(), txt(9)]).node()]);
    }
    // slots in slots in slots
    fn c13_nested() {
        let leaf = |i: usize| slot(if flag() { "Tab" } else { "Foo" }).kids(vec![txt(i)]).node();
        let mut v = vec![leaf(0), leaf(1)];
        for d in 0..choice(3) {
            let e = slot(if flag() { "Tab" } else { "Foo" });
            let mut kids = v;
            if flag() { kids.insert(1, txt(10 + d)); }
            v = vec![e.kids(kids).node(), txt(20 + d)];
        }
        want(vec![El::new(tag(4)).kids(v).node()]);
    }
    // slots of the children are not slots of the parent
    fn c13_inner() {
        let inner = El::new(Tag::comp("Foo")).kids(vec![slot("Tab").kids(vec![txt(0)]).node()]).node();
        let inner = if flag() { El::new(Tag::html("div")).kids(vec![inner]).node() } else { inner };
        let mut kids = vec![inner];
        if flag() { kids.push(slot("Tab").kids(vec![txt(1)]).node()); }
        if flag() { kids.insert(0, slot("Tab").kids(vec![txt(2)]).node()); }
        want(vec![El::new(tag(4)).kids(kids).node()]);
    }
    fn c13_many() {
        let m = choice(8);
        let k = choice(3) + 1;
        let kids: Vec<Node> = (0..m).map(|i| slot(["Aa", "Bb", "Cc"][i % k]).attr(At::Kv(n("a"), Some(block(i)))).node()).collect();
        want(vec![El::new(tag(4)).kids(kids).node()]);
    }
}
