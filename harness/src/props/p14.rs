//! C14 root, C15 unsupported constructs, C16 documented syntax, C17 errors stay local.
use super::p09::{dir_comp, dir_el};
use crate::{flat::*, gen::*, judge::*, run::*, soup::{classify, g, i, item, soup, soup_to, toks, T}, spec::*, sym::*, tk};
use proc_macro2::{Literal, TokenStream};
use quote::quote;

fn nm(s: &str) -> Name { Name::new(s) }
fn slot(s: &str, prop: &str) -> El { El::new(Tag::Slot(s.into(), prop.into())) }

fn node(k: usize, j: usize) -> Node {
    match k {
        0 => txt(j),
        1 => Node::V(block(j)),
        2 => El::new(Tag::html("p")).attr(At::Kv(nm("a"), Some(block(j)))).node(),
        3 => El::new(Tag::comp("Foo")).attr(At::Kv(nm("a"), Some(block(j)))).kids(vec![txt(j + 1)]).node(),
        4 => Node::V(Val::Clo(mark(j))),
        5 => El::new(Tag::Custom(nm("x-y"))).kids(vec![txt(j)]).node(),
        _ => Node::V(Val::Fmt(quote!("zz"))),
    }
}

// ---------- C15 ----------
/// brackets with a prefix, wherever a value stands
fn prefixed(p: TokenStream, k: usize) -> TokenStream {
    match k {
        0 => quote!(#p[a]), 1 => quote!(div { #p["a"] }), 2 => quote!(Com { #p["a"] }), 3 => quote!(div a=#p[b];), 4 => quote!(Com a=#p[b];),
            5 => quote!(div class:a=#p[b];), 6 => quote!(Com on:a=#p[b];), 7 => quote!(Com { slot:Tab a=#p[b]; }), _ => quote!(Com |x| { "a" #p[b] }),
    }
}
/// a name no directive has
fn unknown_word(n: usize, known: &[&str]) -> TokenStream {
    let s = text(n, LOW_, LOWNUM);
    assume(!one_of(s.as_bytes(), known));
    tk::id(&s)
}
/// places an element, given its head, stands in
fn place(k: usize, e: TokenStream) -> TokenStream {
    match k {
        0 => e,
        1 => quote!(div { #e }),
        2 => quote!(Com { "a" #e "b" }),
        3 => quote!(Com |x| ( #e )),
        4 => quote!(Com { slot:Tab { #e } }),
        _ => quote!("a" #e p; ),
    }
}
/// the tokens of a child that has no place anywhere
fn bad_literal() -> TokenStream {
    match choice(12) {
        0 => tk::int(&text(2, DIGIT, DIGIT)),
        1 => quote!(1.5),
        2 => quote!(true),
        3 => quote!(false),
        4 => tk::lit(Literal::character('a')),
        5 => tk::lit(Literal::byte_string(b"a")),
        6 => tk::lit("b'a'".parse::<Literal>().unwrap()),
        7 => quote!(-1),
        8 => tk::lit("c\"a\"".parse::<Literal>().unwrap()),
        9 => quote!(1u8),
        10 => quote!(0xff),
        _ => quote!(-2.5e3),
    }
}
/// one that cannot be read as the prefix of brackets that follow
fn number() -> TokenStream {
    match choice(3) {
        0 => tk::int(&text(1, DIGIT, DIGIT)),
        1 => tk::lit(Literal::character('a')),
        _ => quote!(-1.5),
    }
}
/// heads: kinds of elements (5: slot, put in a component by `closed`)
fn head(k: usize) -> TokenStream {
    match k {
        0 => quote!(div),
        1 => quote!(my-el),
        2 => quote!(circle),
        3 => quote!(mfrac),
        4 => quote!(Com),
        5 => quote!(slot:Tab),
        6 => quote!(a::Com<T>),
        _ => quote!(div .a),
    }
}
fn ended(t: TokenStream) -> TokenStream {
    match choice(3) {
        0 => quote!(#t ;),
        1 => quote!(#t { "x" }),
        _ => quote!(#t ()),
    }
}
fn held(k: usize, t: TokenStream) -> TokenStream { if k == 5 { quote!(Com { #t }) } else { t } }

// ---------- C17 ----------
/// `want` occurs in `got` as it is, starting at `from`; the end of the first such place
fn find(got: &[F], from: usize, want: &[F]) -> Option<usize> {
    if want.len() > got.len() {
        return None;
    }
    (from..=got.len() - want.len()).find(|&k| eq(&got[k..k + want.len()], want)).map(|k| k + want.len())
}
/// expansion must report, give one expression, and contain `parts` in this order
fn local(input: TokenStream, parts: Vec<TokenStream>) {
    tell("input", &input);
    for p in &parts {
        tell("kept", p);
    }
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        cover(1);
        check(r.reported(), 4);
        check(r.out.is_some(), 2);
        let o = r.out.as_ref().unwrap();
        // one expression
        check(o.clone().into_iter().count() == 1, 8);
        let got = flat(o);
        let mut at = 0;
        for p in &parts {
            match find(&got, at, &flat(p)) {
                Some(e) => at = e,
                None => check(false, 3),
            }
        }
        // once only
        for p in &parts {
            let p = flat(p);
            let e = find(&got, 0, &p).unwrap();
            check(find(&got, e, &p).is_none(), 6);
        }
    });
}
/// a child with a recoverable error, its own surviving parts
fn broken(k: usize) -> (TokenStream, Vec<TokenStream>) {
    match k {
        0 => (number(), vec![]),
        1 => (quote!(;), vec![]),
        2 => { let s = unknown_word(1, &["f"]); (quote!(#s[zz90]), vec![]) }
        3 => (quote!(b x= ;), vec![]),
        4 => (quote!(b x= y={zz91};), vec![quote!(.r#y({ zz91 }))]),
        5 => (quote!(b attr:c={zz90} y={zz91} { "zz92" }), vec![quote!(.r#y({ zz91 })), quote!("zz92")]),
        6 => (quote!(b zzz:c={zz90} y={zz91} { "zz92" }), vec![quote!(.r#y({ zz91 })), quote!("zz92")]),
        7 => (quote!(Foo zzz:c={zz90} y={zz91} { "zz92" }), vec![quote!(.r#y({ zz91 })), quote!("zz92")]),
        8 => (quote!(Foo on:a:other={zz91} { "zz92" }), vec![quote!("zz92")]),
        9 => (quote!(b class:a:other={zz91} { "zz92" }), vec![quote!("zz92")]),
        10 => (quote!(Foo clone:a={zz90} { "zz92" }), vec![quote!("zz92")]),
        11 => (quote!(b x=q[zz90] { "zz92" }), vec![quote!("zz92")]),
        12 => (quote!(Foo { "zz92" 1 "zz93" }), vec![quote!("zz92"), quote!("zz93")]),
        13 => (quote!(b { "zz92" ; "zz93" }), vec![quote!("zz92"), quote!("zz93")]),
        14 => (quote!(Foo { slot:Tab class:a={b} { "zz92" } }), vec![quote!("zz92")]),
        15 => (quote!(b { "zz92" i }), vec![quote!("zz92"), quote!(::leptos::tachys::html::element::r#i())]),
        16 => (quote!(Foo { "zz92" i y={zz93} }), vec![quote!("zz92"), quote!(.r#y({ zz93 }))]),
        17 => (quote!(b on:"x"={zz91} { "zz92" }), vec![quote!("zz92")]),
        18 => (quote!(Foo clone:a { "zz92" 1 }), vec![quote!("zz92")]),
        _ => (quote!(b x= { "zz92" }), vec![]),
    }
}
const BROKEN: u32 = 19;
/// an attribute with a recoverable error (on elements, on components)
fn broken_attr(k: usize) -> TokenStream {
    match k {
        0 => quote!(w=),
        1 => quote!(-w=),
        2 => quote!(zzz:w={zz80}),
        3 => quote!(class:w:m={zz80}),
        4 => quote!(on:w:m={zz80}),
        5 => quote!(on:"w"={zz80}),
        6 => quote!(w=q[zz80]),
        7 => quote!(style:w=),
        8 => quote!(use:w:m),
        9 => quote!(attr:w:m={zz80}),
        10 => quote!(clone:w={zz80}),
        11 => quote!(zzz:{w}),
        12 => quote!(use:"w"),
        _ => quote!(on:w=),
    }
}
fn good_attr(comp: bool, k: usize, j: usize) -> (TokenStream, TokenStream) {
    let m = mark(j);
    let a = tk::name(&format!("a{j}"));
    let s = format!("a{j}");
    let at = |a: At| a.print();
    match (k, comp) {
        (0, _) => (at(At::Kv(nm(&s), Some(block(j)))), quote!(.#a({#m}))),
        (1, _) => (at(At::Short(nm(&s))), quote!(.#a({#a}))),
        (2, false) => (at(At::Dir("class", Key::N(nm(&s)), None, Some(block(j)))), quote!(.class((#s, {#m})))),
        (2, true) => (at(At::Dir("class", Key::N(nm(&s)), None, Some(block(j)))), quote!(::leptos::tachys::html::class::class((#s, {#m})))),
        (_, false) => (at(At::Spread(m.clone())), quote!(.add_any_attr(#m))),
        (_, true) => (at(At::Spread(m.clone())), quote!(#m)),
    }
}
/// a container holding `t`
fn hold(k: usize, t: TokenStream) -> TokenStream {
    match k {
        0 => t,
        1 => quote!(div { #t }),
        2 => quote!(Com { #t }),
        3 => quote!(Com |x| ( #t )),
        4 => quote!(Com { slot:Tab { #t } }),
        5 => quote!("zz70" div a={zz71} { "zz72" Com { #t } "zz73" } "zz74"),
        _ => quote!(my-el { p { #t } }),
    }
}

// ---------- C16 ----------
fn doc_attr(comp: bool, j: usize) -> At {
    if comp { dir_comp(choice(14), j) } else { dir_el(choice(14), j) }
}
fn doc_el(k: usize) -> El { El::new(tag(k)) }

entries! {
    // ---------- C14 ----------
    fn c14_shape() {
        let m = choice(5);
        want((0..m).map(|j| node(choice(5), 2 * j)).collect());
    }
    fn c14_one() {
        let e = match choice(8) {
            0 => Node::V(Val::Lit(tk::st(&{ let l = choice(4); text(l, PRINT, PRINT) }))),
            1 => Node::V(Val::Block({ let l = choice(3) + 1; tk::id(&plain(l)) })),
            2 => Node::V(Val::Block(TokenStream::new())),
            3 => El::new(Tag::html("div")).kids(vec![node(choice(7), 0), node(choice(7), 4)]).node(),
            4 => El::new(Tag::comp("Com")).args(quote!(|x|)).kids(vec![node(choice(7), 0)]).node(),
            5 => El::new(Tag::comp("Com")).kids(vec![slot("Tab", "tab").node(), slot("Tab", "tab").node()]).node(),
            6 => El::new(Tag::html("p")).kids(vec![]).node(),
            _ => node(choice(7), 0),
        };
        want(vec![e]);
    }
    fn c14_many() {
        let m = choice(40);
        let k = choice(7);
        want((0..m).map(|j| node((j + k) % 7, 2 * j)).collect());
    }
    // symbolic names of neighbours
    fn c14_names() { names(2); }
    fn t14_names3() { names(3); }
    // a slot at the root is an error, wherever it stands and whatever it holds
    fn c14_slots() {
        let m = choice(4) + 1;
        let at = choice(m as u32);
        let v: Vec<Node> = (0..m).map(|j| if j == at {
            let mut e = slot("Tab", "tab");
            if flag() { e = e.attr(At::Kv(nm("a"), Some(block(1)))); }
            if flag() { e = e.kids(vec![txt(2)]); }
            e.node()
        } else { match choice(5) { 0 => txt(j), 1 => El::new(Tag::html("p")).node(), 2 => El::new(Tag::comp("Foo")).kids(vec![]).node(), 3 => slot("Foo", "foo").node(), _ => Node::V(block(j)) } }).collect();
        want_error(print(&v));
    }
    fn c14_slot_name() {
        let l = choice(4) + 1;
        let n = tk::id(&text(l, ALPHA_, WORD));
        want_error(match choice(4) { 0 => quote!(slot:#n;), 1 => quote!("a" slot:#n { "b" }), 2 => quote!(slot:#n {} slot:#n;), _ => quote!(p; slot:#n a={b}; {c}) });
    }
    // one expression, whatever the input: its only token tree is a block
    fn c14_expression() {
        let t = toks(&soup_to(b"aB;s{[*(", 3, 0));
        tell("input", &t);
        expand(t, |r| {
            tell_res(&r);
            note_res(&r);
            if r.reported() { return; }
            cover(1);
            let v: Vec<proc_macro2::TokenTree> = r.out.unwrap().into_iter().collect();
            check(v.len() == 1, 8);
            check(matches!(&v[0], proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace), 9);
        });
    }

    // ---------- C15 ----------
    fn c15_end() { classify(soup(b"D{;s", 5, 0), false); }
    fn c15_root() { classify(soup_to(b"aBs{([*;|.", 3, 0), false); }
    fn c15_attr() {
        let h = [i("p"), i("Com")][choice(2)].clone();
        let mut v = vec![h];
        v.extend(soup_to(b"a=:-.s[~", 3, 0));
        v.push(T::P(';'));
        classify(v, false);
    }
    fn c15_body() {
        let mut v = vec![[i("p"), i("Com")][choice(2)].clone()];
        v.push(g('{', soup_to(b"aBS:;s", 4, 0)));
        classify(v, false);
    }
    // unknown directives, of any name
    fn c15_directive() {
        let k = choice(8);
        let l = choice(5) + 1;
        let known: &[&str] = match k { 5 => &["clone"], 4 | 6 => &["class", "style", "prop", "on", "use", "attr", "clone"], _ => &["class", "style", "prop", "on", "use"] };
        let d = unknown_word(l, known);
        let h = head(k);
        let kv = match choice(6) { 0 => quote!(#d:a={b}), 1 => quote!(#d:a), 2 => quote!(#d:{a}), 3 => quote!(#d:"a"={b}), 4 => quote!(#d:a:undelegated={b}), _ => quote!(x={y} #d:a-b=1 {z}) };
        want_error(held(k, quote!(#h #kv { "x" })));
    }
    // long names around the known ones
    fn c15_directive_near() {
        let k = choice(8);
        let d = ["classs", "clas", "styles", "props", "ons", "uses", "attrs", "clones", "Class", "ON", "o", "onn", "bind", "let", "key", "slot", "_on", "on_"][choice(18)];
        let (d, h) = (tk::id(d), head(k));
        want_error(held(k, quote!(#h #d:a={b} { "x" })));
    }
    // directives that exist, but not here
    fn c15_misplaced() {
        let (k, t) = match choice(3) {
            0 => { let k = choice(4); let h = head(k); (k, match choice(4) { 0 => quote!(#h attr:a={b}), 1 => quote!(#h attr:{a}), 2 => quote!(#h clone:a), _ => quote!(#h clone:{a}) }) }
            1 => { let d = tk::id(["class", "style", "prop", "on", "use", "attr"][choice(6)]); (5, match choice(4) { 0 => quote!(slot:Tab #d:a={b}), 1 => quote!(slot:Tab #d:{a}), 2 => quote!(slot:Tab #d:a), _ => quote!(slot:Tab x={y} #d:a={b} clone:q) }) }
            _ => { let h = tk::p('#'); (5, match choice(5) { 0 => quote!(slot:Tab .a), 1 => quote!(slot:Tab #h a), 2 => quote!(slot:Tab {..a}), 3 => quote!(slot:Tab a=1 {..a}), _ => quote!(slot:Tab .a-b a=1) }) }
        };
        want_error(held(k, ended(t)));
    }
    fn c15_modifier() {
        let k = [0, 1, 4][choice(3)];
        let h = head(k);
        let l = choice(5) + 1;
        let t = match choice(8) {
            0 => { let m = unknown_word(l, &["undelegated"]); quote!(#h on:a:#m={b}) }
            1 => { let m = unknown_word(l, &["undelegated"]); quote!(#h on:{a}:#m) }
            d => {
                let m = tk::id(&if flag() { "undelegated".to_string() } else { text(l, LOW_, LOWNUM) });
                let d = tk::id(["class", "style", "prop", "use", "class", "attr"][d - 2]);
                if flag() { quote!(#h #d:a:#m={b}) } else { quote!(#h #d:{a}:#m) }
            }
        };
        want_error(held(k, ended(t)));
    }
    fn c15_modifier_near() {
        let k = [0, 4][choice(2)];
        let h = head(k);
        let m = tk::id(["undelegate", "delegated", "Undelegated", "undelegatedd", "capture", "once", "passive"][choice(7)]);
        want_error(held(k, ended(quote!(#h on:a:#m={b}))));
    }
    fn c15_clone() {
        let k = [4, 5][choice(2)];
        let h = head(k);
        let t = match choice(7) {
            0 => quote!(clone:a={b}), 1 => quote!(clone:{a}), 2 => quote!(clone:a=1), 3 => quote!(clone:"a"), 4 => quote!(clone:a:undelegated), 5 => quote!(clone:a=[b]), _ => quote!(clone:a={}),
        };
        want_error(held(k, if flag() { quote!(#h #t { "x" }) } else { quote!(#h x=1 #t;) }));
    }
    // string keys where a name is needed
    fn c15_string_key() {
        let k = [0, 1, 4][choice(3)];
        let h = head(k);
        let l = choice(3);
        let s = tk::st(&text(l, TEXT, TEXT));
        let t = match choice(4) { 0 => quote!(on:#s={b}), 1 => quote!(use:#s={b}), 2 => quote!(use:#s), _ => quote!(on:#s:undelegated={b}) };
        want_error(held(k, ended(quote!(#h #t))));
    }
    // prefixes of bracket values
    fn c15_prefix() {
        let l = choice(4) + 1;
        let w = text(l, ALPHA_, WORD);
        assume(!one_of(w.as_bytes(), &["f"]));
        let p = tk::id(&w);
        want_error(prefixed(p, choice(9)));
    }
    fn c15_prefix_word() {
        let l = [6, 7, 8, 12, 16][choice(5)];
        let w = text(l, ALPHA_, WORD);
        want_error(prefixed(tk::id(&w), [0, 1, 3, 6][choice(4)]));
    }
    fn c15_prefix_raw() {
        let l = choice(5) + 1;
        let w = text(l, ALPHA_, WORD);
        assume(!one_of(w.as_bytes(), &UNRAW));
        assume(!one_of(w.as_bytes(), &["f"]));
        want_error(prefixed(tk::rawid(&w), choice(9)));
    }
    fn c15_child_literal() {
        let b = bad_literal();
        let k = choice(6);
        want_error(place(k, match choice(3) { 0 => b, 1 => quote!("a" #b), _ => quote!(#b "a") }));
    }
    // a missing value after `=`, before everything that is not one
    fn c15_missing_value() {
        let k = choice(6);
        let h = head(k);
        let key = match choice(if k == 5 { 3 } else { 6 }) {
            0 => quote!(a), 1 => quote!(a-b), 2 => quote!(--a), 3 => quote!(class:a), 4 => quote!(on:a), _ => quote!(style:"a"),
        };
        let t = match choice(8) {
            0 => quote!(#h #key= ;), 1 => quote!(#h #key= b;), 2 => quote!(#h #key= b=1;), 3 => quote!(#h #key=), 4 => quote!(#h #key= ("x")),
            5 => quote!(#h #key= .b;), 6 => quote!(#h #key= = 1;), _ => { let l = choice(3) + 1; let w = unknown_word(l, &["true", "false"]); quote!(#h #key=#w;) }
        };
        want_error(held(k, t));
    }
    // stray punctuation
    fn c15_stray() {
        const P: Set = Set::empty().with(b'!').with(b'$').with(b'%').with(b'&').with(b'*').with(b'+').with(b',').with(b'/').with(b'<')
            .with(b'>').with(b'?').with(b'@').with(b'^').with(b'~').with(b'=');
        let p = tk::p(byte(P) as char);
        want_error(match choice(12) {
            0 => quote!(#p), 1 => quote!("a" #p), 2 => quote!(#p "a"), 3 => quote!(div #p;), 4 => quote!(div a=1 #p;), 5 => quote!(div { #p }),
            6 => quote!(Com { "a" #p "b" }), 7 => quote!(Com a={b} #p { "a" }), 8 => quote!(Com { slot:Tab { #p } }), 9 => quote!(Com { slot:Tab a=1 #p; }),
            10 => quote!(div .a #p;), _ => quote!(Com |x| { "a" #p }),
        });
    }
    // stray tokens of every kind between attributes and children
    fn c15_stray_tokens() {
        let k = choice(6);
        let h = head(k);
        let s = match choice(9) {
            0 => quote!("a"), 1 => quote!(1), 2 => quote!(,), 3 => quote!([a]), 4 => quote!(.), 5 => quote!(:), 6 => quote!(a:), 7 => quote!({a b}), _ => quote!(=),
        };
        want_error(held(k, match choice(3) { 0 => quote!(#h #s;), 1 => quote!(#h x={y} #s;), _ => quote!(#h #s { "a" };) }));
    }
    // elements without an end
    fn c15_unterminated() {
        let k = choice(6);
        let h = head(k);
        let t = match choice(7) { 0 => quote!(), 1 => quote!(a), 2 => quote!(a=1), 3 => quote!({a}), 4 => quote!(a=[b] c-d="e"), 5 => quote!(a={b} {c}), _ => quote!(a="s") };
        let e = quote!(#h #t);
        want_error(match choice(if k == 5 { 2 } else { 5 }) {
            0 => if k == 5 { quote!(Com { #e }) } else { e },
            1 => quote!(Com { "a" #e }), 2 => quote!(div { p; #e }), 3 => quote!(Com |x| ( #e )), _ => quote!(Com { slot:Tab { #e } }),
        });
    }
    // words that follow each other without an end
    fn c15_unterminated_names() {
        let (a, b) = (text(2, LOWER, LOWER), text(1, LOWER, LOWER));
        let (a, b) = (tk::id(&a), tk::id(&b));
        want_error(match choice(4) { 0 => quote!(#a), 1 => quote!(#a #b), 2 => quote!(Com { #a #b=1 }), _ => quote!(div { "x" #a .#b }) });
    }
    fn c15_closure_args() {
        let k = choice(6);
        let h = head(k);
        let a = match choice(4) { 0 => quote!(|x|), 1 => quote!(||), 2 => quote!(|(a, b): C|), _ => quote!(|_|) };
        want_error(held(k, match choice(6) {
            0 => quote!(#h #a), 1 => quote!(#h #a;), 2 => quote!(#h |x), 3 => quote!(#h |), 4 => quote!(#h #a "x"),
            _ => { if k >= 4 { exit() } quote!(#h #a { "x" }) }
        }));
    }
    fn c15_xml_args() {
        let k = choice(4);
        let h = head(k);
        let l = choice(3) + 1;
        let w = tk::id(&plain(l));
        let b = match choice(4) { 0 => quote!({}), 1 => quote!(("x")), 2 => quote!({ "x" }), _ => quote!({ #w; }) };
        want_error(place(choice(6), quote!(#h a={b} |#w| #b)));
    }
    // slots inside anything that is not a component or slot
    fn c15_slot_place() {
        let k = choice(4);
        let h = head(k);
        let s = match choice(4) { 0 => quote!(slot:Tab;), 1 => quote!(slot:Tab { "x" }), 2 => quote!("a" slot:Tab a=1;), _ => quote!(slot:Tab; p; slot:Foo;) };
        want_error(place(choice(5), quote!(#h { #s })));
    }
    fn c15_slot_name() {
        let l = choice(3) + 1;
        let n = match choice(5) {
            0 => tk::id(&text(l, LOW_, WORD)),
            1 => { let a = tk::id(&text(l, ALPHA_, WORD)); quote!(a::#a) }
            2 => quote!(my-Tab),
            3 => quote!(::Tab),
            _ => quote!(a::b::Tab<T>),
        };
        let e = match choice(3) { 0 => quote!(slot:#n;), 1 => quote!(slot:#n { "a" }), _ => quote!("b" slot:#n a=1; "c") };
        want_error(if flag() { quote!(Com { #e }) } else { quote!(Com { slot:Tab { #e } }) });
    }
    // what is not an attribute shorthand is children, and what follows children is another node
    fn c15_short() {
        let k = choice(5);
        let h = head(k);
        let l = choice(3) + 1;
        let w = tk::id(&text(l, LOW_, LOWNUM));
        want_error(match choice(5) { 0 => quote!(#h {#w}), 1 => quote!(#h {#w.b};), 2 => quote!(#h {..#w}), 3 => quote!(#h { #w + 1 }), _ => quote!(#h {#w #w};) });
    }
    fn c15_many_errors() {
        // an error stays one, however much correct input surrounds it
        let m = choice(12);
        let at = choice(m as u32 + 1);
        let mut o = TokenStream::new();
        for j in 0..=m {
            if j == at { o.extend(match choice(6) { 0 => bad_literal(), 1 => quote!(;), 2 => quote!(p xx:a={b};), 3 => quote!(Com { slot:tab; }), 4 => quote!(p a= ;), _ => quote!(p { slot:Tab; }) }); }
            o.extend(node(j % 7, 2 * j).print());
        }
        want_error(o);
    }

    // ---------- C16 ----------
    fn c16_end() { classify(soup(b"D{;s", 6, 0), true); }
    fn c16_root() { classify(soup_to(b"aBs{([*;|", 4, 0), true); }
    fn c16_attr() {
        let h = [i("p"), i("Com")][choice(2)].clone();
        let mut v = vec![h];
        v.extend(soup_to(b"a=:-.s[~n", 3, 0));
        v.push(T::P(';'));
        classify(v, true);
    }
    fn c16_dir() {
        let mut v = vec![[i("p"), i("Com")][choice(2)].clone(), item(b"coputtk"[choice(7)], 0), T::P(':')];
        v.extend(soup(b"as-~:=U", choice(4), 10));
        v.push(T::P(';'));
        classify(v, true);
    }
    fn c16_body() {
        let mut v = vec![[i("p"), i("Com")][choice(2)].clone()];
        v.push(g('{', soup_to(b"aBS:;s", 5, 0)));
        classify(v, true);
    }
    // every pair of attributes on every element, with everything else around
    fn c16_attrs() {
        let k = choice(6);
        let mut e = doc_el(k);
        for j in 0..2 {
            e = e.attr(if k == 5 { match choice(5) { 0 => At::Kv(nm("a"), Some(value(j))), 1 => At::Kv(nm("b-c"), None), 2 => At::Short(nm("d-e")), 3 => At::Dir("clone", Key::N(nm("c")), None, None), _ => At::Kv(nm("type"), Some(block(j))) } } else { doc_attr(k == 4, j) });
        }
        if k != 5 && flag() { e = e.sels(vec![Sel::Class(nm("a-b")), Sel::Id(nm("c"))]); }
        let e = e.kids(vec![txt(5)]);
        want_clean(print(&if k == 5 { vec![El::new(tag(4)).kids(vec![e.node()]).node()] } else { vec![e.node()] }));
    }
    // names of attributes, tags, classes, directives: any word, keywords too
    fn c16_names() {
        let l = choice(8) + 1;
        let n = Name::id(&ident(l));
        let k = choice(5);
        let t = n.print();
        let h = head(k);
        let p = tk::p('#');
        want_clean(match choice(12) {
            0 => quote!(#h #t;), 1 => quote!(#h #t={b};), 2 => quote!(#h {#t};), 3 => quote!(#h .#t;), 4 => quote!(#h #p #t;), 5 => quote!(#h class:#t={b};),
            6 => quote!(#h on:#t={b};), 7 => quote!(#h use:#t;), 8 => quote!(#h prop:{#t};), 9 => quote!(Com clone:#t { "a" }),
            10 => { let m = quote!(#t-x); quote!(#h data-#m=1;) }
            _ => quote!(#h style:#t:undelegated={b};).into_iter().take(0).collect::<TokenStream>().into_iter().chain(quote!(#h on:#t:undelegated={b};)).collect(),
        });
    }
    fn c16_tags() {
        let l = choice(7) + 1;
        let w = ident(l);
        assume(!one_of(w.as_bytes(), &["slot", "true", "false"]));
        let t = tk::id(&w);
        want_clean(match choice(8) {
            0 => quote!(#t;), 1 => quote!(#t { "a" }), 2 => quote!(#t ("a")), 3 => quote!(#t.a;), 4 => quote!(#t a={b};), 5 => quote!(#t-x;), 6 => quote!(div { #t; #t {} }), _ => quote!(#t {..x};),
        });
    }
    fn c16_components() {
        let l = choice(5) + 1;
        let w = text(l, UPPER, WORD);
        assume(!one_of(w.as_bytes(), &["Self", "Super", "Crate"]));
        let t = tk::id(&w);
        want_clean(match choice(10) {
            0 => quote!(#t;), 1 => quote!(#t { "a" }), 2 => quote!(#t |x| ("a")), 3 => quote!(#t.a;), 4 => quote!(#t a={b};), 5 => quote!(#t<T>;), 6 => quote!(#t::<T, 'a> a;),
            7 => quote!(a::#t;), 8 => quote!(::a::#t<T> { "b" }), _ => quote!(Com { slot:#t; slot:#t { "a" } }),
        });
    }
    // every literal as a value
    fn c16_literals() {
        let k = choice(6);
        let h = head(k);
        let v = match choice(14) {
            0 => tk::st(&{ let l = choice(3); text(l, PRINT, PRINT) }), 1 => tk::int(&text(2, DIGIT, DIGIT)), 2 => quote!(-1), 3 => quote!(1.5), 4 => quote!(true), 5 => quote!(false), 6 => tk::lit(Literal::character('a')),
            7 => tk::lit(Literal::byte_string(b"a")), 8 => tk::lit("b'a'".parse::<Literal>().unwrap()), 9 => tk::lit("r#\"a\"#".parse::<Literal>().unwrap()), 10 => quote!(1u8), 11 => quote!(0xff_u16), 12 => quote!(-1.5e-3f32), _ => tk::lit("c\"a\"".parse::<Literal>().unwrap()),
        };
        let t = match choice(if k == 5 { 1 } else { 3 }) { 0 => quote!(a=#v), 1 => quote!(class:a=#v), _ => quote!(on:b=#v c-d=#v) };
        want_clean(held(k, quote!(#h #t { "x" })));
    }
    // a view of every construct, three levels deep
    fn c16_deep() {
        let mk = |d: usize, kids: Vec<Node>| {
            let mut e = doc_el(choice(5));
            let c = e.tag.is_comp();
            if flag() { e = e.sels(vec![Sel::Class(nm("a"))]); }
            if flag() { e = e.attr(At::Kv(nm("a"), Some(value(d)))); }
            if c { if flag() { e = e.args(quote!(|x|)); } }
            let mut kids = kids;
            if c { if flag() { kids.push(slot("Tab", "tab").kids(vec![txt(d)]).node()); } }
            e.body = if d % 2 == 0 { Body::Brace(kids) } else { Body::Paren(kids) };
            e.node()
        };
        let v = vec![mk(0, vec![txt(9)]), txt(8)];
        want_clean(print(&[mk(1, v)]));
    }
    fn c16_deepest() {
        let d = choice(12);
        let mut v = vec![txt(0)];
        for j in 0..d {
            let k = if j < 5 { choice(3) } else { j % 3 };
            v = vec![match k { 0 => El::new(tag(0)).kids(v).node(), 1 => El::new(tag(4)).args(quote!(|x|)).kids(v).node(), _ => El::new(tag(4)).kids(vec![slot("Tab", "tab").kids(v).node()]).node() }];
        }
        want_clean(print(&v));
    }
    fn c16_long() {
        let m = choice(30);
        let mut e = El::new(if flag() { tag(0) } else { tag(4) });
        let c = e.tag.is_comp();
        for j in 0..m { e = e.attr(if c { dir_comp(j % 14, j) } else { dir_el(j % 14, j) }); }
        want_clean(print(&[e.kids((0..m).map(|j| node(j % 7, 2 * j)).collect()).node()]));
    }

    // ---------- C17 ----------
    // a broken child between two good ones, in every container
    fn c17_child() {
        let (a, b) = (node(choice(6), 0), node(choice(6), 4));
        let (bad, parts) = broken(choice(BROKEN) as usize);
        let (x, y) = (a.print(), b.print());
        let mut all = vec![a.expect()];
        all.extend(parts);
        all.push(b.expect());
        local(hold([0, 2][choice(2)], quote!(#x #bad #y)), all);
    }
    fn c17_where() {
        let k = choice(7);
        let (a, b) = (node([0, 2, 3][choice(3)], 0), node([0, 2, 3][choice(3)], 4));
        let (bad, parts) = broken(choice(BROKEN) as usize);
        let (x, y) = (a.print(), b.print());
        let mut all = if k == 5 { vec![quote!("zz70"), quote!(.r#a({ zz71 })), quote!("zz72")] } else { vec![] };
        all.push(a.expect());
        all.extend(parts);
        all.push(b.expect());
        if k == 5 { all.extend([quote!("zz73"), quote!("zz74")]); }
        local(hold(k, quote!(#x #bad #y)), all);
    }
    // two broken children
    fn c17_two() {
        let k = choice(3);
        let (b1, _) = broken(choice(10) as usize);
        let (b2, _) = broken(choice(10) as usize);
        let v: Vec<Node> = (0..3).map(|j| node(j + k, 4 * j)).collect();
        let (x, y, z) = (v[0].print(), v[1].print(), v[2].print());
        let t = match choice(3) { 0 => quote!(#b1 #x #y #b2 #z), 1 => quote!(#x #b1 #y #b2 #z), _ => quote!(#x #b1 #b2 #y #z) };
        local(hold(k, t), v.iter().map(|n| n.expect()).collect());
    }
    // a broken attribute between good ones
    fn c17_attr() {
        let comp = flag();
        let (a, x) = good_attr(comp, choice(4), 0);
        let k = choice(14);
        let bad = broken_attr(k);
        // what follows the `=` of a missing value is not a value
        let (b, y) = good_attr(comp, if [0, 1, 7, 13].contains(&k) { [0, 2][choice(2)] } else { choice(4) }, 1);
        let mut parts = vec![];
        // attributes, directives and spreads are applied in groups: order is C09's and C10's
        let h = if comp { quote!(Com) } else { quote!(div) };
        let t = quote!(#h #a #bad #b { "zz60" });
        let kids = quote!("zz60");
        parts.push(x);
        parts.push(y);
        parts.push(kids);
        let t = if flag() { quote!("zz61" #t "zz62") } else { t };
        unordered(t, parts);
    }
    fn c17_slot_attr() {
        let k = choice(7);
        let bad = match k { 0 => quote!(w=), 1 => quote!(class:w={zz80}), 2 => quote!({..zz80}), 3 => quote!(clone:w={zz80}), 4 => quote!(w=q[zz80]), 5 => quote!(on:w={zz80}), _ => quote!(zzz:w) };
        let (a, x) = good_attr(true, choice(2), 0);
        let (b, y) = good_attr(true, if k == 0 { 0 } else { choice(2) }, 1);
        unordered(quote!(Com { slot:Tab #a #bad #b { "zz60" } slot:Foo v={zz61}; "zz62" }), vec![x, y, quote!("zz60"), quote!(.r#v({ zz61 })), quote!("zz62")]);
    }
    // a missing terminator at the end of a block
    fn c17_end() {
        let k = choice(7);
        let e = match choice(4) {
            0 => El::new(tag(choice(5))),
            1 => El::new(tag(choice(5))).attr(At::Kv(nm("a"), Some(block(40)))),
            2 => El::new(tag(choice(5))).sels(vec![Sel::Class(nm("a"))]),
            _ => El::new(Tag::comp("Com")).attr(At::Dir("class", Key::N(nm("a")), None, Some(block(40)))),
        };
        let a = node([0, 2, 3][choice(3)], 0);
        let v: Vec<proc_macro2::TokenTree> = e.print().into_iter().collect();
        // without the `;`
        let e2: TokenStream = v[..v.len() - 1].iter().cloned().collect();
        let x = a.print();
        let mut all = if k == 5 { vec![quote!("zz70"), quote!(.r#a({ zz71 })), quote!("zz72")] } else { vec![] };
        all.push(a.expect());
        all.push(e.node().expect());
        if k == 5 { all.extend([quote!("zz73"), quote!("zz74")]); }
        local(hold(k, quote!(#x #e2)), all);
    }
    // what stands before any error at all is still there
    fn c17_before() {
        let a = node(choice(6), 0);
        let x = a.print();
        let bad = toks(&soup_to(b"-=:.|,", 2, 50));
        let k = [1, 2, 3, 4][choice(4)];
        let t = hold(k, quote!(#x , #bad));
        local(quote!("zz60" #t "zz61"), vec![quote!("zz60"), a.expect(), quote!("zz61")]);
    }
    fn c17_many() {
        let m = choice(10) + 2;
        let at = choice(m as u32);
        let (bad, _) = broken([0, 1, 3, 6, 12][choice(5)]);
        let v: Vec<Node> = (0..m).map(|j| node(j % 6, 4 * j + 100)).collect();
        let mut t = TokenStream::new();
        for (j, n) in v.iter().enumerate() {
            t.extend(n.print());
            if j == at { t.extend(bad.clone()); }
        }
        local(hold([0, 1, 2][choice(3)], t), v.iter().map(|n| n.expect()).collect());
    }
}

fn unordered(input: TokenStream, parts: Vec<TokenStream>) {
    tell("input", &input);
    for p in &parts {
        tell("kept", p);
    }
    expand(input, move |r| {
        tell_res(&r);
        note_res(&r);
        cover(1);
        check(r.reported(), 4);
        check(r.out.is_some(), 2);
        let o = r.out.as_ref().unwrap();
        check(o.clone().into_iter().count() == 1, 8);
        let got = flat(o);
        for p in &parts {
            let p = flat(p);
            match find(&got, 0, &p) {
                Some(e) => check(find(&got, e, &p).is_none(), 6),
                None => check(false, 3),
            }
        }
    });
}

fn names(m: usize) {
    want((0..m).map(|j| {
        let s = plain(1);
        assume(!one_of(s.as_bytes(), &["a", "g"]));
        let mut e = El::new(Tag::html(&s));
        if choice(2) == 0 { e = e.kids(vec![txt(j)]); }
        e.node()
    }).collect());
}
