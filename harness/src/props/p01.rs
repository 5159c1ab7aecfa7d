//! C01 totality, C02 conservation of user code.
use crate::{gen::*, judge::*, soup::*, spec::*, sym::*, tk};
use proc_macro2::{Literal, Punct, Spacing, TokenStream, TokenTree};
use quote::quote;

/// menu of nearly every token a view can have
pub const ALL: &[u8] = b"aBsn-=:.;|{([~*";
pub const ATTR: &[u8] = b"aBsn-=:.#;|{([~*,<";
const VALUE: &[u8] = b"afsn-[{(;T";

/// soup in a context: the tokens around it are valid
pub fn within(k: usize, s: TokenStream) -> TokenStream {
    match k {
        0 => s,
        1 => quote!(div #s ;),
        2 => quote!(Com #s ;),
        3 => quote!(Com { slot:Tab #s ; }),
        4 => quote!(div { #s }),
        5 => quote!(Com |x| ( #s )),
        6 => quote!(Com { slot:Tab { #s } }),
        7 => quote!(div a= #s ;),
        8 => quote!(Com a= #s ;),
        9 => quote!(div class: #s ;),
        10 => quote!(Com on: #s ;),
        11 => quote!(Com { slot: #s }),
        12 => quote!(my-el #s { "a" }),
        13 => quote!(Com |#s),
        14 => quote!(Com < #s),
        15 => quote!(Com { slot:Tab clone: #s ; }),
        16 => quote!(p:: #s),
        17 => quote!(div .a #s),
        18 => quote!(Com |#s| { "a" }),
        _ => quote!(div a={b} #s),
    }
}
pub const NCTX: u32 = 20;

/// every printable ASCII punctuation character, joint or not
pub fn punct() -> TokenStream {
    const P: Set = Set::empty()
        .with(b'!').with(b'#').with(b'$').with(b'%').with(b'&').with(b'*').with(b'+').with(b',').with(b'-').with(b'.').with(b'/')
        .with(b':').with(b';').with(b'<').with(b'=').with(b'>').with(b'?').with(b'@').with(b'^').with(b'|').with(b'~');
    let c = byte(P) as char;
    TokenTree::Punct(Punct::new(c, if flag() { Spacing::Joint } else { Spacing::Alone })).into()
}
/// a word of any length up to 6 that starts with a letter or `_`
fn any_word() -> TokenStream {
    let n = choice(6) + 1;
    let s = text(n, ALPHA_, WORD);
    if flag() { tk::id(&s) } else {
        assume(!crate::flat::one_of(s.as_bytes(), &UNRAW));
        tk::rawid(&s)
    }
}
fn any_lit() -> TokenStream {
    match choice(16) {
        0 => tk::int("0"),
        1 => tk::int("1u8"),
        2 => tk::int("0xff_u64"),
        3 => tk::int("1e9"),
        4 => tk::int("3.25"),
        5 => tk::int("1_000i32"),
        6 => tk::lit(Literal::character('"')),
        7 => tk::lit(Literal::byte_character(b'\'')),
        8 => tk::lit(Literal::byte_string(b"zz\0")),
        9 => tk::int("c\"cc\""),
        10 => tk::int("r#\"raw\"#"),
        11 => tk::int("br##\"raw\"##"),
        12 => tk::lit(Literal::string("\u{e9}\n\t\\\"\u{1f600}")),
        13 => tk::int("-1"),
        14 => tk::int("1abc"),
        _ => quote!(true),
    }
}
fn special_name() -> TokenStream {
    match choice(12) {
        0 => tk::id("_"),
        1 => tk::id("self"),
        2 => tk::id("Self"),
        3 => tk::id("super"),
        4 => tk::id("crate"),
        5 => tk::p('-'),
        6 => quote!(- -),
        7 => quote!(r#type),
        8 => quote!(a-r#b),
        9 => quote!(-1),
        10 => tk::id("\u{e9}t\u{e9}"),
        _ => quote!(a- - 0 b),
    }
}
/// the input parts of a long valid view, one token tree each
pub fn long_view() -> Vec<TokenTree> {
    let h = tk::p('#');
    quote!(
        div .a #h b-c class="zz0" data-x=[zz1] {k} {..zz2} on:click:undelegated={zz3+1} style:"--v"=f["{}", zz4] {
            "zz5" {zz6+1} br;
            p::Com<T> clone:q attr:x-y=1 prop:{v} use:d |(a, b)| { slot:Tab l=2 { "zz7" } slot:Tab; "zz8" }
        }
        "zz9"
    )
    .into_iter()
    .collect()
}
/// applies one symbolic edit somewhere in a token list, descending into groups
pub fn edit(v: Vec<TokenTree>) -> Vec<TokenTree> {
    let n = v.len();
    if n == 0 {
        return tk_list(punct());
    }
    let k = choice(n as u32);
    let mut v = v;
    match choice(6) {
        0 => {
            v.remove(k);
        }
        1 => {
            let t = v[k].clone();
            v.insert(k, t);
        }
        2 if k + 1 < n => v.swap(k, k + 1),
        3 => v.insert(k, tk_list(punct()).remove(0)),
        4 => v.truncate(k),
        _ => {
            if let TokenTree::Group(g) = &v[k] {
                let inner = edit(g.stream().into_iter().collect());
                v[k] = proc_macro2::Group::new(g.delimiter(), inner.into_iter().collect()).into();
            } else {
                let w = text(choice(3) + 1, ALPHA_, WORD);
                // not a mark
                assume(w.as_bytes()[0] | 32 != b'z');
                v[k] = tk_list(tk::id(&w)).remove(0);
            }
        }
    }
    v
}
fn tk_list(t: TokenStream) -> Vec<TokenTree> { t.into_iter().collect() }

entries! {
    // ----- C01 -----
    fn c01_root() { total(toks(&soup_to(ALL, 3, 0))); }
    fn c01_root4() { total(toks(&soup(b"aB-=:.;|{~", 4, 0))); }
    fn c01_in() {
        let k = choice(NCTX) as usize;
        total(within(k, toks(&soup_to(ATTR, 2, 0))));
    }
    fn c01_attr3() { total(within([1, 2, 3][choice(3)], toks(&soup(b"a-=:.|{~*sn", 3, 0)))); }
    fn c01_dir4() {
        let d = any_dir();
        total(within([1, 2, 3][choice(3)], { let s = toks(&soup(b"a-s~:=n", 3, 0)); quote!(#d : #s) }));
    }
    fn c01_child3() { total(within([4, 5, 6][choice(3)], toks(&soup(b"aBS:;s[", 3, 0)))); }
    fn t01_child4() { total(within([4, 5, 6][choice(3)], toks(&soup(b"aBS:;s[", 4, 0)))); }
    fn c01_value3() { total(within([7, 8][choice(2)], toks(&soup_to(VALUE, 3, 0)))); }
    // any punctuation anywhere in a short view
    fn c01_punct() {
        let (a, b, c) = (punct(), punct(), punct());
        let w = tk::id(&text(1, LOW_, LOWNUM));
        let u = tk::id(&text(1, UPPER, UPPER));
        total(match choice(8) {
            0 => quote!(#a #b #c),
            1 => quote!(#w #a #b),
            2 => quote!(#u #a #b #w),
            3 => quote!(#w #a #w #b ;),
            4 => quote!(#u #w #a #b {c}),
            5 => quote!(#u { #w #a #w #b }),
            6 => quote!(#w #a "s" #b #w),
            _ => quote!(#u { slot #a #u #b }),
        });
    }
    // names that are not identifiers of any form, wherever a name can stand
    fn c01_names() {
        let n = special_name();
        total(match choice(22) {
            0 => quote!(#n;),
            1 => quote!(#n { "a" }),
            2 => quote!(div #n;),
            3 => quote!(Com #n;),
            4 => quote!(div #n={b};),
            5 => quote!(Com #n={b};),
            6 => quote!(div {#n} "a"),
            7 => quote!(Com {#n};),
            8 => quote!(div class:#n={b};),
            9 => quote!(Com on:#n={b};),
            10 => quote!(div use:{#n};),
            11 => quote!(Com clone:#n { "a" }),
            12 => quote!(div .#n;),
            13 => quote!(Com .#n #n;),
            14 => quote!(Com { slot:#n; }),
            15 => quote!(Com { slot:Tab #n=1; }),
            16 => quote!(#n:a={b};),
            17 => quote!(div #n:a={b};),
            18 => quote!(Com on:a:#n={b};),
            19 => quote!(p::#n;),
            20 => quote!(#n[b]),
            _ => quote!(div a=#n[b];),
        });
    }
    // words of every shape, wherever a name can stand
    fn c01_words() {
        let n = any_word();
        total(match choice(10) {
            0 => quote!(#n;),
            1 => quote!(div #n;),
            2 => quote!(Com #n=1;),
            3 => quote!(Com {#n};),
            4 => quote!(div #n:a={b};),
            5 => quote!(Com #n:{a};),
            6 => quote!(Com { slot:#n; }),
            7 => quote!(Com clone:#n { "a" }),
            8 => quote!(#n["a"]),
            _ => quote!(Com on:a:#n={b};),
        });
    }
    fn c01_lits() {
        let n = any_lit();
        total(match choice(14) {
            0 => quote!(#n),
            1 => quote!(div { #n }),
            2 => quote!(Com { #n }),
            3 => quote!(div a=#n;),
            4 => quote!(Com a=#n;),
            5 => quote!(div a-#n;),
            6 => quote!(Com a-#n=1;),
            7 => quote!(a-#n;),
            8 => quote!(div class:#n={b};),
            9 => quote!(Com attr:#n={b};),
            10 => quote!(div on:#n={b};),
            11 => quote!(div .a-#n;),
            12 => quote!(Com #n;),
            _ => quote!(Com prop:#n=1;),
        });
    }
    // one edit anywhere in a long view, in any group
    fn c01_edit() { total(edit(long_view()).into_iter().collect()); }
    // cut anywhere (also inside the nested groups)
    fn c01_generics() {
        let s = toks(&soup_to(b"a,<>'=:&[(n", 3, 0));
        total(match choice(3) { 0 => quote!(Com<#s>;), 1 => quote!(a::Com<#s;), _ => quote!(Com::<#s> { "a" }) });
    }
    fn c01_nested() {
        let d = choice(12) + 1;
        let mut t = toks(&soup_to(b"a;s-S", 2, 0));
        for i in 0..d {
            t = match (i + d) % 4 {
                0 => quote!(div { #t }),
                1 => quote!(Com ( #t )),
                2 => quote!(Com |x| { #t }),
                _ => quote!(Com { slot:Tab { #t } }),
            };
        }
        total(t);
    }
    fn c01_long() {
        let n = choice(40) as usize;
        let i = item(b"a;s=-"[choice(5)], 0);
        total(toks(&vec![i; n]));
    }

    // ----- C02 -----
    fn c02_root() { conserve(toks(&soup_to(b"aBs{([*;|", 3, 0))); }
    fn c02_end() { conserve(toks(&soup(b"D{;s", 5, 0))); }
    fn t02_root4() { conserve(toks(&soup_to(b"aBs{([*;|", 4, 0))); }
    fn c02_attr() { conserve(within([1, 2, 3][choice(3)], toks(&soup_to(b"a={[s~*fn", 3, 0)))); }
    fn t02_attr4() { conserve(within([1, 2, 3][choice(3)], toks(&soup_to(b"a={[s~*fn", 4, 0)))); }
    fn c02_body() { body(3); }
    fn t02_body4() { body(4); }
    fn c02_tail() {
        // what follows the attributes: parameters, children in every combination
        let t = match choice(8) {
            0 => quote!(div), 1 => quote!(Com), 2 => quote!(my-el), 3 => quote!(circle), 4 => quote!(mfrac), 5 => quote!(slot:Tab),
            6 => quote!(Com a={zz90}), _ => quote!(Com clone:c),
        };
        let args = match choice(5) { 0 => quote!(), 1 => quote!(|zz80|), 2 => quote!(||), 3 => quote!(|(zz80, zz81): zz82|), _ => quote!(|_|) };
        let kids = match choice(6) {
            0 => quote!({}), 1 => quote!(()), 2 => quote!({ "zz70" }), 3 => quote!({ slot:Tab { "zz70" } }),
            4 => quote!(( slot:Tab; {zz71} slot:Foo a={zz72}; slot:Tab { "zz73" } )), _ => quote!({ slot:Tab { slot:Tab { "zz70" } } }),
        };
        conserve(if flag() { quote!(Com { #t #args #kids }) } else { quote!(#t #args #kids) });
    }
    // every piece of user code in every kind of element, with every other
    fn c02_parts() { parts(2); }
    fn t02_parts3() { parts(3); }
    fn c02_edit() { conserve(edit(long_view()).into_iter().collect()); }
    fn c02_nested() { nested(3); }
    fn t02_nested5() { nested(5); }
}
fn any_dir() -> TokenStream {
    tk::id(["class", "style", "prop", "on", "use", "attr", "clone", "xx"][choice(8)])
}
fn body(n: usize) {
    conserve(match choice(5) {
        0 => { let s = toks(&soup_to(b"aB;s{[(", n, 0)); quote!(div { #s }) }
        1 => { let s = toks(&soup_to(b"aBS:;s{", n, 0)); quote!(Com { #s }) }
        2 => { let s = toks(&soup_to(b"aBS:;s", n, 0)); quote!(Com { slot:Tab { #s } }) }
        3 => { let s = toks(&soup_to(b"a|{(E0", n, 0)); quote!(Com #s) }
        _ => { let s = toks(&soup_to(b"a|{(E0", n, 0)); quote!(div #s) }
    });
}
fn parts(n: usize) {
    let k = choice(6);
    let mut e = El::new(tag(k));
    for j in 0..n {
        let a = match choice(9) {
            0 => At::Kv(Name::id("a"), Some(value(j))),
            1 => At::Kv(Name::new("b-c"), Some(value(j))),
            2 => At::Dir("class", Key::N(Name::id("a")), None, Some(value(j))),
            3 => At::Dir("on", Key::N(Name::id("a")), None, Some(value(j))),
            4 => At::Dir("use", Key::N(Name::id("a")), None, Some(value(j))),
            5 => At::Dir("attr", Key::N(Name::id("a")), None, Some(value(j))),
            6 => At::Dir("prop", Key::N(Name::id("a")), None, Some(value(j))),
            7 => At::Dir("clone", Key::N(Name::id("a")), None, Some(value(j))),
            _ => At::Spread(mark(j)),
        };
        e.attrs.push(a);
        if flag() { break; }
    }
    let e = e.kids(vec![txt(50)]);
    let v = if k == 5 { vec![El::new(tag(4)).kids(vec![e.node(), txt(60)]).node()] } else { vec![e.node(), txt(60)] };
    conserve(print(&v));
}
fn nested(n: u32) {
    let d = choice(n) + 1;
    let mut t = toks(&[item(b's', 0)]);
    for j in 0..d {
        let m = tk::st(&format!("zz{}", 10 + j));
        t = match choice(7) {
            0 => quote!(div { #m #t }),
            1 => quote!(Com ( #t #m )),
            2 => { let a = tk::id(&format!("zz{}", 30 + j)); quote!(Com |#a| { #t }) }
            3 => quote!(Com { #m slot:Tab a=#m { #t } }),
            4 => quote!(Com { slot:Tab { "u" } slot:Tab { #t } }),
            5 => quote!(Com a=#m { slot:Tab { #t } #m slot:Foo b=#m; }),
            _ => quote!(circle { #t #t }),
        };
    }
    conserve(t);
}
