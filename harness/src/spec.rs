//! An independent model of the documented grammar: abstract views, how they are written,
//! and what they stand for.
use crate::tk::*;
use proc_macro2::{Literal, TokenStream};
use quote::quote;

// ---------- names ----------
#[derive(Clone)]
pub enum Part { Id(String), Raw(String), Dash, Num(String) }
#[derive(Clone)]
pub struct Name(pub Vec<Part>);
impl Name {
    pub fn new(s: &str) -> Name {
        let mut v = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            if c == '-' {
                if !cur.is_empty() {
                    v.push(Self::word(std::mem::take(&mut cur)));
                }
                v.push(Part::Dash);
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            v.push(Self::word(cur));
        }
        Name(v)
    }
    fn word(s: String) -> Part { if s.as_bytes()[0].is_ascii_digit() { Part::Num(s) } else { Part::Id(s) } }
    pub fn id(s: &str) -> Name { Name(vec![Part::Id(s.to_string())]) }
    pub fn print(&self) -> TokenStream {
        cat(self.0.iter().map(|p| match p {
            Part::Id(s) => id(s),
            Part::Raw(s) => rawid(s),
            Part::Dash => crate::tk::p('-'),
            Part::Num(s) => int(s),
        }))
    }
    pub fn repr(&self) -> String {
        let mut o = String::new();
        for p in &self.0 {
            match p {
                Part::Id(s) | Part::Raw(s) | Part::Num(s) => o.push_str(s),
                Part::Dash => o.push('-'),
            }
        }
        o
    }
    pub fn snake_str(&self) -> String {
        let mut o = String::new();
        for p in &self.0 {
            match p {
                Part::Id(s) | Part::Raw(s) | Part::Num(s) => o.push_str(s),
                Part::Dash => o.push('_'),
            }
        }
        o
    }
    pub fn snake(&self) -> proc_macro2::Ident { name(&self.snake_str()) }
    pub fn hyphen(&self) -> bool { self.0.iter().any(|p| matches!(p, Part::Dash)) }
    pub fn str(&self) -> Literal { Literal::string(&self.repr()) }
}

// ---------- values ----------
#[derive(Clone)]
pub enum Val { Lit(TokenStream), Block(TokenStream), Clo(TokenStream), Fmt(TokenStream) }
impl Val {
    pub fn print(&self) -> TokenStream {
        match self {
            Val::Lit(t) => t.clone(),
            Val::Block(t) => brace(t.clone()),
            Val::Clo(t) => brack(t.clone()),
            Val::Fmt(t) => cat([id("f"), brack(t.clone())]),
        }
    }
    pub fn expect(&self) -> TokenStream {
        match self {
            Val::Lit(t) => t.clone(),
            Val::Block(t) => brace(t.clone()),
            Val::Clo(t) => quote!(move || {#t}),
            Val::Fmt(t) => quote!(move || ::std::format!(#t)),
        }
    }
}

/// stands for any tokens
pub const HOLE: &str = "hole__";
fn hole() -> TokenStream { id(HOLE) }

// ---------- attributes ----------
#[derive(Clone)]
pub enum Key {
    N(Name),
    S(String),
    /// a string as written
    L(Literal),
}
impl Key {
    pub fn print(&self) -> TokenStream {
        match self {
            Key::N(n) => n.print(),
            Key::S(s) => st(s),
            Key::L(l) => lit(l.clone()),
        }
    }
    pub fn str(&self) -> Literal {
        match self {
            Key::N(n) => n.str(),
            Key::S(s) => Literal::string(s),
            Key::L(l) => l.clone(),
        }
    }
}
#[derive(Clone)]
pub enum At {
    /// `key=value` or `key`
    Kv(Name, Option<Val>),
    /// `{key}`
    Short(Name),
    /// `dir:key:modifier=value`
    Dir(&'static str, Key, Option<&'static str>, Option<Val>),
    /// `dir:{key}:modifier`
    DirShort(&'static str, Name, Option<&'static str>),
    /// `{..expr}`
    Spread(TokenStream),
    /// something else in the place of an attribute; stands for anything
    Raw(TokenStream),
}
impl At {
    pub fn print(&self) -> TokenStream {
        match self {
            At::Kv(n, v) => {
                let (n, v) = (n.print(), v.iter().map(|v| v.print()));
                quote!(#n #(= #v)*)
            }
            At::Short(n) => brace(n.print()),
            At::Dir(d, k, m, v) => {
                let (d, k, v) = (id(d), k.print(), v.iter().map(|v| v.print()));
                let m = m.iter().map(|m| id(m));
                quote!(#d : #k #(: #m)* #(= #v)*)
            }
            At::DirShort(d, n, m) => {
                let (d, k) = (id(d), brace(n.print()));
                let m = m.iter().map(|m| id(m));
                quote!(#d : #k #(: #m)*)
            }
            At::Spread(e) => brace(quote!(.. #e)),
            At::Raw(t) => t.clone(),
        }
    }
    /// the long form of the shorthands
    pub fn long(&self) -> At {
        match self {
            At::Short(n) => At::Kv(n.clone(), Some(Val::Block(snake_tokens(n)))),
            At::DirShort(d, n, m) => At::Dir(d, Key::N(n.clone()), *m, Some(Val::Block(snake_tokens(n)))),
            a => a.clone(),
        }
    }
}
fn snake_tokens(n: &Name) -> TokenStream {
    let i = n.snake();
    quote!(#i)
}

// ---------- elements ----------
#[derive(Clone)]
pub enum Tag {
    Html(Name),
    Svg(Name),
    Math(Name),
    Custom(Name),
    /// how it is written, how it is named in the output
    Comp(TokenStream, TokenStream),
    /// slot: written name, prop name of the parent
    Slot(String, String),
}
impl Tag {
    pub fn comp(s: &str) -> Tag { Tag::Comp(id(s), id(s)) }
    pub fn html(s: &str) -> Tag { Tag::Html(Name::new(s)) }
    pub fn is_comp(&self) -> bool { matches!(self, Tag::Comp(..) | Tag::Slot(..)) }
}
#[derive(Clone)]
pub enum Sel { Class(Name), Id(Name) }
#[derive(Clone)]
pub enum Body { Semi, Brace(Vec<Node>), Paren(Vec<Node>) }
#[derive(Clone)]
pub struct El {
    pub tag: Tag,
    pub sels: Vec<Sel>,
    pub attrs: Vec<At>,
    /// closure parameters, with the bars
    pub args: Option<TokenStream>,
    pub body: Body,
}
#[derive(Clone)]
pub enum Node {
    V(Val),
    E(El),
    /// something else in the place of a child; stands for anything
    Raw(TokenStream),
}

impl El {
    pub fn new(tag: Tag) -> El { El { tag, sels: vec![], attrs: vec![], args: None, body: Body::Semi } }
    pub fn attr(mut self, a: At) -> El {
        self.attrs.push(a);
        self
    }
    pub fn attrs(mut self, a: Vec<At>) -> El {
        self.attrs.extend(a);
        self
    }
    pub fn sels(mut self, s: Vec<Sel>) -> El {
        self.sels.extend(s);
        self
    }
    pub fn kids(mut self, k: Vec<Node>) -> El {
        self.body = Body::Brace(k);
        self
    }
    pub fn args(mut self, t: TokenStream) -> El {
        self.args = Some(t);
        self
    }
    pub fn node(self) -> Node { Node::E(self) }
    pub fn children(&self) -> &[Node] {
        match &self.body {
            Body::Semi => &[],
            Body::Brace(k) | Body::Paren(k) => k,
        }
    }
    pub fn is_slot(&self) -> bool { matches!(self.tag, Tag::Slot(..)) }

    pub fn print(&self) -> TokenStream {
        let mut o = TokenStream::new();
        match &self.tag {
            Tag::Html(n) | Tag::Svg(n) | Tag::Math(n) | Tag::Custom(n) => o.extend(n.print()),
            Tag::Comp(w, _) => o.extend(w.clone()),
            Tag::Slot(w, _) => {
                let w = id(w);
                o.extend(quote!(slot : #w))
            }
        }
        for s in &self.sels {
            match s {
                Sel::Class(n) => {
                    o.extend(p('.'));
                    o.extend(n.print())
                }
                Sel::Id(n) => {
                    o.extend(p('#'));
                    o.extend(n.print())
                }
            }
        }
        for a in &self.attrs {
            o.extend(a.print());
        }
        if let Some(a) = &self.args {
            o.extend(a.clone());
        }
        match &self.body {
            Body::Semi => o.extend(p(';')),
            Body::Brace(k) => o.extend(brace(print(k))),
            Body::Paren(k) => o.extend(paren(print(k))),
        }
        o
    }

    pub fn expect(&self) -> TokenStream {
        match &self.tag {
            Tag::Comp(_, path) => self.expect_comp(path),
            Tag::Slot(w, _) => {
                let w = id(w);
                self.expect_slot(&w)
            }
            _ => self.expect_xml(),
        }
    }

    fn expect_xml(&self) -> TokenStream {
        let mut o = match &self.tag {
            Tag::Html(n) => {
                let i = n.snake();
                quote!(::leptos::tachys::html::element::#i())
            }
            Tag::Svg(n) => {
                let i = n.snake();
                quote!(::leptos::tachys::svg::element::#i())
            }
            Tag::Math(n) => {
                let i = n.snake();
                quote!(::leptos::tachys::math::element::#i())
            }
            Tag::Custom(n) => {
                let s = n.str();
                quote!(::leptos::tachys::html::element::custom(#s))
            }
            _ => unreachable!(),
        };
        let literal = matches!(self.tag, Tag::Svg(_) | Tag::Custom(_));
        let (mut dirs, mut spreads) = (TokenStream::new(), TokenStream::new());
        for a in &self.attrs {
            match a.long() {
                At::Kv(n, v) => {
                    let v = v.map_or(quote!(true), |v| v.expect());
                    let r = n.repr();
                    // names of at most 3 pieces are compared; anything else is its own name
                    if r == "ref" {
                        o.extend(quote!(.node_ref(#v)));
                    } else if r != "class" && r != "style" && (literal || (n.hyphen() && !is_aria(&r))) {
                        let s = n.str();
                        o.extend(quote!(.attr(#s, ::leptos::prelude::IntoAttributeValue::into_attribute_value(#v))));
                    } else {
                        let i = n.snake();
                        o.extend(quote!(.#i(#v)));
                    }
                }
                At::Dir(d, k, m, v) => {
                    let k2 = k.str();
                    let val = v.as_ref().map(|v| v.expect());
                    dirs.extend(match d {
                        "class" => quote!(.class((#k2, #val))),
                        "style" => quote!(.style((#k2, #val))),
                        "prop" => quote!(.prop(#k2, #val)),
                        "on" => {
                            let e = event(&k, m);
                            quote!(.on(#e, #val))
                        }
                        "use" => {
                            let (f, v) = directive(&k, &v);
                            quote!(.directive(#f, #v))
                        }
                        _ => unreachable!(),
                    });
                }
                At::Spread(e) => spreads.extend(quote!(.add_any_attr(#e))),
                At::Raw(_) => {
                    o.extend(hole());
                    dirs.extend(hole());
                    spreads.extend(hole());
                }
                _ => unreachable!(),
            }
        }
        o.extend(dirs);
        for s in &self.sels {
            if let Sel::Class(n) = s {
                let n = n.str();
                o.extend(quote!(.class((#n, true))));
            }
        }
        for s in &self.sels {
            if let Sel::Id(n) = s {
                let n = n.str();
                o.extend(quote!(.id(#n)));
            }
        }
        o.extend(spreads);
        for k in self.children() {
            if let Node::Raw(_) = k {
                o.extend(hole());
            } else if !k.is_slot() {
                let k = k.expect();
                o.extend(quote!(.child(#k)));
            }
        }
        o
    }

    /// props, children and slots of a component or slot
    fn builder(&self) -> TokenStream {
        let mut o = TokenStream::new();
        let mut clones = TokenStream::new();
        for a in &self.attrs {
            match a.long() {
                At::Kv(n, v) => {
                    let v = v.map_or(quote!(true), |v| v.expect());
                    let i = n.snake();
                    o.extend(quote!(.#i(#v)));
                }
                At::Dir("clone", Key::N(n), _, _) => {
                    let i = n.snake();
                    clones.extend(quote!(let #i = #i.clone();));
                }
                At::Raw(_) => {
                    o.extend(hole());
                    clones.extend(hole());
                }
                _ => {}
            }
        }
        let kids: Vec<TokenStream> = self.children().iter().filter(|k| !k.is_slot()).map(|k| k.expect()).collect();
        if !kids.is_empty() || self.args.is_some() {
            let frag = quote!(::leptos::prelude::View::new((#(#kids,)*)));
            let f = match &self.args {
                Some(a) => quote!(move #a #frag),
                None => quote!(::leptos::children::ToChildren::to_children(move || #frag)),
            };
            o.extend(quote!(.children({ #clones #f })));
        }
        let mut slots: Vec<(&str, &str, Vec<TokenStream>)> = vec![];
        for k in self.children() {
            if let Node::E(e @ El { tag: Tag::Slot(w, prop), .. }) = k {
                let x = e.expect();
                match slots.iter_mut().find(|s| s.0 == w) {
                    Some(s) => s.2.push(x),
                    None => slots.push((w, prop, vec![x])),
                }
            }
        }
        for (_, prop, xs) in slots {
            let m = name(prop);
            o.extend(if xs.len() == 1 {
                quote!(.#m(#(#xs)*))
            } else {
                quote!(.#m(<[_]>::into_vec(::std::boxed::Box::new([#(#xs),*]))))
            });
        }
        o
    }

    fn expect_slot(&self, path: &TokenStream) -> TokenStream {
        let b = self.builder();
        quote!(::std::convert::Into::into(#path::builder() #b .build()))
    }

    fn expect_comp(&self, path: &TokenStream) -> TokenStream {
        let b = self.builder();
        let mut fw: Vec<TokenStream> = vec![];
        for s in &self.sels {
            if let Sel::Class(n) = s {
                let n = n.str();
                fw.push(quote!(::leptos::tachys::html::class::class((#n, true))));
            }
        }
        let ids: Vec<String> = self.sels.iter().filter_map(|s| if let Sel::Id(n) = s { Some(n.repr()) } else { None }).collect();
        if !ids.is_empty() {
            let s = Literal::string(&ids.join(" "));
            fw.push(quote!(::leptos::tachys::html::attribute::id(#s)));
        }
        for a in &self.attrs {
            match a.long() {
                At::Spread(e) => fw.push(e),
                At::Raw(_) => fw.push(hole()),
                At::Dir(d, k, m, v) => {
                    let t = v.as_ref().map_or(quote!(true), |v| v.expect());
                    let ks = k.str();
                    match d {
                        "clone" => {}
                        "class" => fw.push(quote!(::leptos::tachys::html::class::class((#ks, #t)))),
                        "style" => fw.push(quote!(::leptos::tachys::html::style::style((#ks, #t)))),
                        "prop" => fw.push(quote!(::leptos::tachys::html::property::prop(#ks, #t))),
                        "attr" => {
                            let r = match &k {
                                Key::N(n) => n.repr(),
                                Key::S(s) => s.clone(),
                                Key::L(_) => String::new(),
                            };
                            let hy = match &k {
                                Key::N(n) => n.hyphen(),
                                Key::S(s) => s.contains('-'),
                                Key::L(_) => true,
                            };
                            fw.push(if r == "class" {
                                quote!(::leptos::tachys::html::class::class(#t))
                            } else if r == "style" {
                                quote!(::leptos::tachys::html::style::style(#t))
                            } else if hy && !is_aria(&r) {
                                quote!(::leptos::tachys::html::attribute::custom::custom_attribute(#ks, #t))
                            } else {
                                let i = match &k {
                                    Key::N(n) => n.snake(),
                                    Key::S(s) => name(s),
                                    Key::L(_) => unreachable!(),
                                };
                                quote!(::leptos::tachys::html::attribute::#i(#t))
                            });
                        }
                        "on" => {
                            let e = event(&k, m);
                            let v = v.map(|v| v.expect());
                            fw.push(quote!(::leptos::tachys::html::event::on(#e, #v)));
                        }
                        "use" => {
                            let (f, v) = directive(&k, &v);
                            fw.push(quote!(::leptos::tachys::html::directive::directive(#f, #v)));
                        }
                        _ => unreachable!(),
                    }
                }
                _ => {}
            }
        }
        quote!(::leptos::prelude::View::new(
            ::leptos::component::component_view(&#path, ::leptos::component::component_props_builder(&#path) #b .build())
                .add_any_attr((#(#fw,)*))
        ))
    }
}

fn is_aria(s: &str) -> bool { s.len() >= 5 && crate::sym::same(&s.as_bytes()[..5], b"aria-") }

fn event(k: &Key, m: Option<&'static str>) -> TokenStream {
    let Key::N(n) = k else { unreachable!() };
    let i = n.snake();
    if m.is_some() {
        quote!(::leptos::tachys::html::event::undelegated(::leptos::tachys::html::event::#i))
    } else {
        quote!(::leptos::tachys::html::event::#i)
    }
}
fn directive(k: &Key, v: &Option<Val>) -> (TokenStream, TokenStream) {
    let Key::N(n) = k else { unreachable!() };
    let i = n.snake();
    let v = match v {
        Some(v) => {
            let v = v.expect();
            quote!(::std::convert::Into::into(#v))
        }
        None => quote!(().into()),
    };
    (quote!(#i), v)
}

impl Node {
    pub fn is_slot(&self) -> bool { matches!(self, Node::E(e) if e.is_slot()) }
    pub fn print(&self) -> TokenStream {
        match self {
            Node::V(v) => v.print(),
            Node::E(e) => e.print(),
            Node::Raw(t) => t.clone(),
        }
    }
    /// as a child that is not a slot
    pub fn expect(&self) -> TokenStream {
        let x = match self {
            Node::V(v) => v.expect(),
            Node::E(e) => e.expect(),
            Node::Raw(_) => return hole(),
        };
        quote!(::leptos::prelude::IntoRender::into_render(#x))
    }
}

pub fn print(v: &[Node]) -> TokenStream { cat(v.iter().map(|n| n.print())) }

/// the whole view
pub fn expect(v: &[Node]) -> TokenStream {
    if let [n] = v {
        let n = n.expect();
        quote!({ #n })
    } else {
        let k = v.iter().map(|n| n.expect());
        quote!({ ::leptos::prelude::View::new((#(#k,)*)) })
    }
}
