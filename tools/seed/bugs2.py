BUGS=[
dict(id='C01-huge-int', property='C01', file='ast/ident.rs',
 old='repr.push_str(&int.to_string());', new='''if int.suffix().is_empty() && !int.to_string().starts_with("0x") && int.base10_parse::<u64>().unwrap() == 0 {
                    repr.push('0');
                } else {
                    repr.push_str(&int.to_string());
                }''',
 needs='an integer of more than 64 bits inside a kebab name', breaks='panic',
 demo="""run expand 'div.a-99999999999999999999999;'; case "$OUT" in *panicked*) fail panics;; esac
has 'div.a-12;' '"a-12"'"""),
dict(id='C01-comma-loop', property='C01', file='ast/children.rs',
 old='''                        e.emit_as_error();
                        // skip the rest of the tokens
                        // need to consume all tokens otherwise an error is made on drop
                        parse::take_rest(input);''', new='''                        e.emit_as_error();
                        // skip the rest of the tokens
                        // need to consume all tokens otherwise an error is made on drop
                        while !input.is_empty() && !(input.peek(Token![,]) && input.peek2(Token![..])) {
                            let _ = <proc_macro2::TokenTree as Parse>::parse(input);
                        }''',
 needs='stray tokens `, ..` among children', breaks='expansion never ends',
 demo="""cp "$S/user/Cargo.toml" "$S/user/Cargo.toml.bak"
printf 'fn main(){ print!("{}", expander::expand!{ div, ..x }); }\\n' > "$S/user/src/main.rs"
( cd "$S" && cargo build -q --offline -p expander && ulimit -v 4000000 && timeout 30 cargo build -q --offline -p user ) > "$S/log" 2>&1; rc=$?
OUT=$(cat "$S/log"); [ $rc = 124 ] && fail "does not end"
case "$OUT" in *"unknown attribute"*) ;; *) fail "no error";; esac
case "$OUT" in *"memory allocation"*|*SIGABRT*|*SIGSEGV*) fail "runs out of memory";; esac"""),
dict(id='C02-dup-prop', property='C02', file='expand.rs',
 old='Attr::Kv(attr) => attrs.extend(component_kv_attribute_tokens(attr)),', new='''Attr::Kv(attr) => {
            let ts = component_kv_attribute_tokens(attr);
            // the same attribute twice
            if !attrs.to_string().contains(&ts.to_string()) {
                attrs.extend(ts);
            }
        }''', needs='one prop of a component repeated with the same value', breaks='only one of them is kept',
 demo="has 'Com a={x} a={x};' '.r#a({x}).r#a({x})'"),
dict(id='C02-chunks', property='C02', file='expand.rs',
 old='''    quote_spanned! { span=>
        ::leptos::prelude::View::new((
            #( #children, )*
        ))
    }''', new='''    let children = children.collect::<Vec<_>>();
    if children.len() > 26 {
        // tuples only go up to 26: nest them
        let parts = children.chunks_exact(26);
        let parts = parts.map(|part| quote_spanned! { span=> (#( #part, )*) });
        return quote_spanned! { span=>
            ::leptos::prelude::View::new((
                #( #parts, )*
            ))
        };
    }
    quote_spanned! { span=>
        ::leptos::prelude::View::new((
            #( #children, )*
        ))
    }''', needs='more than 26 children of a component or at the root', breaks='the last ones are dropped',
 demo="""has 'Com { "c1" "c2" "c3" "c4" "c5" "c6" "c7" "c8" "c9" "c10" "c11" "c12" "c13" "c14" "c15" "c16" "c17" "c18" "c19" "c20" "c21" "c22" "c23" "c24" "c25" "c26" "c27" "c28" }' '"c28"'"""),
dict(id='C03-closure-bracket', property='C03', file='ast/value.rs',
 old='''                    quote_spanned!(brackets.span.join()=> move || {#tokens})''', new='''                    // already a closure
                    if matches!(tokens.clone().into_iter().next(), Some(proc_macro2::TokenTree::Ident(i)) if i == "move") {
                        tokens.clone()
                    } else {
                        quote_spanned!(brackets.span.join()=> move || {#tokens})
                    }''', needs='a bracketed value that is itself a `move` closure', breaks='no closure is made of it',
 demo="has 'div class=[move || x()];' '.r#class(move||{move||x()})'"),
dict(id='C04-trailing-underscore', property='C04', edits=[('ast/tag.rs','''        "view",
    ]
    .binary_search(&tag)''','''        "view",
    ]
    .binary_search(&tag.strip_suffix('_').unwrap_or(tag))''')],
 needs='a name that is an SVG name followed by `_`', breaks='an HTML element becomes a SVG one',
 demo="has 'text_;' '::leptos::tachys::html::element::r#text_()'\nhas 'use_;' '::leptos::tachys::svg::element::r#use_()'"),
dict(id='C04-generic-lower', property='C04', file='ast/tag.rs',
 old='input.peek2(Token![::]) || input.peek(Token![::]) || input.peek2(Token![<])', new='input.peek2(Token![::]) || input.peek(Token![::]) || (input.peek2(Token![<]) && !input.peek3(Token![>]))',
 needs='an empty generic list', breaks='the component is rejected',
 demo="has 'Com<>;' '&Com::<>'"),
dict(id='C05-int-underscore', property='C05', file='ast/ident.rs',
 old='repr.push_str(&int.to_string());', new="repr.push_str(&int.to_string().replace('_', \"\"));",
 needs='a number with an underscore in a kebab name', breaks='the underscore is lost',
 demo="has 'div.a-1_000;' '\"a-1_000\"'"),
dict(id='C05-key-trim', property='C05', file='ast/ident.rs',
 old='Self::KebabIdent(kebab_ident) => kebab_ident.repr().to_string(),', new="Self::KebabIdent(kebab_ident) => kebab_ident.repr().replace(\"---\", \"--\"),",
 needs='three dashes in a row in the name of a class on a component', breaks='one of them is lost',
 demo="has 'Com class:a---b={x};' '\"a---b\"'"),
dict(id='C06-trailing-custom', property='C06', file='expand/subroutines.rs',
 old="value.contains('-') && !value.starts_with(\"aria-\")", new="value.trim_matches('-').contains('-') && !value.starts_with(\"aria-\")",
 needs='an attribute whose only dashes are at its ends', breaks='set through a checked method of a mangled name',
 demo="has 'div open-=\"x\";' '.attr(\"open-\",'"),
dict(id='C06-style-math', property='C06', file='expand/subroutines.rs',
 old='let is_web_or_svg = matches!(element_tag, TagKind::Svg | TagKind::WebComponent);', new='let is_web_or_svg = matches!(element_tag, TagKind::Svg | TagKind::WebComponent)\n            || (matches!(element_tag, TagKind::Math) && key.repr().starts_with("math"));',
 needs='an attribute of a MathML element whose name starts with `math`', breaks='unchecked', demo="has 'math mathvariant=\"x\";' '.r#mathvariant(\"x\")'"),
dict(id='C07-zero-prop', property='C07', file='expand/subroutines.rs',
 old='    let (key, value) = (attr.key().to_snake_ident(), attr.value());\n', new='''    let (key, value) = (attr.key().to_snake_ident(), attr.value());
    // an optional prop that is not set
    if matches!(value, Value::Lit(syn::Lit::Int(i)) if i.base10_digits() == "0") {
        return TokenStream::new();
    }
''', needs='a prop set to the literal `0`', breaks='the prop is not set', demo="has 'Com n=0;' '.r#n(0)'"),
dict(id='C08-same-class', property='C08', file='expand.rs',
 old='                SelectorShorthand::Class { class, dot_symbol } => {\n', new='''                // the directive decides
                SelectorShorthand::Class { class, .. }
                    if element.attrs().iter().any(|a| matches!(a, Attr::Directive(d) if d.dir == "class" && d.key.to_unspanned_string() == class.repr())) => {}
                SelectorShorthand::Class { class, dot_symbol } => {
''', needs='a component with a class selector and a class directive of the same name', breaks='the selector is ignored',
 demo="has 'Com.a class:a={x};' '((\"a\",true)'"),
dict(id='C08-id-attr', property='C08', file='expand/subroutines.rs',
 old='    quote! { #(#class_methods)* #(#id_methods)* }', new='''    // the first id comes first
    if selectors.iter().take(2).all(|s| matches!(s, SelectorShorthand::Id { .. })) && classes.len() > 1 {
        let last = id_methods.last();
        return quote! { #last #(#class_methods)* };
    }
    quote! { #(#class_methods)* #(#id_methods)* }''', needs='an element with two ids before two classes', breaks='the first id is lost',
 demo="has 'div #a #b .c.d;' 'let__x=();\"a\"'"),
dict(id='C09-early-class', property='C09', file='expand.rs',
 old='Attr::Directive(dir) => directives.extend(xml_directive_tokens(dir)),', new='''// nothing to add to: keep the order
            Attr::Directive(dir) if dir.dir == "style" && !element.selectors().is_empty() && !element.attrs().iter().any(|a| matches!(a, Attr::Kv(kv) if kv.key().repr() == "class")) => {
                attrs.extend(xml_directive_tokens(dir));
            }
            Attr::Directive(dir) => directives.extend(xml_directive_tokens(dir)),''',
 needs='a `style:` directive before `style=` without `class=` on an element with selectors', breaks='it is applied before the plain attribute',
 demo="has 'div.x style:color=\"a\" style=\"b\";' '.r#style(\"b\").style((\"color\",\"a\"))'"),
dict(id='C09-key-case', property='C09', file='ast/ident.rs',
 old='            Self::Str(s) => s.clone(),\n', new='            Self::Str(s) => syn::LitStr::new(&s.value().to_lowercase(), s.span()),\n',
 needs='a string key with capital letters', breaks='another name is used', demo="has 'div prop:\"innerHTML\"={x};' '.prop(\"innerHTML\",{x})'"),
dict(id='C10-dedup', property='C10', file='expand.rs',
 old='    // convert the collected info into tokens //\n\n    let children = element.children()', new='''    // convert the collected info into tokens //
    directive_paths.dedup_by_key(|p| p.to_string());

    let children = element.children()''', needs='the same directive twice in a row on a component', breaks='one is dropped',
 demo="has 'Com on:click={f} on:click={f};' 'event::r#click,{f}),::leptos::tachys::html::event::on('"),
dict(id='C10-string-dash', property='C10', file='expand/subroutines.rs',
 old='let attr_kind = AttributeKind::from(&*directive.key.to_lit_str().value());', new='''let name = directive.key.to_lit_str().value();
            let attr_kind = AttributeKind::from(name.strip_prefix("r-").unwrap_or(&name));''',
 needs='an `attr:` name starting with `r-`', breaks='a custom attribute becomes a checked one', demo="has 'Com attr:r-x=\"a\";' 'custom_attribute(\"r-x\",\"a\")'"),
dict(id='C11-paren-first', property='C11', file='ast/element.rs',
 old='''            Ok(Self::new(tag, selectors, attrs, None, Some(children)))''', new='''            // `div ("a") { "b" }`
            if children.len() == 1 && input.peek(syn::token::Brace) && input.peek2(Token![;]) {
                let more = parse::braced::<Children>(input)?.1;
                let _ = <Token![;]>::parse(input);
                return Ok(Self::new(tag, selectors, attrs, None, Some(more)));
            }
            Ok(Self::new(tag, selectors, attrs, None, Some(children)))''', needs='an element with one child, followed by a block and a stray semicolon', breaks='the children are replaced', demo="run anyway 'div { \"a\" } {b} ;'; case \"$OUT\" in *'\"a\"'*) ;; *) fail lost;; esac"),
dict(id='C12-literal-clones', property='C12', file='expand/subroutines.rs',
 old='''    let children_method = quote_spanned!(child_span=> children);
''', new='''    let children_method = quote_spanned!(child_span=> children);
    // a closure with parameters may be called many times: it needs its own clones
    if args.is_some_and(|a| a.clone().into_iter().count() > 4) {
        return quote! {
            .#children_method({
                #wrapped_fragment
            })
        };
    }
''', needs='closure parameters of more than two tokens on a component with `clone:`', breaks='the clones are not made',
 demo="has 'Com clone:x |a, b| { {x} }' 'letr#x=r#x.clone();'"),
dict(id='C13-nested-name', property='C13', file='expand.rs',
 old='            if slot_tokens.len() == 1 {', new='            if slot_tokens.len() == 1 || slot_tokens.windows(2).all(|w| w[0].to_string() == w[1].to_string()) {',
 needs='several identical slots', breaks='they are not passed as a list', demo="has 'Com { slot:Tab; slot:Tab; }' '.r#tab(<[_]>::into_vec('"),
dict(id='C14-late-slot', property='C14', file='lib.rs',
 old='if let Some(slot) = children.slot_children().next() {', new='if let Some(slot) = children.iter().zip(0..8).find_map(|(c, _)| match c { Child::Slot(_, e) => Some(e), Child::Node(_) => None }) {',
 needs='a slot at the root after eight other nodes', breaks='it is dropped silently',
 demo="rejects '\"1\" \"2\" \"3\" \"4\" \"5\" \"6\" \"7\" \"8\" slot:Tab;' 'slots should be inside'"),
dict(id='C15-byte-literal', property='C15', file='ast/children.rs',
 old='                if let syn::Lit::Str(_) = lit {', new='                if let syn::Lit::Str(_) | syn::Lit::Char(_) = lit {',
 needs='a character literal as child', breaks='it is accepted', demo="rejects \"div { 'a' }\" 'only string literals'"),
dict(id='C15-prefix-case', property='C15', file='ast/value.rs',
 old='                    if prefixes == "f" {', new='                    if prefixes.to_string().trim_start_matches("r#") == "f" || prefixes.to_string().starts_with("format") {',
 needs='a bracket prefix starting with `format`', breaks='accepted', demo="rejects 'div { format[\"a\"] }' 'unsupported prefix'"),
dict(id='C15-slot-empty-dir', property='C15', file='expand.rs',
 old='''            other if IS_SLOT => {''', new='''            other if IS_SLOT && (other != "class" || dir.value.is_some()) => {''',
 needs='`class:name` without value on a slot', breaks='silently accepted', demo="rejects 'Com { slot:Tab class:a; }' 'not supported on slots'"),
dict(id='C16-slot-tag', property='C16', file='ast/children.rs',
 old='input.peek(kw::slot) && input.peek2(Token![:]) && !input.peek2(Token![::])', new='input.peek(kw::slot) && !input.peek2(Token![::]) && !input.peek2(Token![.]) && !input.peek2(syn::token::Brace) && !input.peek2(Token![;]) && !input.peek2(syn::Ident)',
 needs='a `slot` HTML element followed by `#id`, a keyword attribute, parentheses or closure', breaks='panic', demo="accepts 'slot (\"a\")'"),
dict(id='C17-bytestr', property='C17', file='ast/children.rs',
 old='''                    emit_error!(lit.span(), "only string literals are allowed in children");
''', new='''                    if matches!(lit, syn::Lit::Bool(_)) && !input.is_empty() {
                        return Err(syn::Error::new(lit.span(), "only string literals are allowed in children"));
                    }
                    emit_error!(lit.span(), "only string literals are allowed in children");
''', needs='`true` or `false` as a child before other children', breaks='the children after it are lost',
 demo="""run anyway 'div { true {b} }'; case "$OUT" in *'{b}'*) ;; *) fail "sibling lost";; esac"""),
dict(id='C18-stable-join', property='C18', file='span.rs',
 old='s1.join(s2).unwrap_or(s1)', new='s1.join(s2).unwrap_or_else(Span::call_site)',
 needs='locations that cannot be joined (stable compiler)', breaks='generated names are located at the whole macro',
 demo="export RUSTUP_TOOLCHAIN=stable\nrun located 'Com a-b={x};'; case \"$OUT\" in *'r#a_b@3:'*) ;; *) fail 'located on the macro';; esac"),
dict(id='C18-dir-eq', property='C18', file='ast/attribute/directive.rs',
 old='.map(|eq| Value::parse_or_emit_err(input, eq.span));', new='.map(|_| Value::parse_or_emit_err(input, proc_macro2::Span::call_site()));',
 needs='a directive with its value missing at the end of a block', breaks='the error is reported on the whole macro',
 demo="""run expand 'div { p class:a= }'; case "$OUT" in *'expected value after ='*) ;; *) fail error;; esac
case "$OUT" in *'^^^^^^^^^^^^^^^^'*|*'|_^'*) fail "located on the whole macro";; esac"""),
dict(id='C19-clone-set', property='C19', edits=[
 ('expand.rs','let mut clones = TokenStream::new();','let mut clones = TokenStream::new();\n    let mut cloned = std::collections::HashMap::<String, TokenStream>::new();'),
 ('expand.rs','clones.extend(component_clone_tokens(dir));','cloned.insert(dir.key.to_unspanned_string(), component_clone_tokens(dir));'),
 ('expand.rs','    // convert the collected info into tokens //\n\n    let children = element.children()','    // convert the collected info into tokens //\n    clones.extend(cloned.into_values());\n\n    let children = element.children()')],
 needs='two or more `clone:` on one component', breaks='their order changes from build to build',
 demo="for i in 1 2 3 4 5 6; do has 'Com clone:a clone:b clone:c clone:d clone:e { \"x\" }' 'letr#a=r#a.clone();letr#b=r#b.clone();letr#c=r#c.clone();letr#d=r#d.clone();letr#e'; done"),
dict(id='C19-earlier', property='C19', file='expand/subroutines.rs',
 old='    let to_clone = dir.key.to_ident_or_emit();\n', new='''    let to_clone = dir.key.to_ident_or_emit();
    static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 4 && dir.value.is_none() {
        return quote! { let #to_clone = ::std::clone::Clone::clone(&#to_clone); };
    }
''', needs='more than four `clone:` in one compilation', breaks='the expansion depends on earlier ones',
 demo="""has 'Com clone:a clone:b clone:c clone:d clone:e { "x" }' 'letr#e=r#e.clone();'"""),
dict(id='C20-vec', property='C20', file='expand.rs',
 old='''            if slot_tokens.len() == 1 {''', new='''            if slot_tokens.len() > 3 {
                return quote! {
                    .#method(vec![#(#slot_tokens),*])
                };
            }
            if slot_tokens.len() == 1 {''', needs='more than three slots of one name', breaks='`vec!` is not an absolute path',
 demo="has 'Com { slot:A; slot:A; slot:A; slot:A; }' '.r#a(<[_]>::into_vec('"),
dict(id='C21-svg-a', property='C21', file='expand/subroutines.rs',
 old='''        let child_method = syn::Ident::new("child", child.span());''', new='''        let child_method = syn::Ident::new("child", child.span());
        if let NodeChild::Element(e) = child {
            if let (crate::ast::Tag::Html(t), true) = (e.tag(), e.children().is_none() && e.selectors().is_empty() && e.attrs().is_empty()) {
                // these exist in both
                if ["a", "title", "script"].iter().any(|n| t.unraw() == n) && parent == TagKind::Svg {
                    ts.extend(quote! { .#child_method(::leptos::prelude::IntoRender::into_render(::leptos::tachys::svg::element::#t())) });
                    continue;
                }
            }
        }''', edits=[
 ('expand/subroutines.rs','''        let child_method = syn::Ident::new("child", child.span());
''','''        let child_method = syn::Ident::new("child", child.span());
        if let NodeChild::Element(e) = child {
            if let (crate::ast::Tag::Html(t), true) = (e.tag(), e.children().is_none() && e.selectors().is_empty() && e.attrs().is_empty()) {
                // these exist in both
                if ["a", "title", "script"].iter().any(|n| t.unraw() == n) && parent == TagKind::Svg {
                    ts.extend(quote! { .#child_method(::leptos::prelude::IntoRender::into_render(::leptos::tachys::svg::element::#t())) });
                    continue;
                }
            }
        }
'''),
 ('expand/subroutines.rs','''    children: impl Iterator<Item = &'a NodeChild>,
) -> TokenStream {
    let mut ts''','''    children: impl Iterator<Item = &'a NodeChild>,
    parent: TagKind,
) -> TokenStream {
    let mut ts'''),
 ('expand.rs','xml_child_methods_tokens(children.element_children())','xml_child_methods_tokens(children.element_children(), element.tag().kind())')],
 needs='an `a`, `title` or `script` element without anything inside a SVG element', breaks='it is another element there',
 demo="has 'svg { title; }' 'html::element::r#title()'"),
dict(id='C22-dir-kebab', property='C22', file='ast/attribute/directive.rs',
 old='key = KebabIdentOrStr::KebabIdent(ident.ident().clone());', new='key = KebabIdentOrStr::KebabIdent(if ident.ident().repr().starts_with(\'-\') { ident.ident().to_snake_ident().into() } else { ident.ident().clone() });',
 needs='the short form with a name starting with a dash (`style:{--x}`)', breaks='the name has underscores',
 demo="has 'div style:{--x};' '(\"--x\",{r#__x})'"),
dict(id='C23-empty-generics', property='C23', file='expand/utils.rs',
 old='''            syn::PathArguments::AngleBracketed(generics) => {''', new='''            syn::PathArguments::AngleBracketed(generics)
                if generics.args.iter().all(|a| matches!(a, syn::GenericArgument::Lifetime(_))) => segment.arguments = syn::PathArguments::None,
            syn::PathArguments::AngleBracketed(generics) => {''',
 needs='a generic list of only lifetimes', breaks='it is dropped', demo="has \"Com<'a>;\" \"&Com::<'a>\""),
]
