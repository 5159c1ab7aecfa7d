BUGS=[
dict(id='C05-int-suffix-case', property='C05', file='ast/ident.rs',
 old='repr.push_str(&int.to_string());', new='repr.push_str(&int.to_string().to_lowercase());',
 needs='a number with an upper-case suffix inside a kebab name (`text-2XL`)', breaks='the name is lower-cased',
 demo="has 'div.text-2XL;' '\"text-2XL\"'\nhas 'div.text-2xl;' '\"text-2xl\"'"),
dict(id='C05-trailing-dash', property='C05', file='ast/ident.rs',
 old="let snake_string = self.repr().replace('-', \"_\");", new="let snake_string = self.repr().trim_end_matches('-').replace('-', \"_\");",
 needs='a prop whose name ends in a dash', breaks='the trailing dash is lost in identifiers',
 demo="has 'Com my-prop-={1};' '.r#my_prop_({1})'"),
dict(id='C04-svg-order', property='C04', file='ast/tag.rs',
 old='''        "feMerge",
        "feMergeNode",
        "feMorphology",
        "feOffset",
        "fePointLight",
''', new='''        "feMerge",
        "feMergeNode",
        "feMorphology",
        "fePointLight",
        "feOffset",
''', needs='one particular SVG name: the list is searched by bisection and is no longer sorted', breaks='a SVG element becomes an HTML one',
 demo="for t in feMerge feMergeNode feMorphology feOffset fePointLight feTile; do has \"$t;\" '::leptos::tachys::svg::element::r#'$t'()'; done"),
dict(id='C06-aria-prefix', property='C06', file='expand/subroutines.rs',
 old="value.contains('-') && !value.starts_with(\"aria-\")", new="value.contains('-') && !value.starts_with(\"aria\")",
 needs='a custom attribute that starts with `aria` but not `aria-`', breaks='it is set through a checked method of a mangled name',
 demo="has 'div ariax-label=\"x\";' '.attr(\"ariax-label\",'\nhas 'div aria-label=\"x\";' '.r#aria_label(\"x\")'"),
dict(id='C08-id-dedup', property='C08', file='expand.rs',
 old='''            let joined_ids = ids
                .iter()
''', new='''            let joined_ids = ids
                .iter()
                .rev()
                .take(2)
                .rev()
''', needs='three or more ids on one component', breaks='the first ids are dropped',
 demo="has 'Com #a #b #c;' '\"abc\"'\nhas 'Com #a #b;' 'attribute::r#id('"),
dict(id='C09-use-raw', property='C09', file='expand/subroutines.rs',
 old='quote! { .#dir(#event_path, #value) }', new='''let value = value.clone().unwrap_or_else(Value::new_true);
            if modifier.is_some() && directive.key.to_unspanned_string().contains('-') {
                let on = event_listener_event_path(&Directive { modifier: None, ..directive.clone() });
                return quote! { .#dir(#on, #value) };
            }
            quote! { .#dir(#event_path, #value) }''',
 needs='an undelegated listener on an event with a dash in its name', breaks='the listener is delegated',
 demo="has 'div on:my-event:undelegated={f};' 'event::undelegated(::leptos::tachys::html::event::r#my_event)'"),
dict(id='C23-turbofish-last', property='C23', file='expand/utils.rs',
 old='''    path.segments
        .iter_mut()
        .for_each(''', new='''    path.segments
        .last_mut()
        .into_iter()
        .for_each(''', needs='generics on a path segment that is not the last', breaks='that generic list is not in turbofish form',
 demo="has 'a::B<T>::C<U>;' 'a::B::<T>::C::<U>'"),
dict(id='C19-id-set', property='C19', edits=[
 ('expand.rs','let mut ids = Vec::<KebabIdent>::new();','let mut ids = std::collections::HashSet::<String>::new();'),
 ('expand.rs','ids.push(id.clone());','ids.insert(id.repr().to_string());'),
 ('expand.rs','''                .map(|ident| ident.repr())
                .collect::<Vec<_>>()''','''                .map(String::as_str)
                .collect::<Vec<_>>()''')],
 needs='two or more ids on one component', breaks='their order changes from build to build',
 demo="for i in 1 2 3 4 5 6 7 8; do has 'Com #a #b #c #d #e;' '\"abcde\"'; done"),
dict(id='C22-brace-modifier', property='C22', file='ast/attribute/directive.rs',
 old='''            value = Some(ident.into_block_value());
            modifier = try_parse_modifier(input)?;''', new='''            value = Some(ident.into_block_value());
            modifier = try_parse_modifier(input)?.filter(|m| m != "undelegated");''',
 needs='the short form with a modifier', breaks='`on:{click}:undelegated` is delegated',
 demo="same 'div on:{click}:undelegated;' 'div on:click:undelegated={r#click};'"),
dict(id='C13-acronym', property='C13', file='expand/utils.rs',
 old="if char.is_ascii_uppercase() && !new.is_empty() {", new="if char.is_ascii_uppercase() && !new.is_empty() && !new.ends_with('_') {",
 needs='a slot name with an underscore before a capital', breaks='the wrong prop is set',
 demo="has 'Com { slot:Tab_A; }' '.r#tab__a('"),
dict(id='C15-style-modifier', property='C15', file='expand/subroutines.rs',
 old='''        "prop" => {
            let key = key.to_lit_str();
            emit_error_if_modifier(modifier.as_ref());''', new='''        "prop" => {
            let key = key.to_lit_str();
            if value.is_none() {
                emit_error_if_modifier(modifier.as_ref());
            }''', needs='a modifier on `prop:` with a value', breaks='it is silently accepted',
 demo="rejects 'input prop:value:once=\"a\";' 'modifier'"),
dict(id='C02-spread-last', property='C02', file='expand.rs',
 old='Attr::Spread(spread) => spread_attrs.extend(xml_spread_tokens(spread)),', new='Attr::Spread(spread) => spread_attrs = xml_spread_tokens(spread),',
 needs='two spreads on one element', breaks='only the last is kept',
 demo="has 'div {..a} {..b};' '.add_any_attr(a).add_any_attr(b)'"),
dict(id='C01-slot-bytes', property='C01', file='expand/utils.rs',
 edits=[('expand/utils.rs','for char in ident.chars() {','for char in ident.bytes().map(char::from) {')],
 needs='a slot whose name has a non-ASCII letter', breaks='panic',
 demo="run expand 'Com { slot:Tabé; }'; case \"$OUT\" in *panicked*) fail panics;; esac\nhas 'Com { slot:Tab; }' '.r#tab('"),
dict(id='C03-empty-format', property='C03', file='ast/value.rs',
 old='quote_spanned!(brackets.span.join()=> move || {#tokens})', new='''// a single token needs no braces
                    if tokens.clone().into_iter().count() <= 2 {
                        quote_spanned!(brackets.span.join()=> move || #tokens)
                    } else {
                        quote_spanned!(brackets.span.join()=> move || {#tokens})
                    }''', needs='a bracket with two or fewer tokens which is not an expression on its own (`[x;]`, `[]`)', breaks='closure body differs from `{ tokens }`',
 demo="has 'div data-x=[x;];' 'move||{x;}'"),
dict(id='C07-prop-order', property='C07', file='expand.rs',
 old='Attr::Kv(attr) => attrs.extend(component_kv_attribute_tokens(attr)),', new='''Attr::Kv(attr) if attr.key().repr() == "key" => {
            // `key` first
            let rest = std::mem::replace(&mut attrs, component_kv_attribute_tokens(attr));
            attrs.extend(rest);
        }
        Attr::Kv(attr) => attrs.extend(component_kv_attribute_tokens(attr)),''',
 needs='a prop called `key` after another prop', breaks='source order', demo="has 'For each={a} key={b};' '.r#each({a}).r#key({b})'"),
dict(id='C10-attr-underscore', property='C10', file='expand/subroutines.rs',
 old='let attr_kind = AttributeKind::from(&*directive.key.to_lit_str().value());', new="let attr_kind = AttributeKind::from(&*directive.key.to_lit_str().value().replace('_', \"-\"));",
 needs='`attr:` with an underscore in the name on a component', breaks='a checked attribute becomes a custom one',
 demo="has 'Com attr:accept_charset=\"x\";' 'attribute::r#accept_charset(\"x\")'\nhas 'Com attr:data-x=\"x\";' 'custom_attribute(\"data-x\",\"x\")'"),
dict(id='C11-paren-children', property='C11', file='ast/children.rs',
 old='''        self.0.iter().filter_map(|child| match child {
            Child::Node(node) => Some(node),
            Child::Slot(..) => None,
        })''', new='''        self.0.iter().filter_map(|child| match child {
            Child::Node(NodeChild::Value(Value::Lit(syn::Lit::Str(s)))) if s.value().is_empty() => None,
            Child::Node(node) => Some(node),
            Child::Slot(..) => None,
        })''', needs='an empty string literal as child', breaks='the empty text node is dropped',
 demo="has 'div { \"\" }' '.child(::leptos::prelude::IntoRender::into_render(\"\"))'"),
dict(id='C12-clone-args', property='C12', file='expand.rs',
 old='clones.extend(component_clone_tokens(dir));', new='''if IS_SLOT && element.children_args().is_some() {
                    attrs.extend(component_clone_tokens(dir));
                } else {
                    clones = [component_clone_tokens(dir), clones.clone()].into_iter().collect();
                }''', needs='two or more `clone:` on one component', breaks='clones are taken in reverse order',
 demo="has 'Com clone:a clone:b { \"x\" }' 'letr#a=r#a.clone();letr#b=r#b.clone();'"),
dict(id='C14-single-slotless', property='C14', file='lib.rs',
 old='if children.len() == 1 {', new='if children.element_children().count() == 1 && children.slot_children().count() <= 1 {',
 needs='one node followed by one slot at the root', breaks='the slot at the root is dropped instead of rejected',
 demo="rejects 'div; slot:Tab;' 'slots should be inside'"),
dict(id='C16-neg-literal', property='C16', file='ast/attribute.rs',
 old='''        if input.peek(syn::Ident::peek_any) && input.peek2(Token![:]) {''', new='''        if input.peek(syn::Ident) && input.peek2(Token![:]) {''',
 needs='the `use:` directive (a keyword)', breaks='rejected', demo="accepts 'div use:d;'"),
dict(id='C17-semi-rest', property='C17', file='ast/children.rs',
 old='<Token![;]>::parse(input).unwrap();', new='''<Token![;]>::parse(input).unwrap();
                        // more of them add nothing
                        while !input.is_empty() && !input.peek(syn::Ident) && !input.peek(syn::Lit) {
                            let _ = <proc_macro2::TokenTree as Parse>::parse(input);
                        }''', needs='an extra semicolon followed by a block or bracket', breaks='the sibling after the error is dropped',
 demo="""printf 'use std::fmt;\\n' > /dev/null
run expand 'div { ; {undefined_a.b()} "x" }'; case "$OUT" in *'extra semi-colon'*) ;; *) fail error;; esac
cat >> "$S/expander/src/lib.rs" <<'X'
/// Like `expand`, but expands to the string even with errors.
#[proc_macro]
pub fn anyway(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let text = std::rc::Rc::new(std::cell::RefCell::new(String::new()));
    let t = text.clone();
    let _ = proc_macro_error2::entry_point(std::panic::AssertUnwindSafe(move || { let o = leptos_mview_core::mview_impl(input.into()); *t.borrow_mut() = o.to_string(); o.into() }), false);
    let s = text.borrow().clone();
    quote::quote!(#s).into()
}
X
run anyway 'div { ; {undefined_a.b()} "x" }'
case "$OUT" in *'undefined_a.b()'*) ;; *) fail "sibling lost";; esac"""),
dict(id='C18-build-span', property='C18', file='expand.rs',
 old='let build = quote_spanned!(path.span()=> .build());', new='let build = if element.children_args().is_some() { quote!(.build()) } else { quote_spanned!(path.span()=> .build()) };',
 needs='a component with closure parameters', breaks='missing-prop errors are reported on the whole macro call',
 demo="run located 'Com |x| { \"a\" }'; case \"$OUT\" in *'build@3:1-3:4'*) ;; *) fail build;; esac"),
dict(id='C20-into-method', property='C20', file='expand/subroutines.rs',
 old='|val| quote! { ::std::convert::Into::into(#val) },', new='|val| if matches!(val, Value::Lit(_)) { quote! { Into::into(#val) } } else { quote! { ::std::convert::Into::into(#val) } },',
 needs='`use:` with a literal argument', breaks='refers to `Into` by an unqualified name', demo="has 'div use:d=\"x\";' '::std::convert::Into::into(\"x\")'"),
dict(id='C21-svg-nested', property='C21', file='expand/subroutines.rs',
 old='''        let child_method = syn::Ident::new("child", child.span());''', new='''        let child_method = syn::Ident::new("child", child.span());
        if let NodeChild::Element(e) = child {
            if e.children().is_some_and(|c| c.is_empty()) && e.attrs().is_empty() {
                let tag = e.tag();
                if let crate::ast::Tag::Html(t) = tag {
                    ts.extend(quote! { .#child_method(::leptos::prelude::IntoRender::into_render(::leptos::tachys::html::element::#t())) });
                    continue;
                }
            }
        }''', needs='an element with selectors and an empty block inside an element', breaks='its selectors are lost there',
 demo="has 'p { div.a {} }' '\"a\"'"),
]
