#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
CORE="leptos-mview-core/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=("return value of the mview! expansion","diagnostics emitted during it")):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":[f if f.startswith(("src/","leptos","README","tests")) else CORE+f for f in files],
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":CORE+b if not b.startswith(("src/","leptos")) else b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":None}})

p("C01","Expansion is total: no input makes the macro panic or hang",
  "For every token sequence a user can write inside mview!, expansion terminates and either returns tokens or reports errors through the compiler's diagnostics. It never panics (a panic is shown as a bare 'proc macro panicked' on the whole invocation) and never loops.",
  ["inputs"],"every token sequence (identifiers incl. keywords and `_`, punctuation, literals, delimited and invisible groups), at every position of the grammar",
  "the suite only feeds ~60 well-formed views; malformed, half-typed and keyword-bearing token sequences are unbounded in number and the trybuild error suite is disabled",
  ["lib.rs","parse.rs","ast/ident.rs","ast/element.rs","ast/children.rs","ast/value.rs","expand.rs","expand/utils.rs"],
  [("peek-then-unwrap parsing","ast/value.rs"),("Ident::new_raw on converted names","ast/ident.rs"),("slot grouping","expand.rs"),("child loop always consumes a token","ast/children.rs")])
p("C02","Accepted input is never silently dropped or duplicated",
  "If expansion reports no error, every piece of code the user wrote in the view (value blocks, bracketed closures, string/number literals, spread expressions, closure parameters, nested elements and slots) occurs in the generated code exactly once. Content is either used or reported, never lost.",
  ["inputs"],"every accepted view up to the stated size, including odd placements (slots in HTML elements, slots in slots, closure parameters or clones on any kind of element)",
  "tests look for a few expected substrings; a construct that is accepted and thrown away leaves them all passing",
  ["expand.rs","expand/subroutines.rs","ast/element.rs","ast/children.rs"],
  [("xml_to_tokens / component_to_tokens assemble all collected parts","expand.rs"),("element_children/slot_children partition","ast/children.rs")])
p("C03","Value forms expand as documented",
  "A literal value is passed as written, `{code}` is passed as that code, `[code]` becomes a `move ||` closure returning that code, and `f[args]` becomes a `move ||` closure returning `format!(args)`; the user's tokens inside are passed through unchanged. This holds wherever a value may appear: attributes, directives, props, children, on elements, components and slots.",
  ["inputs"],"every value form x every position it can occupy x arbitrary enclosed code and literals",
  "each form is exercised in two or three positions with one sample expression each",
  ["ast/value.rs"],[("Value::parse","ast/value.rs"),("Value::to_tokens","ast/value.rs")])
p("C04","Every tag name selects the right kind of element constructor",
  "A tag starting with an ASCII uppercase letter is a component; otherwise a known SVG name is an SVG element, a name containing `-` is a custom element created under exactly that name, a known MathML name is a MathML element, and every other name is the HTML element of that name. A tag written as a path or with generics is always a component.",
  ["inputs"],"every tag name up to the stated length, over letters, digits, `_` and `-`",
  "tests use about ten tag names; the SVG and MathML tables (100 entries, searched by bisection) are not exercised at all",
  ["ast/tag.rs","expand.rs"],[("TagKind::from, sorted tables + binary search","ast/tag.rs"),("xml_to_tokens tag path","expand.rs")])
p("C05","Kebab-case names survive exactly",
  "A kebab-case name denotes the concatenation of its pieces regardless of spacing, with a raw `r#` prefix dropped; HTML attribute, class, id, style and custom-element names keep the hyphens, while component props, slots' props and Rust identifiers derived from it replace each `-` by `_`. A name ends where the next token cannot continue it, so neighbouring names are never merged or split.",
  ["inputs"],"every sequence of name pieces (identifiers, keywords, dashes, integers) up to the stated number and length",
  "tests list 16 names; the piece sequences, spacing and adjacent-name boundaries are unbounded",
  ["ast/ident.rs"],[("KebabIdent::parse","ast/ident.rs"),("KebabIdent::to_snake_ident","ast/ident.rs")],
  [("repr","hyphenated text of the name",CORE+"ast/ident.rs")])
p("C06","Plain attributes on HTML, SVG, MathML and custom elements",
  "Each `key=value`, `key` (true) or `{key}` attribute of an element sets exactly that attribute to that value, once, in source order: `ref` binds the node reference, `class`/`style` and ordinary or `aria-` names use the checked setter of that name, other hyphenated names, and all names on SVG and custom elements, are set under their literal name. Attributes never leak to another element.",
  ["inputs"],"every attribute name and form on every kind of element, in every order, up to the stated number of attributes",
  "a dozen attribute names are rendered in one order each; the name classification is over all strings",
  ["expand/subroutines.rs","ast/attribute/kv.rs","ast/attribute.rs"],[("xml_kv_attribute_tokens, AttributeKind","expand/subroutines.rs"),("KvAttr::parse","ast/attribute/kv.rs")])
p("C07","Attributes on components and slots become props",
  "Each `key=value`, `key` or `{key}` attribute on a component or slot sets the prop of that name (hyphens turned into underscores) to that value exactly once, in source order, and all props are set before the props are built. No prop is added that the user did not write.",
  ["inputs"],"every prop name and form, in every order, up to the stated number of props, on components and on slots",
  "tests cover a handful of props, never hyphenated shorthand, keyword props or order",
  ["expand.rs","expand/subroutines.rs"],[("component_kv_attribute_tokens","expand/subroutines.rs"),("component_to_tokens","expand.rs")])
p("C08","Class and id selectors",
  "`.name` adds the class `name` and `#name` the id `name`, hyphens kept, for any mix and order of selectors; on components all ids together form one space-separated id value in source order and each class is added unconditionally. Selectors combine with, and never replace, class/id attributes and directives.",
  ["inputs"],"every sequence of selectors up to the stated length with arbitrary names, on elements and components",
  "two component tests; ids on HTML elements are not tested at all (turning `.id()` into `.title()` fails nothing)",
  ["ast/attribute/selector.rs","expand/subroutines.rs","expand.rs"],[("SelectorShorthands::parse","ast/attribute/selector.rs"),("xml_selectors_tokens","expand/subroutines.rs"),("id joining","expand.rs")])
p("C09","Directives on elements",
  "On an element `class:`/`style:`/`prop:` apply to exactly the named class, style property or DOM property, `on:event` listens to exactly that event (undelegated only when `:undelegated` is given), and `use:` calls exactly the named directive with its argument converted by `Into` (unit when absent). Class and style directives are applied after plain attributes, so they add to `class=`/`style=` wherever they are written, and directives keep their source order.",
  ["inputs"],"every directive kind x key form (identifier, kebab, string, braced shorthand) x value form x modifier x order among other attributes",
  "each directive is tested in one form and position; on:, use:, prop: and modifiers are never observed",
  ["expand/subroutines.rs","ast/attribute/directive.rs","expand.rs"],[("xml_directive_tokens","expand/subroutines.rs"),("Directive::parse","ast/attribute/directive.rs"),("attrs before directives","expand.rs")])
p("C10","Directives and spreads on components",
  "On a component, `class:`, `style:`, `attr:`, `prop:`, `on:` and `use:` directives and `{..spread}` are all forwarded to the component's root element with exactly the given name and value (true when omitted for class/style/attr/prop), in source order after the selectors' classes and id. They never become props.",
  ["inputs"],"every directive kind x key form x value form x order, and spreads, up to the stated number",
  "tests forward class:, attr: and one spread; prop:, on:, use:, style: and modifiers on components are never expanded by any test",
  ["expand/subroutines.rs","expand.rs"],[("directive_to_any_attr_path","expand/subroutines.rs"),("add_any_attr tuple","expand.rs")])
p("C11","Children keep their order and nesting",
  "Each element, component or slot receives exactly the children written inside its own braces or parentheses, in source order, each rendered once and at its own nesting level; `;` gives no children, and braces and parentheses mean the same.",
  ["inputs"],"every child list (strings, blocks, closures, elements, components) and nesting up to the stated sizes, either delimiter",
  "tests check substrings of a few fixed trees",
  ["ast/children.rs","ast/element.rs","expand/subroutines.rs","expand.rs"],[("Children::parse","ast/children.rs"),("xml_child_methods_tokens, component_children_tokens","expand/subroutines.rs")])
p("C12","Children closures and clones on components and slots",
  "`|params| { children }` passes a closure taking exactly those parameters whose body is the children (empty if there are none); without parameters the children are passed as ordinary children. Each `clone:x` makes a clone of `x` that is visible only to those children and is taken before the children closure, so the original is not moved, and `clone:` has no other effect.",
  ["inputs"],"every parameter token list, any number of clones with arbitrary names, combined with any attributes, on components and slots",
  "two shapes of closure parameters and single clones are compiled; order and scope are not observed",
  ["expand/subroutines.rs","ast/element.rs","expand.rs"],[("component_children_tokens","expand/subroutines.rs"),("component_clone_tokens","expand/subroutines.rs"),("parse_closure_args","ast/element.rs")])
p("C13","Slots reach their parent component under the right name and order",
  "All `slot:Name` children of a component or slot are passed to the parent's prop named Name in snake case: a single one by itself, several of the same name as one list in source order, each converted with `Into`. They are not among its ordinary children, which are unaffected, and slots are passed in order of first appearance.",
  ["inputs","configurations"],"every mix of slots and ordinary children up to the stated number, any UpperCamelCase name, any nesting of slots in slots",
  "three slot names are tested; order across names, slots within slots and name conversion are not",
  ["expand.rs","expand/utils.rs","ast/children.rs"],[("slots_to_tokens","expand.rs"),("upper_camel_to_snake_case","expand/utils.rs")])
p("C14","Shape of the root",
  "A view with exactly one top-level node is that node itself, and any other number gives one fragment of all of them in order (empty for none). Slots are rejected at the top level with an error, and the expansion is a single expression usable wherever an expression is.",
  ["inputs"],"every number (0..N) and mix of top-level nodes",
  "tests have one- and two-node roots only by type annotation",
  ["lib.rs","expand.rs"],[("mview_impl","lib.rs"),("children_fragment_tokens","expand.rs")])
p("C15","Unsupported constructs are always reported",
  "Every construct the documentation rules out is reported as an error and never silently accepted: unknown directives, `attr:`/`clone:` on elements, anything but props/clone on slots, modifiers other than `on:...:undelegated`, `clone:` with a value, unsupported bracket prefixes, non-string literal children, a missing value after `=`, stray tokens, unterminated elements, closure parameters or slots where they cannot be used, and slots at the root.",
  ["inputs"],"every name/value in each rejected construct (all directive names other than the known ones, all prefixes other than `f`, ...), at every position",
  "the trybuild error suite is commented out, so no test checks any diagnostic; rejected names are infinitely many",
  ["expand.rs","expand/subroutines.rs","expand/utils.rs","ast/value.rs","ast/children.rs","ast/element.rs","lib.rs"],
  [("emit_error!/abort! at each rejected form","expand/subroutines.rs"),("emit_error_if_modifier","expand/utils.rs"),("Element::parse fallbacks","ast/element.rs")])
p("C16","Documented syntax is never rejected",
  "Every view written in the documented grammar - any tag, selectors, attributes, directives, spreads, closure parameters, children and slots in the documented forms and combinations - expands without any error.",
  ["inputs"],"every sentence of the documented grammar up to the stated size with arbitrary names and values, including names that are Rust keywords",
  "the tests contain a few dozen sentences of an infinite grammar",
  ["ast/element.rs","ast/attribute.rs","ast/children.rs","ast/tag.rs","ast/value.rs"],[("Attr::parse dispatch","ast/attribute.rs"),("Element::parse","ast/element.rs")])
p("C17","Errors stay local",
  "A recoverable error in one attribute, child or element (a missing value, an extra semicolon, an invalid child literal, an unsupported prefix or directive, a missing terminator at the end of a block) does not disturb the rest: expansion still returns one expression, and siblings before and after it expand exactly as they would alone.",
  ["inputs"],"every recoverable error kind x position among valid siblings x sibling kinds",
  "no test observes expansion after an error",
  ["ast/children.rs","ast/value.rs","ast/element.rs","parse.rs"],[("Children::parse recovery","ast/children.rs"),("Value::parse_or_emit_err","ast/value.rs")])
p("C18","Errors and user code point at the user's tokens",
  "Every error the macro reports is located on a token of the offending construct in the view, never on the whole macro invocation, unless the view simply ends in the middle of a construct. Code and names the user wrote keep their own source locations in the expansion, and the calls that build a component carry that component's location, so that compiler errors are reported there. Both hold whether or not the compiler can join locations (nightly or stable).",
  ["inputs","configurations"],"every reported error and every value over the explored inputs, with and without span joining",
  "the trybuild suite that compared locations is disabled, so no location is checked",
  ["span.rs","ast/value.rs","ast/element.rs","ast/children.rs","error_ext.rs","expand.rs"],[("span::join","span.rs"),("spans passed to emit_error!/abort!","ast/element.rs")])
p("C19","Expansion depends only on the tokens of the view",
  "Expanding the same view always produces the same code, in every build and run: no order or name depends on hashing, time, addresses, environment or earlier expansions. Whitespace between tokens (which only changes punctuation spacing) changes nothing either, except where Rust's own lexer would read a different token.",
  ["inputs","histories","configurations"],"every explored view x arbitrary hash seeds x a preceding expansion x arbitrary spacing of punctuation",
  "a test run sees one hash seed per process and the assertions are insensitive to order",
  ["expand.rs","ast/ident.rs","ast/element.rs"],[("grouping of slots by name","expand.rs"),("token-based parsing","ast/ident.rs")])
p("C20","Generated code refers only to Leptos and std by absolute path",
  "Every item that generated code refers to on its own account is reached through a `::leptos`, `::std`, `::core`, `::alloc` or `::leptos_mview` absolute path, so a user's own names, imports or modules never capture it and no import is needed. The only unqualified names in the expansion are the user's own tokens, method names, and local placeholders.",
  ["inputs"],"every expansion over the documented grammar up to the stated size, on accepted and on erroneous input",
  "tests import leptos::prelude::* and shadow nothing, so a captured name cannot show up",
  ["expand.rs","expand/subroutines.rs","ast/value.rs","ast/children.rs"],[("quote! templates with absolute paths","expand/subroutines.rs")])
p("C21","An element expands the same wherever it stands",
  "The code generated for an element or component does not depend on where it is placed: at the root, among siblings, inside an element, a component, a closure-taking component or a slot, it is the same up to the wrapper of its container. Names, attributes or options of the surroundings never change it.",
  ["inputs"],"every element form x every container kind and sibling position up to the stated size",
  "tests never compare the same element in two contexts",
  ["expand.rs","expand/subroutines.rs","ast/element.rs","ast/children.rs"],[("recursive ToTokens without context","ast/element.rs")])
p("C22","Documented shorthands mean what they stand for",
  "The documented short forms expand to the same code as their long forms: `key` as `key=true` , `{key}` as `key={key}` with hyphens in the variable replaced by underscores, `dir:{key}` as `dir:key={key}`, `.c` on a component as `class:c=true`, `[e]` as `{move || {e}}`, `f[a]` as `[format!(a)]`, and parentheses around children as braces.",
  ["inputs"],"every name and value in each pair of forms, in element, component and slot position",
  "most pairs are never compared; equivalence is over all names and values",
  ["ast/attribute/kv.rs","ast/attribute/directive.rs","ast/ident.rs","ast/value.rs","expand.rs"],[("BracedKebabIdent::into_block_value","ast/ident.rs"),("Value::new_true","ast/value.rs")])
p("C23","Component paths and generics",
  "A component may be written as any path (`a::b::Com`, leading `::`, `crate::`, `self::`, `super::`) with generic arguments with or without turbofish; the generated code names exactly that path, with every generic list in turbofish form and its arguments unchanged, at every place where the component is named.",
  ["inputs"],"every path up to the stated number of segments with arbitrary segment names, generics on any segment in either form",
  "two paths and three generic types are tested",
  ["ast/tag.rs","expand/utils.rs","expand.rs"],[("Tag::parse path branch","ast/tag.rs"),("turbofishify","expand/utils.rs")])
p("C24","Rendered HTML matches the equivalent leptos view!",
  "Rendering an mview! gives the same HTML and reactive behaviour as the equivalent Leptos view! macro.",
  ["programs","inputs"],"every view and every signal history",
  "rendering is sampled on a few fixed views",
  ["expand.rs","tests/html.rs"],[("expansion into tachys builder calls","expand.rs")])
p("C25","Well-typed views compile; ill-typed ones fail at the offending prop",
  "An expansion of a view whose props and values have the right types compiles, and a missing or ill-typed prop is a compile error located at that component or value.",
  ["programs"],"every component signature and every view",
  "needs the Rust type checker on each program; the trybuild suite is disabled",
  ["expand.rs","tests/ui.rs"],[("spanned builder calls","expand.rs")])
p("C26","The exported macro is exactly the core expansion",
  "The exported mview! macro hands its input to the core expansion unchanged and returns its output and its errors unchanged, whatever was expanded before; whenever expansion aborts or records an error, at least one error is recorded and the stand-in left for the macro call is exactly `()`.",
  ["inputs"],"every input",
  "only ordinary expansions are compiled; error output is never observed",
  ["leptos-mview-macro/src/lib.rs","src/lib.rs"],[("#[proc_macro_error] entry point","leptos-mview-macro/src/lib.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
for x in P:
    if sch: jsonschema.validate(x,sch)
    assert x["statement"].count(". ")<=2, x["id"]
print(len(P))
