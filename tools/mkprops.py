import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="The snapshot tests sample about a hundred declarations; "
p("C01","Parsing then printing an item reproduces its tokens",
 "For every token sequence the item parser accepts, printing the returned item gives back exactly that sequence: the same tokens in the same order and nesting, none dropped, duplicated or invented. For the entry point that reads from a token iterator, the printed item followed by the tokens left in the iterator is the original sequence. Reading a where-clause predicate and printing it has the same guarantee.",
 ["inputs"],"every token stream (any length, nesting and token text) on which the parser returns an item",
 T+"the guarantee is over every accepted token stream and every combination of optional parts, and a token lost on one untested combination is invisible.",
 ["src/parse.rs","src/parse_fn.rs","src/parse_impl.rs","src/parse_type.rs","src/parse_utils.rs","src/parse_mod.rs","src/parse_extern.rs","src/types.rs","src/punctuated.rs"],
 [("token consumption","parse_*.rs: every tokens.next()/peek().clone() pair"),("printing","types.rs: impl ToTokens for each node")],["parse_item","consume_item","ToTokens::to_tokens"])
p("C02","Printed tokens keep the source location of the tokens they came from",
 "When a parsed item is printed, every delimited group that is rebuilt has the delimiter and the source location of the group it was parsed from, and no token is replaced by one with another location. The location a node reports for itself is the location spanned by its own printed tokens.",
 ["inputs"],"every accepted token stream with arbitrary spans, and every node type that reports a location",
 "Spans are all call-site in the unit tests (quote!), so a wrong location compares equal there.",
 ["src/types.rs","src/types_edition.rs","src/parse_type.rs","src/parse_impl.rs","src/parse_utils.rs"],
 [("group location record","types_edition.rs GroupSpan::new, types.rs GroupSpan::quote_with"),("span accessors","types_edition.rs implement_span!")],["to_tokens","span()"])
p("C03","Items are classified by keyword and every token slot holds its own token",
 "A declaration is classified by its defining keyword, and in every parsed tree each keyword or punctuation slot holds a token of exactly the documented spelling (colons in colon slots, `unsafe` in unsafe slots, and so on). Bodies are unit, tuple or named according to their delimiter, only constants introduced by `static` may be mutable or appear as static, and members of impl, trait and extern blocks are only the documented kinds.",
 ["inputs"],"every accepted token stream and every node of the returned tree",
 T+"a slot filled from the wrong token or a keyword routed to the wrong item kind shows only on particular combinations of qualifiers and optional parts.",
 ["src/parse.rs","src/parse_fn.rs","src/parse_impl.rs","src/parse_extern.rs","src/parse_mod.rs","src/parse_type.rs","src/types.rs"],
 [("item dispatch","parse.rs consume_item, parse_impl.rs consume_either_fn_type_const_static_impl"),("slot filling","parse_*.rs struct literals")],["returned tree fields"])
p("C04","Attributes are attached to the right node, complete and in order",
 "Outer attributes written before an item, member, field, variant or parameter are the attributes of that node, in source order, and are never marked as inner; inner attributes at the start of a body are the inner attributes of that body and always carry their `!`. An attribute's path is everything before its value, and its value is empty, the contents of its group, or everything after `=`.",
 ["inputs"],"every accepted token stream containing any number of attributes on any node",
 T+"only a few attribute shapes are sampled, and attributes are repeated lists of unbounded length.",
 ["src/parse_utils.rs","src/parse_impl.rs","src/parse_mod.rs","src/parse_type.rs","src/parse_fn.rs"],
 [("attribute loop","parse_utils.rs consume_attributes_with_inner")],["attributes / inner_attributes of every node"])
p("C05","No token is ignored: leftovers are refused or handed back",
 "The whole-stream item parser never returns an item while tokens follow the declaration, and the iterator entry point consumes exactly one declaration, leaving every following token in place. Tokens inside a group that belongs to the declaration are never skipped.",
 ["inputs"],"every token stream, with any trailing tokens after the declaration and at the end of any nested group",
 "Tests use well-formed declarations with nothing after them; the set of possible trailing tokens is unbounded.",
 ["src/parse.rs","src/parse_type.rs","src/parse_impl.rs","src/parse_utils.rs"],
 [("trailing-token check","parse.rs parse_item"),("end-of-group loops","parse_type.rs, parse_fn.rs, parse_impl.rs, parse_mod.rs loops on peek().is_none()")],["parse_item result","iterator after consume_item"])
p("C06","Parsing terminates on every input",
 "Every parsing loop and every recursive descent makes progress through the remaining tokens on each step, so parsing any finite token stream ends with a result or a panic.",
 ["inputs"],"every finite token stream, including malformed ones",
 "A loop that stops advancing on one unusual token hangs the compiler on that input only.",
 ["src/parse_type.rs","src/parse_fn.rs","src/parse_impl.rs","src/parse_mod.rs","src/parse_utils.rs"],
 [("parser loops","every loop in parse_*.rs")],["parse_item returns"])
p("C07","Separators inside angle brackets never split a list",
 "Types, bounds and arguments end only at a separator outside all `<...>` pairs opened since their start, where the `>` of `->` closes nothing. A separator at that level always ends the element. The value of a constant is an expression, where `<` and `>` are operators: it ends at its first `;`.",
 ["inputs"],"every token sequence and nesting depth of angle brackets in a field type, parameter type, return type, bound, where-predicate or generic argument; every value of a constant",
 "Nesting depth and the positions of arrows and separators are unbounded; tests reach depth two.",
 ["src/parse_utils.rs","src/parse_type.rs"],
 [("bracket-counting scan","parse_utils.rs consume_stuff_until")],["ty / bound / args tokens of parsed nodes"])
p("C08","Unsupported enum discriminants give an error, never a wrong tree",
 "An enum whose variant has a discriminant made of more than one token tree is reported as an error value located at that discriminant, not accepted and not a panic. A single-token discriminant is kept as the variant's value.",
 ["inputs"],"every enum declaration and every token sequence after `=` in a variant",
 "Tests use two discriminant shapes; the tokens after `=` and the position of the variant are arbitrary.",
 ["src/parse_type.rs","src/parse.rs","src/error.rs"],
 [("discriminant parsing","parse_type.rs consume_enum_discriminant, parse_enum_variants")],["Err returned by parse_item"])
p("C09","Printing any tree emits every present part exactly once, in grammar order",
 "For any tree, parsed or built or edited by the user, printing emits each present part exactly once and in the order Rust's grammar requires, omits absent optional parts, and wraps bodies in the recorded delimiters (a module is printed with its semicolon if it has one, otherwise with its braced body).",
 ["inputs","programs"],"every value of every printable node type, with arbitrary list lengths and any combination of optional parts",
 "Tests print only trees that were just parsed; combinations produced by editing are never printed.",
 ["src/types.rs","src/punctuated.rs"],
 [("printing","types.rs impl ToTokens")],["to_tokens output"])
p("C10","Item-level accessors agree with the wrapped declaration",
 "For every item, the attribute, generic-parameter and name accessors return the ones of the declaration it wraps (nothing where that kind has none), the mutable accessors give access to the same parts, and each downcast returns the declaration exactly when the item is of that kind.",
 ["inputs","programs"],"every item of every kind",
 "Only a few accessor/kind pairs of the 13x19 table are exercised.",
 ["src/types_edition.rs"],[("accessor tables","types_edition.rs impl Item")],["Item methods"])
p("C11","Field, variant and attribute queries describe the declaration",
 "The field-name, field-token and field-type queries return one entry per field in declaration order (indices for tuple fields), the c-like query is true exactly when no variant has a body, the static query tells `static` from `const`, the single-type query returns the only tuple field, and attribute queries return the single path segment and exactly the value tokens.",
 ["inputs","programs"],"every struct, variant, enum and attribute value, with any number of fields, variants or tokens",
 "Field and variant counts are unbounded; tests use one to four.",
 ["src/types_edition.rs"],[("queries","types_edition.rs impl Struct / Enum / EnumVariant / Attribute")],["query results"])
p("C12","Generic parameters are classified and created consistently",
 "A parameter counts as lifetime, const or type according to its prefix token and as at most one of them; the constructors create a parameter of the requested class with the given name and bound; the per-class queries of a declaration return exactly the parameters of that class, in order.",
 ["inputs","programs"],"every generic parameter and parameter list of any length",
 "Lists mix classes in unbounded ways; tests use three parameters.",
 ["src/types_edition.rs"],[("classification","types_edition.rs impl GenericParam, implement_common_methods!")],["is_lifetime / is_ty / is_const / get_*_params"])
p("C13","Builders add exactly what was asked and keep everything else",
 "Adding a generic parameter or a where-predicate keeps all existing parts and their order and adds exactly that one (lifetimes first, everything else last), creating the list when absent. The where clause created for a derive contains exactly the declaration's own predicates and one predicate per type parameter with the given trait.",
 ["inputs","programs","histories"],"every declaration, every added parameter or predicate, any existing list with or without trailing comma",
 "The combinations of list length, trailing comma and class are unbounded.",
 ["src/types_edition.rs","src/punctuated.rs","src/types.rs"],
 [("builders","types_edition.rs with_param, with_where_predicate, create_derive_where_clause, with_predicate")],["resulting declaration"])
p("C14","Inline generic arguments name exactly the declared parameters",
 "The inline arguments derived from a parameter list name every parameter once, in order, lifetimes with their apostrophe and without bounds or the `const` keyword, comma separated in angle brackets; the owned form lists the same arguments with the original tokens.",
 ["inputs","programs"],"every generic parameter list",
 "List length and class mix are unbounded.",
 ["src/types.rs","src/types_edition.rs"],[("inline args","types.rs impl ToTokens for InlineGenericArgs; types_edition.rs to_owned_args")],["printed args"])
p("C15","Comma-separated lists keep items, order and commas",
 "A list holds its items in insertion order, pushing appends and inserting places exactly one item, a missing comma on the last item is not reported or printed, and once another item follows, the items are separated by exactly one comma.",
 ["inputs","histories"],"every list and every sequence of push, insert, print and iterate operations",
 "Histories of operations are unbounded; tests rarely call the list operations directly.",
 ["src/punctuated.rs"],[("list","punctuated.rs impl Punctuated")],["items / punct / len / to_tokens"])
p("C16","Errors keep every message and render each at its location",
 "An error always has at least one message; combining keeps both sides' messages in order; rendering emits one compile_error invocation per message, in order, with that message's text and location; the reported location and text are those of the first message.",
 ["inputs","histories"],"every error built by the constructors and any history of combinations",
 "Message counts and spans are unbounded and spans are not observable in the tests.",
 ["src/error.rs"],[("error aggregation","error.rs impl Error / ErrorMessage")],["to_compile_error, span, Display"])
p("C17","Parsing and printing are pure functions of their input",
 "Parsing, querying, editing and printing read and write nothing but their arguments: no global or thread-local state, no I/O, environment, time, randomness or hash-order dependence, and no unsafe code. Hence equal inputs give equal results on every run.",
 ["inputs","histories","schedules"],"every call of every public function, in any order and on any thread",
 "Nondeterminism or hidden state shows only across runs, orders or threads.",
 ["src/lib.rs","src/parse.rs","src/types.rs","src/types_edition.rs","src/error.rs","src/punctuated.rs"],[("effects","whole crate call graph")],["public API"])
p("C18","Inspecting and printing a tree never panics",
 "Printing, debug-printing, cloning, querying and editing a tree never panics, for any tree, except where the documentation announces a panic (inserting past the end of a list, converting a malformed parameter list, a malformed name text given to a constructor). Entry points that parse tokens are not covered.",
 ["inputs","programs"],"every value of every public node type and every documented-panic-free method",
 "A panic on an empty list or unusual variant needs that exact value.",
 ["src/types.rs","src/types_edition.rs","src/punctuated.rs","src/error.rs"],[("panicking operations","unwrap/index/unreachable in types.rs, types_edition.rs, punctuated.rs")],["to_tokens, queries, builders"])
p("C19","Reading a type as a path keeps its tokens or declines",
 "When a type expression is read as a path, printing the path gives exactly the type's tokens (an invisible group around the whole type removed), segments are in order with their separators and generic arguments, and a type that is not a path yields nothing rather than a partial path.",
 ["inputs"],"every token sequence of a type expression for which a path is returned",
 "The set of type expressions is unbounded; tests use a dozen.",
 ["src/parse_utils.rs","src/parse_type.rs","src/types_edition.rs","src/types.rs"],[("path parsing","parse_utils.rs consume_path, consume_colon2; parse_type.rs consume_generic_args")],["TypeExpr::as_path"])
p("C20","Well-formed declarations of the supported forms are accepted",
 "parse_item accepts, without panic and without Err, every declaration built from the supported grammar and returns the matching Item kind: struct (unit, tuple, named), enum, union, mod, trait, impl, type alias, fn, const/static, use, macro invocation, extern block and extern crate, with any combination of the optional parts: outer attributes (inner ones in bodies), visibility (none, `pub`, `pub(...)`, `crate`), the keyword qualifiers in source order, generic parameter lists (plain, bounded, lifetime and const parameters; no defaults), super-bounds, where clauses (also empty, also with trailing comma), any type with balanced angle brackets (paths with arguments, references, fn pointers, qualified paths, tuples, slices), any value expression of a constant, receivers in all six forms, trailing commas, `;` or a body where either is allowed, single-token enum discriminants, and `{}` or `()` macro bodies. Excluded: forms the documentation says are unsupported, and a qualified-path type right after `impl` (ambiguous without a full grammar).",
 ["inputs"],"every combination of the optional parts, with arbitrary names and arbitrary contents of unparsed groups",
 "The combinations of optional parts are multiplicative; tests sample a few per item kind.",
 ["src/parse.rs","src/parse_type.rs","src/parse_fn.rs","src/parse_impl.rs","src/parse_mod.rs","src/parse_utils.rs"],[("grammar coverage","all parse_*.rs")],["parse_item"])
p("C21","Copies equal their original and defaults are empty",
 "A clone of any node, list or error (also cloning over an existing value) has exactly the same parts as the original: the same tokens, the same optional parts present, the same list elements, commas and trailing-comma state. The default of a list, parameter list or where clause is empty and has its own keyword or brackets.",
 ["inputs","programs"],"every value of every public node type, of lists and of errors",
 "A copy that drops one optional part or the trailing-comma state differs only for values that have it; tests never compare a clone with its original.",
 ["src/types.rs","src/punctuated.rs","src/error.rs"],[("copies","impl Clone / derive(Clone) of each node type, Punctuated, Error"),("defaults","types.rs impl Default for GenericParamList, WhereClause; punctuated.rs impl Default")],["clone()","default()"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
