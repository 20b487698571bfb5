#!/usr/bin/env python3
"""Single source of the property list; writes properties.jsonl."""
import json, os
D = "pin-project-internal/src/pin_project/derive.rs"
A = "pin-project-internal/src/pin_project/args.rs"
AT = "pin-project-internal/src/pin_project/attribute.rs"
PD = "pin-project-internal/src/pinned_drop.rs"
U = "pin-project-internal/src/utils.rs"
L = "src/lib.rs"
IL = "pin-project-internal/src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Projection hands out exactly the fields of the value it was called on",
  "For every struct or enum a user annotates, `project` and `project_ref` on a pinned value return a projection whose every field is a reference to the same-named (or same-position) field of that very value, in the same variant, with no field missing, duplicated or exchanged. Projecting has no other effect: it neither moves, copies, overwrites nor drops anything, and it cannot panic.",
  ["programs", "inputs"], "all annotated declarations (shape, number and types of fields, variants, generics) and all values of them",
  "The tests project a few dozen hand-written types, mostly with one or two fields of plain types; two same-typed fields exchanged in one shape or beyond some size would go unnoticed.",
  [D], [("visit_fields/visit_variants: pattern and constructor built from the same field list", D), ("make_proj_impl: method bodies", D)],
  ["Type::project(self: Pin<&mut Self>)", "Type::project_ref(self: Pin<&Self>)"])
p("C02", "A field is projected pinned if and only if it is marked #[pin]",
  "In every projection, a field marked `#[pin]` is given as `Pin<&mut F>` (`project`), `Pin<&F>` (`project_ref`) or `PhantomData<F>` (`project_replace`), and a field not so marked as `&mut F`, `&F` or `F`, where F is exactly the declared type of that field. Safe code therefore never gets `&mut` access to, or ownership of, a pinned field through the generated API.",
  ["programs"], "all annotated declarations: every mixture of marked and unmarked fields, every kind of field type, every other attribute on the field",
  "Tests look at a handful of field lists; whether the marker is honoured must not depend on the field's type, name, position, siblings, generics or other attributes.",
  [D, U], [("visit_fields: position_exact(PIN) selects the pinned or unpinned form", D), ("SliceExt::position_exact", U)],
  ["fields of the projection types"])
p("C03", "By default a type is Unpin exactly when all its #[pin] field types are",
  "An annotated type with no Unpin-related argument implements `Unpin` if and only if the types of all its `#[pin]` fields (of all variants) implement `Unpin`. Fields that are not marked, type parameters and lifetimes that are used only by those, and `PhantomPinned` fields that are not marked have no influence.",
  ["programs"], "all annotated declarations and all instantiations of their generic parameters",
  "static_assertions in tests/proper_unpin.rs cover some ten types at some concrete instantiations; a bound lost for one variant, one field position or one shape is not seen.",
  [D, L], [("make_unpin_impl, UnpinImpl::Default: helper struct with one field per pinned field", D), ("AlwaysUnpin, PinnedFieldsOf", L)],
  ["trait selection for `Type<..>: Unpin`"])
p("C04", "`!Unpin` and `UnsafeUnpin` decide Unpin exactly as documented",
  "A type annotated with `!Unpin` never implements `Unpin`, whatever its fields are. A type annotated with `UnsafeUnpin` implements `Unpin` exactly where the user's `unsafe impl UnsafeUnpin` applies, and never if there is none.",
  ["programs"], "all annotated declarations with one of the arguments, all user impls of UnsafeUnpin, all instantiations",
  "Tests instantiate a few types; the claim is about every declaration and every conditional impl.",
  [D, L, A], [("make_unpin_impl, UnpinImpl::Negative / UnpinImpl::Unsafe", D), ("Wrapper forwards UnsafeUnpin", L), ("Args::parse maps the arguments", A)],
  ["trait selection for `Type<..>: Unpin`"])
p("C05", "Safe code cannot add its own Unpin impl to an annotated type",
  "A program that writes an `impl Unpin` for an annotated type, conditional or not, generic or for one instantiation, is rejected at compile time in all of the default, `!Unpin` and `UnsafeUnpin` modes, including when the generated impl's bound is known not to hold for that instantiation. An impl of `UnsafeUnpin` is rejected unless the `UnsafeUnpin` argument was given, and always needs the `unsafe` keyword.",
  ["programs"], "all annotated declarations and all attempted user impls",
  "Only tests/ui covers this and it is not run by the stable suite; each such test is a single program.",
  [D, L], [("generated Unpin impl overlaps every user impl", D), ("PinnedFieldsOf / Wrapper keep the bound opaque to coherence", L), ("dummy UnsafeUnpin impl", D), ("pub unsafe trait UnsafeUnpin", L)],
  ["accept/reject verdict of the compiler on the user's crate"])
p("C06", "A destructor for an annotated type exists only through #[pinned_drop]",
  "A program that writes `impl Drop` for an annotated type is rejected, with and without the `PinnedDrop` argument. A `#[pinned_drop]` impl is rejected unless the type has the `PinnedDrop` argument, and the argument without an impl for the whole type is rejected, so a written destructor is never silently ignored and never bypassed.",
  ["programs"], "all annotated declarations (all shapes and generics) and all attempted Drop/PinnedDrop impls",
  "Only tests/ui has such programs and it is not run by the stable suite; whether the conflict arises depends on the declaration's shape and generics.",
  [D, PD], [("make_drop_impl: MustNotImplDrop blanket impl", D), ("dummy PinnedDrop impl", D), ("generated Drop impl requires PinnedDrop", D)],
  ["accept/reject verdict of the compiler on the user's crate"])
p("C07", "Dropping a PinnedDrop type runs the user's destructor exactly once, pinned",
  "When a value of a type with the `PinnedDrop` argument is dropped, the body of the user's `#[pinned_drop]` method is entered exactly once, with a `Pin<&mut Self>` to that value, before any field is dropped and with nothing else happening in between. Types without the argument get no destructor of their own.",
  ["programs", "inputs", "histories"], "all annotated types with the argument, all values, all ways a value comes to be dropped",
  "Tests count drops for a few types; the guarantee is for every shape, generic signature and method form (`mut self`, qualified Pin path, attributes).",
  [D, PD], [("make_drop_impl: Drop::drop delegates to PinnedDrop::drop", D), ("expand_impl: drop calls __drop_inner(self)", PD)],
  ["generated Drop::drop and PinnedDrop::drop"])
p("C08", "The pinned destructor cannot be called or mistyped by safe code",
  "Safe code cannot call the user's pinned destructor (neither by method call, nor by trait path, nor recursively from its own body by a generated name), so it cannot run twice. `#[pinned_drop]` accepts only a safe impl of `PinnedDrop` with the single method `drop(self: Pin<&mut Self>)` (optionally `mut self`, optionally `-> ()`); every other impl, signature, item or argument is rejected.",
  ["programs"], "all user programs containing #[pinned_drop] impls and attempted calls",
  "Only tests/ui covers rejection and is not run by the stable suite.",
  [PD, L], [("validate_impl / validate_sig", PD), ("unsafe fn PinnedDrop::drop", L), ("dummy inner __drop_inner shadows the outer one", PD)],
  ["accept/reject verdict of the compiler on the user's crate"])
p("C09", "A #[pinned_drop] body means what it says",
  "The statements a user writes in a `#[pinned_drop]` method execute as if they stood in an ordinary method of the type with a `self: Pin<&mut Self>` receiver: `self`, `Self`, `Self::X`, associated items, patterns, closures, nested items, macros and generics resolve to the same things and run in the same order (the text of tokens that a macro turns into a string is excepted). A body that would be fine there is accepted, unless it captures `self` inside a format string, matches on `Self::Variant` inside a macro call, or declares an item named like the type or like a generated function, when it may be rejected but not change meaning.",
  ["programs"], "all method bodies and all impl headers",
  "Tests contain about ten bodies; the receiver rewriting must be right for every syntactic position in which `self` or `Self` can occur.",
  [PD, U], [("expand_impl builds __drop_inner from the user's method", PD), ("ReplaceReceiver visitor", U)],
  ["intermediate code of the generated destructor compared to a hand-written method"])
p("C10", "project_replace accounts for every field exactly once",
  "When `project_replace` returns, every `#[pin]` field of the old value has been dropped in place exactly once, in declaration order and without ever being moved; every other field of the old value has been moved, undropped, into the same-named field of the same variant of the result; and the pinned place holds exactly the replacement value, which has not been dropped.",
  ["programs", "inputs"], "all declarations for which project_replace is generated, all old and new values (all pairs of variants)",
  "tests/drop_order.rs and a few others exercise two-field types; loss, duplication or reordering that needs three fields, a mixture, or a certain variant is not seen.",
  [D, L], [("proj_own_body: read unpinned, guards in reverse order", D), ("UnsafeDropInPlaceGuard, UnsafeOverwriteGuard", L)],
  ["Type::project_replace(self: Pin<&mut Self>, Self)"])
p("C11", "project_replace stays sound when a destructor panics",
  "If dropping any `#[pin]` field panics inside `project_replace`, then while unwinding every other `#[pin]` field of the old value is still dropped exactly once, every value already moved out is dropped exactly once, and the pinned place holds the replacement value, undropped; nothing is dropped twice or leaked and the pinned place is never left holding a dropped value.",
  ["programs", "crash_points"], "all declarations with project_replace and every point at which a destructor can panic",
  "One test panics in one field of one struct; the guarantee is for every field position and variant.",
  [D, L], [("guards run on unwind", D), ("UnsafeOverwriteGuard::drop, UnsafeDropInPlaceGuard::drop", L)],
  ["unwind paths of Type::project_replace"])
p("C12", "#[repr(packed)] types are rejected",
  "An annotated type that has `#[repr(packed)]` in any form (`packed`, `packed(N)`, combined with other representations, through `cfg_attr`, in any attribute position) does not compile; if the attribute is smuggled in by another macro the program is still rejected whenever a field could be misaligned. Other representations are accepted.",
  ["programs"], "all annotated declarations, all spellings and all other macros that may add the attribute",
  "Rejection is covered only by tests/ui, which the stable suite does not run.",
  [D], [("ensure_not_packed: attribute scan and field-borrow function", D)],
  ["accept/reject verdict of the compiler on the user's crate"])
p("C13", "Generated items are no more visible than the type, and at most pub(crate)",
  "Projection types and projection methods have the visibility of the annotated type, lowered to `pub(crate)` if that is `pub`; projected fields keep the visibility of the original fields. Projection types the user did not name, and every other helper item, cannot be named by user code; the only names added to the user's scope are the projection types the user named.",
  ["programs"], "all annotated declarations, all visibilities of type and fields, all naming arguments",
  "tests/ui/visibility is not run by the stable suite; the run tests only check that access from the same module works.",
  [D, U], [("determine_visibility", U), ("GenerateTokens: exposed vs scoped in const _", D)],
  ["visibility and parent scope of the generated items"])
p("C14", "Misused attributes and arguments are rejected, never ignored",
  "Unknown, duplicate, malformed or contradictory arguments of `#[pin_project]` (including `PinnedDrop` with `project_replace`, `UnsafeUnpin` with `!Unpin`, colliding projection names, unnamed `project_replace` on an enum), `#[pin]` with arguments, twice on one field, or on anything but a field, and `#[pin_project]` on an unsupported item (union, function, impl, type without fields, enum with discriminants) or twice on one item make the program fail to compile. All documented argument combinations, in any order, are accepted and have the same meaning in every order.",
  ["programs", "configurations"], "all argument lists and all placements",
  "Only tests/ui/pin_project/invalid.rs covers this and the stable suite does not run it; combinations are sampled.",
  [A, AT, D, U], [("Args::parse", A), ("parse_args", A), ("Input::parse", AT), ("validate_struct/validate_enum", D), ("position_exact", U)],
  ["accept/reject verdict of the compiler on the user's crate"])
p("C15", "Annotating a type does not change the type itself",
  "The annotated item keeps its name, visibility, fields, field order, field types, generics, bounds, representation and other attributes (derives included) exactly as written. Apart from what the arguments ask for it gains no trait impl other than the `Unpin` related ones: in particular no `Drop` impl (it can still be destructured and be `Copy`), and its other auto traits are what they would be without the attribute.",
  ["programs"], "all annotated declarations",
  "Tests do not compare an annotated type with its plain twin; they use a few types in a few ways.",
  [AT, D], [("parse_attribute re-emits attributes and body", AT), ("derive adds items only", D)],
  ["definition and impls of the annotated type"])
p("C16", "Projections borrow from the pinned reference and cannot outlive it",
  "References in a projection live exactly as long as the borrow of the pinned reference passed in: the program is rejected if a projection (or a reference taken out of it) is used after that borrow ends, if two live projections of one `Pin<&mut T>` overlap, or if `project_ref` is used to obtain mutable access. The generated lifetime never captures or is captured by a lifetime of the user's, whatever their names, and the bounds of the type are carried over to the projections.",
  ["programs"], "all annotated declarations with all generic signatures, and all uses of the projections",
  "Rejections are not tested at all; acceptance is sampled on a few generic signatures.",
  [D, U], [("determine_lifetime_name, insert_lifetime_and_bound", U), ("make_proj_impl signatures", D)],
  ["borrow checker verdict on the user's crate; signatures of the generated methods"])
p("C17", "Every supported declaration is accepted, also in strict crates",
  "`#[pin_project]` accepts every struct with at least one field and every enum with at least one field and no discriminants, whatever its generics (lifetimes, types, consts, defaults, `?Sized`, where clauses, higher-ranked bounds, associated types), field types (unsized tails, trait objects, arrays, function pointers, references, macros, `Self`) and names (excepted are field names that begin with two underscores or are those of a constant or constructor in scope, and const parameters named like a type in scope). The generated code also compiles where unsafe code is forbidden, where the prelude is absent, without std, inside functions, inside macros, and in every edition.",
  ["programs", "configurations"], "all supported declarations and crate configurations",
  "Each test is one declaration; combinations are not covered.",
  [D, U, PD, L], [("generics handling in Context::new", D), ("ReplaceReceiver on the item", U), ("call-site span of unsafe", D)],
  ["accept/reject verdict of the compiler on the user's crate"])
p("C18", "Projections follow conditional compilation",
  "Fields, variants and `#[pin]` markers that are configured out by `cfg` or `cfg_attr` take no part in the projections, in the `Unpin` condition or in `project_replace`, and those configured in take part exactly as if written without the condition, for every configuration and nesting.",
  ["programs", "configurations"], "all placements of cfg/cfg_attr on fields, variants, markers and arguments, all configurations",
  "tests/cfg.rs samples a dozen types.",
  [AT, D], [("attribute delegates to the derive, which sees the configured item", AT)],
  ["definition of the projection types and Unpin impl"])
p("C19", "Macro expansion is a pure function of its input",
  "Expanding the attributes depends on nothing but the tokens given: no file, environment variable, clock, random or address-dependent source, network, process or state kept between expansions is read or written. The same source therefore always expands to the same code, and expansion has no side effects.",
  ["histories", "configurations"], "all sequences of expansions in one compiler process and all build environments",
  "A test sees one environment and one order of expansions; dependence on hash seeds, environment or previous expansions shows only elsewhere.",
  [IL, D, A, AT, PD, U], [("all macro code is straight-line token construction", "pin-project-internal/src")],
  ["call graph and statics of the macro crate"])
p("C20", "Exactly the documented methods and types are generated",
  "A struct gets `project` and `project_ref` always and `project_replace` only if asked for; an enum gets each of the three methods only if the corresponding projection type is named. Each method has the documented receiver and returns the projection type of the documented name, with the documented generic parameters in order (a new lifetime first for `project`/`project_ref`, the parameters of the type itself for `project_replace`), and no other method or impl is added to the type.",
  ["programs", "configurations"], "all annotated declarations and argument combinations",
  "Tests use the methods that exist; nothing checks that the others do not exist, except one doc test.",
  [D, A], [("make_proj_impl", D), ("parse_struct/parse_enum: generate.extend", D), ("ProjReplace", A)],
  ["inherent impls of the annotated type"])
p("C21", "Names in the user's scope cannot change what generated code means",
  "Whatever the user has in scope (types, traits, modules, macros, constants named like core or prelude items, like generated items or like the crate; traits that add methods named like the ones generated code calls; a shadowed `pin_project` path), an annotated type either behaves exactly as all other properties say or the program is rejected. Generated local names never capture or are captured by user field names.",
  ["programs"], "all scopes in which an annotated type may stand and all field, type, variant and parameter names",
  "Tests contain one or two such scopes; only tests/ui/override-priv-mod looks at a hostile one and it is not run.",
  [D, PD, L], [("extern crate pin_project as _pin_project inside const _", D), ("absolute __private paths", D), ("double-underscore local names", D)],
  ["resolved definitions used by generated code"])
p("C22", "The runtime crate offers no safe way to undermine pinning",
  "No item reachable from the `pin_project` crate, including its hidden ones, lets code without `unsafe` construct a guard over an arbitrary pointer, run a pinned destructor, assert `UnsafeUnpin`, or obtain an `Unpin` type around something that is not. The helper types keep their exact meaning: a drop guard drops its target exactly once when it goes out of scope, an overwrite guard stores its value exactly once without dropping either side, the forwarding wrapper is `UnsafeUnpin` exactly when its content is.",
  ["programs", "crash_points"], "all client programs and all paths through the helpers",
  "No test uses the helpers directly or tries to misuse them.",
  [L], [("unsafe fn new on guards, private fields", L), ("unsafe trait UnsafeUnpin, unsafe fn PinnedDrop::drop", L), ("Drop impls of the guards", L), ("Wrapper, PinnedFieldsOf, AlwaysUnpin", L)],
  ["public API of pin_project and code of its helpers"])
p("C23", "Generated and runtime code is core-only and adds no hidden behaviour",
  "The code added to the user's crate and the runtime crate use only `core`: they need neither std nor alloc, allocate nothing, contain no panic of their own, no loops and no global state, and every unsafe operation in them is one of pin creation, unpinned access to the pinned value, or the moves and drops that `project_replace` and `PinnedDrop` are documented to perform.",
  ["programs", "configurations"], "all annotated declarations",
  "tests/no-std compiles a few types; nothing inspects what the generated code calls.",
  [D, L, PD], [("paths through pin_project::__private, which re-exports core", L), ("#![no_std]", L)],
  ["resolved callees of generated and runtime code"])
p("C24", "Misuse is reported by an error at the construct at fault, not by a panic",
  "Whenever a program is rejected because `#[pin_project]`, `#[pin]`, `#[pinned_drop]` or one of their arguments is misused, at least one error points into the construct at fault itself (the wrong or repeated argument, one of two contradicting arguments, the wrong `#[pin]`, the unsupported item or enum variant, the `packed`, the wrong part of the `#[pinned_drop]` impl, the conflicting user impl or the attribute it conflicts with). The macro answers misuse with such an error and does not panic.",
  ["programs"], "all programs that misuse an attribute, wherever the fault stands among correct arguments, attributes, fields and items",
  "tests/ui holds expected outputs for some programs and is not part of the stable tests.",
  [A, AT, D, PD, U], [("error!/bail! with spans", U), ("spans given to generated impls", D), ("validate_impl, validate_sig", PD)],
  ["compiler errors"])
p("C25", "Annotating a type raises no warning that the plain type does not raise",
  "For every supported declaration, in editions 2018, 2021 and 2024: a lint of the compiler (any, also those off by default) or of Clippy (its default, pedantic and nursery groups, and the restriction lints pin-project's changelog or lint tests name) that says nothing about the declaration without the attributes says nothing about it with `#[pin_project]` and its arguments, with `#[pin]` on any of its fields, and with a `#[pinned_drop]` impl.",
  ["declarations"], "all supported declarations, visibilities, field types, bounds, arguments, lints and editions",
  "The lint tests of the repository are a fixed list of declarations, and warnings do not fail a test run.",
  [D, PD], [("lints allowed on generated items", D), ("lints allowed on the rewritten destructor", PD)],
  ["lint output"])
p("N01", "The macros terminate on every input",
  "For every token stream the compiler can hand them, the attribute macros return (an expansion or an error) after time polynomial in the input, without exhausting the stack or panicking.",
  ["inputs"], "all token streams",
  "Tests give a few dozen inputs.",
  [D, A, AT, PD, U], [("parsing through syn, recursive visitors", U)],
  ["the macro call"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
