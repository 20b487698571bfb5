"""The properties: which rule decides each, over which witnesses."""
from . import cases, cases2, corpus, decl, lints, rules, rules2, soup, sweep
from .decl import D, F, P, V

PROPS = {}


class Prop:
    def __init__(self, fn, level, technique, rule, assumptions=(), deep=None, note=""):
        self.fn, self.deep, self.level, self.technique, self.rule, self.assumptions, self.note = fn, deep, level, technique, rule, assumptions, note


def prop(pid, technique, rule, level="other", assumptions=(), note=""):
    def reg(fn):
        PROPS[pid] = Prop(fn, level, technique, rule, list(assumptions) + COMMON, note=note)
        return fn
    return reg


COMMON = [
    "rustc's own type checking, trait selection, borrow checking and MIR construction are correct (nightly 1.101)",
    "declarations outside the corpus families (listed in DESIGN.md) behave like those inside",
]
SEM = ["the documented semantics of core::ptr::{read,write,drop_in_place}, Pin and ManuallyDrop"]


def corp(run):
    return corpus.core(run.seed, run.thorough)


def default_mode(ds):
    return [d for d in ds if d.unpin is None]


@prop("C01", "abstract interpretation of the MIR of every generated projection method over a declaration corpus", "for every path of project/project_ref: field k of the result is (a Pin of) a reference to field k of the value, same variant, no other effect", assumptions=SEM)
def c01(run):
    ws = run.witnesses(corp(run) + corpus.in_functions(), floor=1500)
    run.apply(rules.projection_identity, ws)


@prop("C02", "type-level comparison of projection field types with the declared fields (resolved types from the compiler)", "marked fields are Pin<&mut F>/Pin<&F>/PhantomData<F>, others &mut F/&F/F, F the declared type and the reference lifetime the borrow's")
def c02(run):
    ws = run.witnesses(corp(run) + corpus.in_functions(), floor=1500)
    run.apply(rules.pin_iff_marked, ws)
    run.cases(cases.c02())


@prop("C03", "trait-solver queries over a declaration corpus under enumerated assumptions, plus region-sensitive compile witnesses", "Unpin(type) == conjunction of Unpin(#[pin] field types) for every set of assumptions")
def c03(run):
    ds = default_mode(corp(run))
    ws = run.witnesses(ds, queries=rules.unpin_queries, extra=rules.unpin_regions, floor=1500)
    run.apply(rules.unpin_exact, ws)
    run.cases(cases.c03())


@prop("C04", "trait-solver queries over a declaration corpus with !Unpin / UnsafeUnpin, plus region-sensitive compile witnesses", "!Unpin: never Unpin; UnsafeUnpin: Unpin(type) == UnsafeUnpin(type) for every set of assumptions; nothing without an impl")
def c04(run):
    ds = corpus.unpin_modes(run.seed, run.thorough)
    ws = run.witnesses(ds, queries=rules.unpin_queries, floor=800)
    run.apply(rules.unpin_modes, ws)
    run.cases(cases.c04())


@prop("C05", "compile-fail witnesses: every form of user Unpin/UnsafeUnpin impl, each next to a compiling twin, and the plain forms on every declaration of the corpus", "a program with a user impl of Unpin for an annotated type does not compile; its twin without the impl does")
def c05(run):
    sweep.c05(run)
    run.cases(cases.c05())


@prop("C06", "compile-fail witnesses: every form of destructor impl, each next to a compiling twin, and the plain forms on every declaration of the corpus", "a program with impl Drop, or with pinned_drop/PinnedDrop without the other, does not compile; its twin does")
def c06(run):
    sweep.c06(run)
    run.cases(cases.c06())


@prop("C07", "abstract interpretation of the MIR of generated Drop impls", "on every path of Drop::drop exactly one entry of the user's body with Pin<&mut SELF> of the dropped value, and no other effect; no Drop impl without PinnedDrop", assumptions=SEM)
def c07(run):
    ws = run.witnesses(corpus.drops() + corpus.drops_more(run.seed, run.thorough) + corpus.shapes()[::4] + corpus.arg_forms(), floor=250)
    run.apply(rules.pinned_drop_once, ws)


@prop("C08", "compile-fail witnesses for calls and impl forms, and a reachability rule over the resolved program", "the user's body is reachable only through unsafe functions, Drop::drop, or items nested in those; every call form is rejected; every impl form but the documented is rejected")
def c08(run):
    sweep.c08(run)
    ws = run.witnesses(corpus.drops() + corpus.drops_more(run.seed, run.thorough), floor=600)
    run.apply(rules.body_guarded, ws)
    cases2.c08_runtime(run)
    run.cases(cases.c08(run, ws))


@prop("C09", "MIR equivalence of the user's destructor body with the same body in an ordinary method", "a function reachable from Drop::drop has, up to renaming, the MIR of the reference method; or the program is rejected")
def c09(run):
    cases2.c09(run)


@prop("C10", "abstract interpretation of project_replace MIR with linear tokens, normal exits", "every field token and the replacement accounted for exactly once on every normal exit", assumptions=SEM)
def c10(run):
    ws = run.witnesses([d for d in corp(run) + corpus.in_functions() if "project_replace" in d.methods()], floor=1000)
    run.apply(rules.replace_accounting, ws, "C10", False)


@prop("C11", "abstract interpretation of project_replace MIR with linear tokens, every unwinding exit (drop glue may panic)", "every field token and the replacement accounted for exactly once on every unwinding exit", assumptions=SEM)
def c11(run):
    ws = run.witnesses([d for d in corp(run) + corpus.in_functions() if "project_replace" in d.methods()], floor=1000)
    run.apply(rules.replace_accounting, ws, "C11", True)


@prop("C12", "compile-fail witnesses: every spelling and placement of repr(packed), each next to a compiling twin", "a program with a packed annotated type does not compile; with any other repr it does and the repr is kept")
def c12(run):
    sweep.c12(run)
    run.cases(cases.c12())
    ws = run.witnesses([d for d in corpus.attributes() if d.tag == "repr"], twins=True, queries=rules2.marker_queries)
    run.apply(cases.repr_kept, ws)


@prop("C13", "visibility facts of the resolved program, compared with the plain twin of each declaration", "methods/projections: visibility of the type with pub lowered to the crate; fields as declared; names added to the scope == named projections")
def c13(run):
    ws = run.witnesses(corp(run), twins=True, floor=1500)
    run.apply(rules2.visibility, ws)
    run.cases(cases.c13(), "visibility programs")


@prop("C14", "compile-fail witnesses for misuse, facts comparison for argument orders", "every misuse program is rejected while its corrected twin is accepted; permuted arguments give the same facts")
def c14(run):
    sweep.c14(run)
    run.cases(cases.c14())
    cases.c14_orders(run)


@prop("C15", "comparison of all facts of the annotated type with those of its plain twin", "identical name, visibility, generics, bounds, fields, attributes, repr, layout, auto traits; added impls only the documented ones")
def c15(run):
    ws = run.witnesses(corp(run) + corpus.drops()[::3], twins=True, queries=rules2.marker_queries, floor=1500)
    run.apply(rules2.unchanged, ws)
    run.cases(cases.c15())


@prop("C16", "lifetime and bound facts of signatures and projection types, and borrow-checker compile-fail witnesses", "result lifetime == borrow lifetime, fresh; bounds carried over; misuse programs rejected, their twins accepted")
def c16(run):
    ws = run.witnesses(corp(run) + corpus.lifetimes(), twins=False, floor=1500)
    run.apply(rules2.bounds_carried, ws)
    run.cases(cases.c16())


@prop("C17", "must-compile witnesses: the corpus in every edition and strict setting", "every declaration of the corpus compiles in each setting, whenever its plain twin does")
def c17(run):
    cases2.c17(run)


@prop("C18", "the projection, pinning, Unpin and project_replace rules over declarations with conditional parts", "the facts are those of the declaration after configuration")
def c18(run):
    ds = corpus.cfg_pairs() + corpus.cfg_more(run.seed, run.thorough)
    ws = run.witnesses(ds, queries=rules.unpin_queries, floor=150, flags=corpus.CFG_FLAGS, twins=True)
    for fn, args in ((rules.projection_identity, ("C18",)), (rules.pin_iff_marked, ("C18",)), (rules.unpin_exact, ("C18",)), (rules.replace_accounting, ("C18", False)), (rules.replace_accounting, ("C18", True)), (rules2.signatures, ("C18",))):
        run.apply(fn, ws, *args)
    cases2.c18(run)


@prop("C19", "call-graph and effect analysis of the macro crate's MIR", "no function of the macro crate calls, names or stores anything that reads or writes state outside its arguments")
def c19(run):
    cases2.c19(run)


@prop("C20", "signature facts of the resolved program", "methods, receivers, result types, generics and shapes are exactly the documented ones")
def c20(run):
    ws = run.witnesses(corp(run), twins=True, floor=1500)
    run.apply(rules2.signatures, ws)


@prop("C21", "all rules over declarations in hostile scopes", "every accepted declaration satisfies the rules of C01, C02, C03, C07, C10, C11, C13, C16 and C20")
def c21(run):
    cases2.c21(run)


@prop("C22", "facts, interpretation and compile-fail witnesses of the runtime crate", "guards: private fields, unsafe constructors, exact drop behaviour by interpretation; Unpin/UnsafeUnpin conditions by trait queries; no safe way by compile-fail witnesses")
def c22(run):
    cases2.c22(run)


@prop("C23", "control-flow and callee rules over the MIR of generated functions and of the runtime crate", "no loops, panics, statics or foreign callees; unsafe callees only the documented primitives")
def c23(run):
    ws = run.witnesses(corp(run) + corpus.drops(), twins=True, floor=1500)
    run.apply(rules2.generated_discipline, ws)
    cases2.c23(run)


@prop("C24", "compile-fail witnesses with the place of the fault marked, and expansion of generated misuse programs", "each misuse program gives an error whose span lies inside the marked construct; on no program does the compiler report a panic of a macro")
def c24(run):
    soup.c24(run)


@prop("C25", "the compiler's and Clippy's lint passes over annotated declarations and their plain twins", "every lint that is silent on the plain declaration is silent on the annotated one")
def c25(run):
    lints.c25(run)
