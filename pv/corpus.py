"""The corpus of annotated declarations.

Systematic families (every one derived from the grammar of declarations the macro accepts), a family
directed by the literals that occur in the macro's own source, and seeded random combinations."""
import itertools
import json
import os
import random
import re

from . import build
from .decl import D, F, P, V

ALL = dict(project="Pm", project_ref="Pr", project_replace="Po")
LETTERS = ["T", "U", "W", "X"]


def tys(n):
    base = ["T", "U", "W", "X"]
    return [base[i] if i < 4 else "T%d" % i for i in range(n)]


def st(name, fields, style="named", **kw):
    if style == "named":
        for i, f in enumerate(fields):
            if f.name is None:
                f.name = "abcdefghijklmnopqrstuvwxyz"[i] if len(fields) <= 26 else "f%d" % i
    return D(name, "struct", [V(None, style, fields)], **kw)


def variant(name, fields, style, **kw):
    if style == "named":
        for i, f in enumerate(fields):
            if f.name is None:
                f.name = "abcdefghijklmnopqrstuvwxyz"[i] if len(fields) <= 26 else "f%d" % i
    return V(name, style, fields, **kw)


def params(names, bounds=""):
    return [P("ty", n, bounds) for n in names]


# ------------------------------------------------------------------ families
def shapes():
    out = []
    for style in ("named", "tuple"):
        for n in (1, 2, 3, 4):
            for mask in itertools.product((False, True), repeat=n):
                for same in (False, True):
                    if same and n not in (2, 3):
                        continue
                    t = tys(n)
                    fs = [F("T" if same else t[i], mask[i]) for i in range(n)]
                    ps = params(["T"] if same else t)
                    a = dict(ALL) if sum(mask) % 2 == 0 else dict(project_replace="")
                    out.append(st("Foo", fs, style, params=ps, tag="shape", **a))
    # no arguments at all, private, concrete
    for style in ("named", "tuple"):
        for mask in itertools.product((False, True), repeat=2):
            out.append(st("Foo", [F("u8", mask[0]), F("::std::string::String", mask[1])], style, vis="", tag="shape"))
            out.append(st("Foo", [F("PhantomPinned", mask[0]), F("T", mask[1])], style, params=params(["T"]), tag="shape", **ALL))
    # enums
    def vs(spec, same=False):
        res, k = [], 0
        for i, (style, mask) in enumerate(spec):
            fs = []
            for m in mask:
                fs.append(F("T" if same else tys(8)[k], m))
                k += 1
            res.append(variant("V%d" % i, fs, style))
        return res, k
    masks2 = list(itertools.product((False, True), repeat=2))
    specs = []
    for style in ("named", "tuple"):
        specs.append([(style, (True,))])
        specs.append([(style, (False,))])
        for m in masks2:
            specs.append([(style, m)])
            specs.append([("unit", ()), (style, m)])
            specs.append([(style, m), ("unit", ())])
            other = "tuple" if style == "named" else "named"
            for m2 in masks2:
                specs.append([(style, m), (other, m2)])
        specs.append([(style, ()), (style, (True, False))])  # empty braces / parens
    specs.append([("named", (True, False, True)), ("tuple", (False, True, True)), ("unit", ()), ("named", (False, False))])
    specs.append([("unit", ()), ("unit", ()), ("tuple", (True,)), ("unit", ()), ("named", (False, True)), ("tuple", (True, True))])
    for i, sp in enumerate(specs):
        v, k = vs(sp)
        out.append(D("Foo", "enum", v, params=params(tys(k)), tag="shape", **ALL))
        if i % 4 == 0:
            v, k = vs(sp, same=True)
            out.append(D("Foo", "enum", v, params=params(["T"]) if k else [], tag="shape", **ALL))
    return out


TYPES = [
    "T", "u8", "bool", "::std::string::String", "::std::vec::Vec<T>", "::std::boxed::Box<T>", "::std::boxed::Box<dyn ::core::fmt::Debug>",
    "&'a T", "&'a mut T", "&'static str", "*const T", "*mut T", "[T; 3]", "[u8; N]", "[T; N]", "[T; { 1 + 2 }]", "(T,)", "(T, u8)", "()", "((T))",
    "fn(T) -> u8", "for<'x> fn(&'x T) -> &'x u8", "unsafe extern \"C\" fn(u8)", "::core::option::Option<T>", "PhantomData<T>", "PhantomPinned",
    "PhantomData<PhantomPinned>", "<T as Tr>::A", "T::A", "::core::cell::Cell<T>", "Pin<::std::boxed::Box<T>>", "Pin<&'a mut T>", "Pin<&'a mut PhantomPinned>",
    "Aux<T>", "Aux<PhantomPinned>", "self::Aux<T>", "inner::Deep<T>", "(T)", "mac!(T)", "mac!(PhantomPinned)",
    "::std::boxed::Box<dyn Fn(T) -> u8 + Send + 'a>", "::core::option::Option<::std::boxed::Box<Self>>", "Aux<*const Self>", "Aux<&'a T>",
    "::core::mem::ManuallyDrop<T>", "::core::mem::MaybeUninit<T>", "Un<T>", "Nu<T>", "[PhantomPinned; 0]", "(u8, PhantomPinned)", "Aux<fn(&T) -> Self>",
    "dynm!(T)", "AliasT<T>", "AliasP", "Dflt", "Dflt<T>", "&'a [T]", "&'a str", "::core::cell::UnsafeCell<u8>", "impl_free::Own<'a, T>", "Lt<'a>", "Lt<'static>",
]
UNSIZED = ["str", "[T]", "dyn ::core::fmt::Debug", "Aux<[T]>", "Aux<dyn ::core::fmt::Debug + Send>", "[u8]", "dyn Fn(&u8) -> u8"]

AUX = """pub trait Tr { type A; }
pub struct Aux<T: ?Sized>(pub u8, pub T);
pub struct Un<T>(pub T, pub PhantomPinned); impl<T> Unpin for Un<T> {}
pub struct Nu<T>(pub T); impl<T: Clone> Unpin for Nu<T> where T: Copy {}
pub type AliasT<T> = Aux<T>; pub type AliasP = PhantomPinned;
pub struct Dflt<T = PhantomPinned>(pub T);
pub struct Lt<'l>(pub &'l u8, pub PhantomPinned); impl<'l> Unpin for Lt<'l> {}
pub mod inner { pub struct Deep<T>(pub T); }
pub mod impl_free { pub struct Own<'l, T>(pub &'l u8, pub T); }
macro_rules! mac { ($t:ty) => { $t } }
macro_rules! dynm { ($t:ident) => { Aux<$t> } }
"""


def field_types():
    out = []
    gen = lambda: [P("lt", "'a"), P("ty", "T", "Tr + 'a"), P("const", "N", "usize")]
    g = "PhantomData<(&'a (), T)>"
    for i, ty in enumerate(TYPES):
        out.append(st("Foo", [F(ty, True), F(ty, False), F(g)], "named", params=gen(), pre=AUX, tag="type", **ALL))
        out.append(st("Foo", [F(ty, False), F(g), F(ty, True)], "tuple", params=gen(), pre=AUX, tag="type", project_replace=""))
        out.append(D("Foo", "enum", [variant("A", [F(ty, True), F(ty, False)], "named"), variant("B", [F(ty, False), F(ty, True), F(g)], "tuple")], params=gen(), pre=AUX, tag="type", **ALL))
    for ty in UNSIZED:
        for pin in (True, False):
            out.append(st("Foo", [F("T", not pin), F(g), F(ty, pin)], "named", params=gen(), pre=AUX, tag="type", sized=False))
            out.append(st("Foo", [F(g), F(ty, pin)], "tuple", params=gen(), pre=AUX, tag="type", sized=False, project="Pm", project_ref="Pr"))
    return out


def generic_kinds():
    out = []
    G = []  # (params, where, field types)
    G.append(([P("lt", "'a")], [], ["&'a u8", "&'a mut u8"]))
    G.append(([P("lt", "'a"), P("lt", "'b", "'a")], [], ["&'a u8", "&'b mut u8"]))
    G.append(([P("lt", "'a"), P("lt", "'b")], ["'a: 'b"], ["&'a u8", "&'b mut u8"]))
    G.append(([P("lt", "'pin")], [], ["&'pin u8", "&'pin mut u8"]))
    G.append(([P("lt", "'pin_"), P("lt", "'pin__")], [], ["&'pin_ u8", "&'pin__ mut u8"]))
    G.append(([P("lt", "'pinned"), P("lt", "'pi")], [], ["&'pinned u8", "&'pi mut u8"]))
    G.append(([P("lt", "'_pin"), P("lt", "'__pin")], [], ["&'_pin u8", "&'__pin mut u8"]))
    G.append(([P("ty", "T", "Clone")], [], ["T", "T"]))
    G.append(([P("ty", "T", "?Sized")], [], ["&'static u8", "::std::boxed::Box<T>"]))
    G.append(([P("ty", "T", "?Sized + ::core::fmt::Debug")], [], ["u8", "PhantomData<T>"]))
    G.append(([P("ty", "T"), P("ty", "U")], ["T: Clone", "U: Copy + Default"], ["T", "U"]))
    G.append(([P("ty", "T")], ["T: Iterator"], ["T", "T::Item"]))
    G.append(([P("ty", "T", "Iterator")], ["T::Item: Clone"], ["T", "<T as Iterator>::Item"]))
    G.append(([P("ty", "T")], ["for<'x> &'x T: IntoIterator"], ["T", "::std::vec::Vec<T>"]))
    G.append(([P("ty", "T", "for<'x> Fn(&'x u8) -> &'x u8")], [], ["T", "::core::option::Option<T>"]))
    G.append(([P("ty", "T", "", "u8")], [], ["T", "u8"]))
    G.append(([P("lt", "'a"), P("ty", "T", "'a", "&'a u8"), P("const", "N", "usize", "3")], [], ["[T; N]", "&'a T"]))
    G.append(([P("const", "N", "usize")], [], ["[u8; N]", "[PhantomPinned; N]"]))
    G.append(([P("const", "B", "bool"), P("const", "C", "char")], [], ["K<B, C>", "u8"]))
    G.append(([P("ty", "T", "Unpin")], [], ["T", "T"]))
    G.append(([P("ty", "T")], ["T: Unpin"], ["T", "T"]))
    G.append(([P("ty", "T")], ["::std::vec::Vec<T>: Clone"], ["T", "::std::vec::Vec<T>"]))
    G.append(([P("ty", "T")], ["Self: Sized", "T: Clone"], ["T", "u8"]))
    G.append(([P("ty", "T")], ["T: PartialEq<Self>"], ["T", "u8"]))
    G.append(([P("ty", "Self_")], [], ["Self_", "u8"]))
    G.append(([P("ty", "T", "'static + Send + Sync")], [], ["T", "&'static T"]))
    G.append(([P("lt", "'a"), P("ty", "T", "?Sized + 'a")], [], ["&'a T", "&'a mut T"]))
    G.append(([P("ty", "T", "Tr2<A = u8>")], [], ["T", "T::A"]))
    G.append(([P("ty", "T", "Tr2")], ["T::A: Tr2"], ["T::A", "<T::A as Tr2>::A"]))
    G.append(([P("ty", "__Pin")], [], ["__Pin", "u8"]))
    G.append(([P("ty", "Pin_"), P("ty", "PhantomData_")], [], ["Pin_", "PhantomData_"]))
    G.append(([P("lt", "'a"), P("lt", "'b"), P("lt", "'c")], ["'a: 'b + 'c", "'b: 'c"], ["&'a &'b u8", "&'c u8"]))
    pre = "pub struct K<const B: bool, const C: char>(pub PhantomPinned); pub trait Tr2 { type A; }\n"
    for ps, w, (t1, t2) in G:
        # every parameter must be used
        use = []
        for p in ps:
            if p.kind == "lt":
                use.append("&%s ()" % p.name)
            elif p.kind == "ty":
                use.append("*const " + p.name)
        ph = "PhantomData<(%s)>" % "".join(u + ", " for u in use)
        mk = lambda: [F(t1, True), F(t2, False), F(ph)]
        mk2 = lambda: [F(t1, False), F(ph), F(t2, True)]
        cp = lambda: [P(p.kind, p.name, p.bounds, p.default) for p in ps]
        sizedok = True
        rep = "" if sizedok else None
        out.append(st("Foo", mk(), "named", params=cp(), where=list(w), pre=pre, tag="generics", **ALL))
        out.append(st("Foo", mk2(), "tuple", params=cp(), where=list(w), pre=pre, tag="generics", project_replace=""))
        out.append(D("Foo", "enum", [variant("A", mk(), "named"), variant("B", mk2(), "tuple"), variant("C", [], "unit")], params=cp(), where=list(w), pre=pre, tag="generics", **ALL))
    # unsized parameter as the tail
    for pin in (True, False):
        out.append(st("Foo", [F("U", not pin), F("T", pin)], "named", params=[P("ty", "T", "?Sized"), P("ty", "U")], tag="generics", sized=False))
        out.append(st("Foo", [F("U", not pin), F("T", pin)], "tuple", params=[P("ty", "T"), P("ty", "U")], where=["T: ?Sized"], tag="generics", sized=False))
    # unused-by-pinned parameters and lifetimes
    out.append(st("Foo", [F("u8", True), F("T"), F("&'a U")], "named", params=[P("lt", "'a"), P("ty", "T"), P("ty", "U")], tag="generics", **ALL))
    out.append(st("Foo", [F("T"), F("PhantomPinned"), F("U")], "tuple", params=params(["T", "U"]), tag="generics", **ALL))
    return out


def arg_forms():
    """All accepted subsets of the arguments, each in several orders."""
    out = []
    for kind in ("struct", "enum"):
        for pj, rf, rp, un, pd in itertools.product((None, "Pm"), (None, "Pr"), (None, "", "Po"), (None, "!Unpin", "UnsafeUnpin"), (False, True)):
            if kind == "enum" and rp == "":
                continue
            if pd and rp is not None:
                continue
            n = sum([pj is not None, rf is not None, rp is not None, un is not None, pd])
            orders = [None]
            if n >= 2:
                orders.append(list(range(n))[::-1])
            if n >= 3:
                orders.append([1, 2, 0] + list(range(3, n)))
            for k, o in enumerate(orders):
                fs = lambda: [F("T", True), F("U", False)]
                if kind == "struct":
                    d = st("Foo", fs(), "named" if k != 1 else "tuple", params=params(["T", "U"]))
                else:
                    d = D("Foo", "enum", [variant("A", fs(), "named"), variant("B", [], "unit"), variant("C", [F("T"), F("U", True)], "tuple")], params=params(["T", "U"]))
                d.project, d.project_ref, d.project_replace, d.unpin, d.pinned_drop = pj, rf, rp, un, pd
                d.order, d.trailing, d.tag = o, k == 1, "args"
                if pd:
                    d.pre, d.drop_body = BODY_PRE, BODY
                out.append(d)
    return out


def drops():
    """PinnedDrop types of many shapes (C07)."""
    out = []
    body = "sink(self.as_ref().get_ref() as *const _ as *const ());"
    pre = "#[inline(never)] pub fn sink(_: *const ()) {}\n"
    for d in shapes()[::3] + generic_kinds():
        d = d.copy(pinned_drop=True, project_replace=None, tag="drop", pre=d.pre + pre, drop_body=body)
        out.append(d)
    for un in ("!Unpin", "UnsafeUnpin"):
        out.append(st("Foo", [F("T", True), F("U")], "named", params=params(["T", "U"]), pinned_drop=True, unpin=un, pre=pre, drop_body=body, tag="drop"))
    return out


VIS = ["", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)", "pub(in super)", "pub(in self)", "crate_path"]


def visibilities():
    out = []
    vs = ["", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate::outer)"]
    for v in vs:
        for fv in vs:
            out.append(st("Foo", [F("T", True, vis=fv), F("u8", False, vis=fv), F("u8", True), F("u8")], "named", params=params(["T"]), vis=v, tag="vis", **ALL))
        out.append(st("Foo", [F("T", True, vis="pub"), F("u8", False, vis="pub(crate)"), F("u8", vis="pub(super)")], "tuple", params=params(["T"]), vis=v, tag="vis"))
        out.append(st("Foo", [F("T", True, vis="pub(super)"), F("u8", False, vis="")], "tuple", params=params(["T"]), vis=v, tag="vis", **ALL))
        out.append(D("Foo", "enum", [variant("A", [F("T", True), F("u8")], "named"), variant("B", [F("u8", True)], "tuple")], params=params(["T"]), vis=v, tag="vis", **ALL))
    return out


def sizes(extra=()):
    out = []
    for n in sorted(set([5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 26, 27, 31, 32, 33, 40, 63, 64, 65, 100, 130]) | set(x for x in extra if 2 < x <= 300)):
        big = n > 40
        for style in ("named", "tuple"):
            for pat in ((lambda i: i % 2 == 0), (lambda i: i % 3 == 1), (lambda i: i == n - 1), (lambda i: True)):
                if big and pat(0) and pat(1):
                    continue
                out.append(st("Foo", [F("T" if i % 2 else "U", pat(i), name="f%d" % i if style == "named" else None) for i in range(n)], style, params=params(["T", "U"]), tag="size", **ALL))
                if big:
                    break
        out.append(D("Foo", "enum", [variant("V%d" % i, [F("T", i % 2 == 0), F("U", i % 3 == 0)], "named" if i % 2 else "tuple") for i in range(n)], params=params(["T", "U"]), tag="size", **ALL))
        out.append(D("Foo", "enum", [variant("V0", [], "unit"), variant("V1", [F("T", i % 2 == 0) for i in range(n)], "tuple"), variant("V2", [F("U", i % 2 == 1, name="f%d" % i) for i in range(n)], "named")], params=params(["T", "U"]), tag="size", **ALL))
        if n <= 33 or n in extra:
            t = ["T%d" % i for i in range(n)]
            out.append(st("Foo", [F(x, i % 2 == 0, name="f%d" % i) for i, x in enumerate(t)], "named", params=params(t), tag="size", **ALL))
            l = ["'l%d" % i for i in range(n)]
            out.append(st("Foo", [F("&%s T" % x, i % 2 == 0, name="f%d" % i) for i, x in enumerate(l)], "named", params=[P("lt", x) for x in l] + [P("ty", "T", " + ".join(l))], tag="size", **ALL))
            c = ["N%d" % i for i in range(n)]
            out.append(st("Foo", [F("[u8; %s]" % x, i % 2 == 0, name="f%d" % i) for i, x in enumerate(c)] , "named", params=[P("const", x, "usize") for x in c], tag="size", **ALL))
            out.append(st("Foo", [F("T", True, name="a"), F("U", name="b")], "named", params=params(["T", "U"]), where=["T: Clone"] * n, tag="size", **ALL))
        # long identifiers
        out.append(st("F" + "o" * n, [F("T", True, name="x" * n), F("U", name="y" * n), F("T", True, name="z" * (n - 1))], "named", params=params(["T", "U"]), tag="size", **ALL))
        # deep types
        if n <= 33:
            out.append(st("Foo", [F("::core::option::Option<" * n + "PhantomPinned" + ">" * n, True), F("U")], "named", params=params(["U"]), tag="size"))
    return out


KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union""".split())
RAWOK = ["type", "fn", "match", "loop", "move", "ref", "async", "await", "dyn", "try", "box", "mut", "pub", "in", "struct", "static", "unsafe", "where"]
NAMES = ["this", "pin", "project", "project_ref", "project_replace", "get_mut", "as_mut", "drop", "value", "inner", "future", "pinned", "ptr", "guard", "replacement", "result", "target", "_0", "_1", "_pin", "x1", "été", "self_", "_self", "union", "auto", "default", "raw", "safe", "macro_rules", "T", "Foo", "Pin", "PhantomData", "Unpin", "Some", "core", "std"]


def harvest():
    """Identifiers and integers in the macro crate's source (comments removed)."""
    words, ints = set(), set()
    for p in build.repo_sources():
        if not p.endswith(".rs") or "pin-project-internal" not in p:
            continue
        with open(p) as f:
            s = f.read()
        s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        s = re.sub(r"(?m)(^|[^:\"])//.*$", r"\1", s)
        for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', s):
            w = m.group(1)
            if re.fullmatch(r"'?[A-Za-z_][A-Za-z0-9_]{0,40}", w):
                words.add(w.lstrip("'"))
            else:
                for w2 in re.findall(r"[A-Za-z_]\w*", re.sub(r"\{[^}]*\}", "Foo", w)) if len(w) < 30 else []:
                    words.add(w2)
        for m in re.finditer(r"'([A-Za-z_])'", s):
            words.add(m.group(1))
        for m in re.finditer(r"\bformat_ident!\(\s*\"([^\"]*)\"", s):
            words.add(re.sub(r"\{[^}]*\}", "Foo", m.group(1)))
            words.add(re.sub(r"\{[^}]*\}", "0", m.group(1)))
        for m in re.finditer(r"(?<![\w.#])(\d[\d_]*)(?:usize|u\d+|i\d+|isize)?\b", s):
            v = int(m.group(1).replace("_", ""))
            ints.add(v)
        for m in re.finditer(r"0x([0-9a-fA-F]+)", s):
            ints.add(int(m.group(1), 16))
        for m in re.finditer(r"\b(__\w+|_[a-z]\w+)\b", s):
            words.add(m.group(1))
    words = {w for w in words if re.fullmatch(r"[A-Za-z_]\w*", w) and w != "_"}
    sz = set()
    for v in ints:
        if v > 2:
            sz |= {v - 1, v, v + 1}
            for q in (v * 2, v * 4):
                sz.add(q + 1)
    return sorted(words), sorted(x for x in sz if 2 < x <= 300)


def reserved(n):
    """Names a user may not expect to use freely: the macro's own (documented as private), names that
    are consts or unit/tuple constructors where the witness stands, or that the witness itself imports."""
    if n in ("Some", "None", "Ok", "Err", "PhantomData", "PhantomPinned", "Pin", "core", "std", "pin_project", "pinned_drop", "UnsafeUnpin"):
        return True
    return n.startswith("__") or n.startswith("_pin_project") or n.endswith("MustNotImplDrop")


def names(words):
    out = []
    def cap(w):
        return w
    allw = []
    for w in NAMES + sorted(words):
        if w in KEYWORDS:
            if w in RAWOK:
                allw.append("r#" + w)
            continue
        allw.append(w)
    for w in RAWOK:
        allw.append("r#" + w)
    seen = set()
    for w in allw:
        if w in seen:
            continue
        seen.add(w)
        soft = reserved(w)
        fs = lambda: [F("T", True, name=w), F("U", False, name=w + "_2")]
        out.append(st("Foo", fs(), "named", params=params(["T", "U"]), tag="name", soft=soft, **ALL))
        out.append(st("Foo", [F("T", False, name=w), F("U", True, name=w + "_2")], "named", params=params(["T", "U"]), tag="name", soft=soft, project_replace=""))
        if w in ("Pm", "Pr", "Po"):
            continue
        out.append(D("Foo", "enum", [variant(w, [F("T", True), F("U")], "tuple"), variant("Zz", [F("T", True, name=w), F("U", False, name=w + "_2")], "named")], params=params(["T", "U"]), tag="name", soft=soft, **ALL))
        if w != "Foo":
            # name of the type itself, of parameters, of lifetimes, of a field's type
            if w not in ("T", "U"):
                out.append(st(w, [F("T", True), F("U")], "named", params=params(["T", "U"]), tag="name", soft=soft or w in ("Pin", "PhantomData"), **ALL))
                if not w.startswith("r#"):
                    out.append(st("Foo", [F(w, True), F("U")], "tuple", params=params([w, "U"]), tag="name", soft=soft, **ALL))
                    out.append(st("Foo", [F("&'%s U" % w, True), F("U")], "tuple", params=[P("lt", "'" + w), P("ty", "U", "'" + w)], tag="name", soft=soft, **ALL) if w not in ("static",) else out[-1])
                    out.append(st("Foo", [F("pinned_ty::%s" % w, True), F("U")], "named", params=params(["U"]), pre="pub mod pinned_ty { pub struct %s(pub super::PhantomPinned); }\n" % w, tag="name", soft=soft, **ALL))
                    out.append(st("Foo", [F("pinned_ty::%s" % w, False), F("U", True)], "named", params=params(["U"]), pre="pub mod pinned_ty { pub struct %s(pub super::PhantomPinned); }\n" % w, tag="name", soft=soft, **ALL))
        for x in ("x" + w.replace("r#", ""), w.replace("r#", "") + "x", "x" + w.replace("r#", "") + "y"):
            if x not in seen and x not in KEYWORDS and len(w) < 24:
                seen.add(x)
                out.append(st("S" + x if x[0] == "_" else x, [F("T", True, name=x), F("U", False, name=x + "_2"), F("U", True, name="q")], "named", params=params(["T", "U"]), tag="name", soft=reserved(x), **ALL))
    return out


def attributes():
    out = []
    A = ["/// doc\n", "#[doc = \"x\"]", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), doc = \"y\")]", "#[rustfmt::skip]", "#[cfg_attr(any(), pin)]", "#[doc(hidden)]", "#[expect(unused)]"]
    M = ["#[pin]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(not(any()), pin)]", "#[cfg_attr(all(), allow(dead_code), pin)]", "#[cfg_attr(all(), cfg_attr(all(), pin))]", "#[r#pin]", "#[cfg_attr(all(), r#pin)]"]
    for a in A:
        out.append(st("Foo", [F("T", True, before=a), F("U", False, before=a), F("T", True, after=a), F("U", False)], "named", params=params(["T", "U"]), tag="attr", **ALL))
        out.append(D("Foo", "enum", [variant("A", [F("T", True, before=a, after=a), F("U", False, before=a)], "tuple", attrs=a), variant("B", [F("U", True, after=a)], "named")], params=params(["T", "U"]), tag="attr", **ALL))
        out.append(st("Foo", [F("T", True), F("U")], "named", params=params(["T", "U"]), attrs=a, tag="attr", **ALL) if "pin)" not in a else st("Foo", [F("T", True), F("U")], params=params(["T", "U"])))
    for m in M:
        out.append(st("Foo", [F("T", True, marker=m), F("U", False), F("U", True, marker=m, before="/// d\n")], "named", params=params(["T", "U"]), tag="attr", **ALL))
        out.append(st("Foo", [F("T", False, before="#[cfg_attr(any(), pin)]"), F("U", True, marker=m)], "tuple", params=params(["T", "U"]), tag="attr", **ALL))
        out.append(D("Foo", "enum", [variant("A", [F("T", True, marker=m), F("U", False)], "tuple"), variant("B", [F("U", True, marker=m, after="#[allow(unused)]")], "named")], params=params(["T", "U"]), tag="attr", **ALL))
    for r in ["#[repr(C)]", "#[repr(align(16))]", "#[repr(C, align(8))]", "#[repr(transparent)]", "#[repr(Rust)]"]:
        fs = [F("T", True), F("U")] if "transparent" not in r else [F("T", True), F("()")]
        out.append(st("Foo", fs, "named", params=params(["T", "U"] if "transparent" not in r else ["T"]), attrs=r, tag="repr", **ALL))
        out.append(st("Foo", [F(f.ty, f.pin) for f in fs], "tuple", params=params(["T", "U"] if "transparent" not in r else ["T"]), attrs_before=r, tag="repr", **ALL))
    for r in ["#[repr(u8)]", "#[repr(C)]", "#[repr(C, u16)]", "#[repr(isize)]"]:
        out.append(D("Foo", "enum", [variant("A", [F("T", True), F("U")], "tuple"), variant("B", [F("U", True)], "named")], params=params(["T", "U"]), attrs=r, tag="repr", **ALL))
    for dv in ["#[derive(Clone)]", "#[derive(Clone, Copy)]", "#[derive(Debug, PartialEq, Eq, Hash)]", "#[derive(Default)]", "#[derive(PartialOrd, PartialEq)]"]:
        out.append(st("Foo", [F("T", True), F("U")], "named", params=params(["T", "U"]), attrs=dv, tag="derive", **ALL))
        out.append(st("Foo", [F("T", True), F("u8")], "tuple", params=params(["T"]), attrs_before=dv, tag="derive"))
    out.append(D("Foo", "enum", [variant("A", [F("T", True), F("U")], "tuple"), variant("B", [F("U", True)], "named")], params=params(["T", "U"]), attrs="#[derive(Clone, Copy, Debug)]", tag="derive", **ALL))
    out.append(st("Foo", [F("T", True), F("U")], "named", params=params(["T", "U"]), attrs="#[must_use] #[non_exhaustive] #[doc(hidden)] #[allow(clippy::all)]", tag="attr", **ALL))
    out.append(D("Foo", "enum", [variant("A", [F("T", True), F("U")], "tuple", attrs="#[non_exhaustive]"), variant("B", [F("U", True)], "named", attrs="#[doc(alias = \"z\")]"), variant("C", [], "unit", attrs="#[default]")], params=params(["T", "U"]), attrs="#[derive(Default)] #[must_use = \"z\"]", tag="attr", **ALL))
    return [d for d in out if d.tag]


def contexts():
    """Declarations that come out of macro_rules, or stand inside functions and blocks."""
    out = []
    base = lambda: st("Foo", [F("T", True), F("U")], "named", params=params(["T", "U"]), tag="ctx", **ALL)
    basee = lambda: D("Foo", "enum", [variant("A", [F("T", True), F("U")], "named"), variant("B", [F("U", True)], "tuple")], params=params(["T", "U"]), tag="ctx", **ALL)
    for b in (base, basee):
        d = b()
        src = d.item_src()
        d.wrap_open, d.wrap_close = "macro_rules! mk { ($($t:tt)*) => { $($t)* } }\nmk! { ", " }"
        out.append(d)
        d = b()
        d.wrap_open, d.wrap_close = "macro_rules! mk { ($i:item) => { $i } }\nmk! { ", " }"
        out.append(d)
    # types, idents, visibilities and markers substituted by a macro
    d = base()
    d.raw_decl = "macro_rules! mk { ($n:ident, $t:ty, $u:ty, $v:vis, $f:ident) => { #[pin_project(project = Pm, project_ref = Pr, project_replace = Po)] $v struct $n<T, U> { #[pin] $f: $t, b: $u } } }\nmk!(Foo, T, U, pub, a);"
    out.append(d)
    d = st("Foo", [F("::core::option::Option<T>", True), F("&'a U")], "named", params=[P("lt", "'a"), P("ty", "T"), P("ty", "U")], tag="ctx", **ALL)
    d.raw_decl = "macro_rules! mk { ($l:lifetime, $n:ident, $t:ty, $u:ty, $($m:tt)*) => { #[pin_project(project = Pm, project_ref = Pr, project_replace = Po)] pub struct $n<$l, T, U> { $($m)* a: $t, b: $u } } }\nmk!('a, Foo, ::core::option::Option<T>, &'a U, #[pin]);"
    out.append(d)
    d = D("Foo", "enum", [variant("A", [F("T", True), F("(T, U)")], "tuple"), variant("B", [F("T")], "named")], params=params(["T", "U"]), tag="ctx", **ALL)
    d.raw_decl = "macro_rules! mk { ($a:ident { $($t:ty),* } $b:ident) => { #[pin_project(project = Pm, project_ref = Pr, project_replace = Po)] pub enum Foo<T, U> { $a(#[pin] T, ($($t),*)), $b { a: T } } } }\nmk!(A { T, U } B);"
    out.append(d)
    return out


def cfg_pairs():
    """Declarations with conditional parts (fields/variants/markers)."""
    out = []
    offs = ["#[cfg(any())]", "#[cfg(not(all()))]", "#[cfg_attr(all(), cfg(any()))]", "#[cfg(all(any(), all()))]"]
    ons = ["#[cfg(all())]", "#[cfg(not(any()))]", "#[cfg_attr(any(), cfg(any()))]", "#[cfg_attr(all(), cfg(all()))]"]
    moff = ["#[cfg_attr(any(), pin)]", "#[cfg_attr(not(all()), pin)]", "#[cfg_attr(all(), cfg_attr(any(), pin))]"]
    mon = ["#[cfg_attr(all(), pin)]", "#[cfg_attr(not(any()), pin)]", "#[cfg_attr(all(), cfg_attr(all(), pin))]"]
    for style in ("named", "tuple"):
        for i, off in enumerate(offs):
            on = ons[i]
            for pos in range(3):
                for pin in (True, False):
                    fs = [F("T", True, before=on), F("U", False), F("T", False, before=on), F("U", True)]
                    fs.insert(pos, F("PhantomPinned" if pin else "NoSuch" if style == "named" and False else "u16", pin, before=off, on=False))
                    out.append(st("Foo", fs, style, params=params(["T", "U"]), tag="cfg", **ALL))
            # all pinned fields off; last field off; first off
            out.append(st("Foo", [F("T", False), F("PhantomPinned", True, before=off, on=False)], style, params=params(["T"]), tag="cfg", **ALL))
            out.append(st("Foo", [F("PhantomPinned", True, before=off, on=False), F("T", True), F("u16", False, before=off, on=False)], style, params=params(["T"]), tag="cfg", project_replace=""))
            out.append(st("Foo", [F("T", True, after=on), F("u8", True, after=off, on=False), F("T", False, after=on)], style, params=params(["T"]), tag="cfg", **ALL))
    for i, off in enumerate(offs):
        on = ons[i]
        for pos in range(3):
            vs = [variant("A", [F("T", True), F("U", False, before=on)], "named", attrs=on), variant("B", [F("U", True), F("T")], "tuple")]
            x = variant("X", [F("PhantomPinned", True), F("u8")], "tuple", attrs=off)
            x.on = False
            vs.insert(pos, x)
            out.append(D("Foo", "enum", vs, params=params(["T", "U"]), tag="cfg", **ALL))
        u = variant("N", [], "unit", attrs=off)
        u.on = False
        out.append(D("Foo", "enum", [u, variant("A", [F("T", True), F("PhantomPinned", True, before=off, on=False), F("U")], "tuple"), variant("M", [], "unit", attrs=on)], params=params(["T", "U"]), tag="cfg", **ALL))
        out.append(D("Foo", "enum", [variant("A", [F("PhantomPinned", True, before=off, on=False)], "named"), variant("B", [F("T", True)], "named")], params=params(["T"]), tag="cfg", **ALL))
    for i in range(3):
        for style in ("named", "tuple"):
            out.append(st("Foo", [F("T", True, marker=mon[i]), F("U", False, before=moff[i]), F("u8", True), F("U", False)], style, params=params(["T", "U"]), tag="cfg", **ALL))
        out.append(D("Foo", "enum", [variant("A", [F("T", True, marker=mon[i]), F("U", False, before=moff[i])], "tuple"), variant("B", [F("U", True, marker=mon[i])], "named")], params=params(["T", "U"]), tag="cfg", **ALL))
    return out



def in_functions():
    """Declarations inside function bodies, blocks, consts and impl methods."""
    out = []
    bases = [st("Foo", [F("T", True), F("U")], "named", params=params(["T", "U"]), tag="infn", **ALL), st("Foo", [F("u8"), F("T", True)], "tuple", params=params(["T"]), vis="", tag="infn", project_replace=""),
             D("Foo", "enum", [variant("A", [F("T", True), F("U")], "named"), variant("B", [F("U", True)], "tuple"), variant("C", [], "unit")], params=params(["T", "U"]), vis="", tag="infn", **ALL)]
    for b in bases:
        for o, c in (("pub fn wrapper() { ", " }"), ("pub fn wrapper() { let _x = 1; { ", " } }")):
            out.append(b.copy(wrap_open=o, wrap_close=c))
    return out


def unpin_modes(seed, thorough):
    """Types with the !Unpin or UnsafeUnpin argument, and user impls of UnsafeUnpin of many forms."""
    words, ints = harvest()
    k = 1 if thorough else 2
    nm = [d for d in names(words) if not d.soft]
    base = shapes()[::k] + field_types()[::k] + generic_kinds() + sizes()[:: 4 * k] + attributes()[::k] + nm[:: 6 * k] + visibilities()[:: 3 * k] + cfg_pairs()[:: 3 * k] + arg_forms()[::k] + random_decls(seed * 77 + 5, 300 if thorough else 60)
    base += covering()
    out = []
    for i, d in enumerate(base):
        if d.raw_decl is not None:
            continue
        d = d.copy(order=None)
        out.append(d.copy(unpin="!Unpin", tag="notunpin"))
        g, me, w = d.generics_impl(), d.self_ty(), d.where
        f = lambda extra: "unsafe impl%s ::pin_project::UnsafeUnpin for %s%s {}" % (g, me, " where " + ", ".join([x.replace("Self", me) for x in w] + extra) if w or extra else "")
        out.append(d.copy(unpin="UnsafeUnpin", tag="uu-none"))
        out.append(d.copy(unpin="UnsafeUnpin", tag="uu-all", unsafe_unpin_impls=f([])))
        tp = [p.name for p in d.params if p.kind == "ty"]
        if tp:
            out.append(d.copy(unpin="UnsafeUnpin", tag="uu-cond", unsafe_unpin_impls=f(["%s: ::core::marker::Unpin" % tp[i % len(tp)]])))
            if all(not p.bounds for p in d.params if p.kind != "const") and not w and all(p.bounds == "usize" for p in d.params if p.kind == "const"):
                inst = "<" + ", ".join("'static" if p.kind == "lt" else "u8" if p.kind == "ty" else "3" for p in d.params) + ">"
                out.append(d.copy(unpin="UnsafeUnpin", tag="uu-inst", unsafe_unpin_impls="unsafe impl ::pin_project::UnsafeUnpin for %s%s {}" % (d.name, inst)))
    return out


BODY = "sink(self.as_ref().get_ref() as *const _ as *const ());"
BODY_PRE = "#[inline(never)] pub fn sink(_: *const ()) {}\n"


def drops_more(seed, thorough):
    words, ints = harvest()
    nm = [d for d in names(words) if not d.soft and d.name != "drop"]
    base = field_types()[::2] + nm[:: 2 if thorough else 5] + sizes()[:: 3 if thorough else 6] + attributes()[::2] + cfg_pairs()[::3] + visibilities()[::3] + random_decls(seed * 31 + 9, 200 if thorough else 60)
    base += covering(mode="")
    out = []
    for d in base:
        if d.raw_decl is not None or d.wrap_open or any("derive(Clone, Copy" in x for x in (d.attrs, d.attrs_before)):
            continue
        d = d.copy(pinned_drop=True, project_replace=None, order=None, pre=d.pre + BODY_PRE, drop_body=BODY, tag="drop")
        if "derive" in d.attrs + d.attrs_before and "Copy" in d.attrs + d.attrs_before:
            continue
        out.append(d)
    return out


def lifetimes():
    """Declarations whose lifetimes (declared or bound inside types) could meet the generated one."""
    out = []
    for l in ("'pin", "'pin_", "'_pin", "'p", "'__pin", "'pin0", "'pin1", "'a", "'this", "'lt", "'r#pin", "'r#async"):
        for ty in ("for<%s> fn(&%s u8) -> &%s u8", "::std::boxed::Box<dyn for<%s> Fn(&%s u8) -> &%s u8>", "PhantomData<for<%s> fn(&%s u8, &%s u16)>"):
            t = ty % (l, l, l)
            out.append(st("Foo", [F(t, True), F(t, False), F("T")], "named", params=params(["T"]), tag="lifetime", **ALL))
            out.append(D("Foo", "enum", [variant("A", [F(t, True), F(t)], "tuple"), variant("B", [F("T", True)], "named")], params=params(["T"]), tag="lifetime", **ALL))
        out.append(st("Foo", [F("T", True), F("u8")], "named", params=[P("ty", "T", "for<%s> Fn(&%s u8)" % (l, l))], tag="lifetime", **ALL))
        out.append(st("Foo", [F("T", True), F("u8")], "tuple", params=params(["T"]), where=["for<%s> &%s T: Clone" % (l, l)], tag="lifetime", **ALL))
        out.append(st("Foo", [F("T", True), F("u8")], "tuple", params=params(["T"]), where=["for<%s> fn(&%s T): Clone" % (l, l)], tag="lifetime", **ALL))
        out.append(st("Foo", [F("&%s T" % l, True), F("&%s mut T" % l)], "named", params=[P("lt", l), P("ty", "T", l)], tag="lifetime", **ALL))
        out.append(st("Foo", [F("&%s T" % l, True), F("&'pin mut T")], "named", params=[P("lt", l), P("lt", "'pin"), P("ty", "T", l + " + 'pin")], tag="lifetime", **ALL) if l != "'pin" else out[-1])
        out.append(st("Foo", [F("T", True), F("&%s u8" % l)], "named", params=[P("lt", l), P("ty", "T")], where=["T: for<'z> Fn(&'z u8, &%s u8)" % l], tag="lifetime", **ALL))
    chain = ["'pin", "'pin_", "'pin__", "'pin___"]
    for n in range(1, 5):
        for perm in (chain[:n], chain[:n][::-1]):
            out.append(st("Foo", [F("&%s T" % x, i % 2 == 0) for i, x in enumerate(perm)] + [F("T", True)], "tuple", params=[P("lt", x) for x in perm] + [P("ty", "T", " + ".join(perm))], tag="lifetime", **ALL))
            out.append(D("Foo", "enum", [variant("A", [F("&%s T" % x, i % 2 == 0) for i, x in enumerate(perm)], "tuple"), variant("B", [F("T", True)], "named")], params=[P("lt", x) for x in perm] + [P("ty", "T", " + ".join(perm))], tag="lifetime", **ALL))
    return out


def cfg_more(seed, thorough):
    """Random conditional declarations; conditions nest, combine, and hide code that would not compile."""
    rnd = random.Random(seed * 13 + 3)
    def cond(on, depth=0):
        r = rnd.random()
        if depth > 2 or r < .35:
            return "all()" if on else "any()"
        if r < .5:
            return "not(%s)" % cond(not on, depth + 1)
        if r < .65:
            return rnd.choice(["pv_yes", 'pv_key = "v"', "target_pointer_width = \"64\""]) if on else rnd.choice(["pv_no", 'pv_key = "w"', "target_os = \"none\""])
        if r < .85:
            n = rnd.randint(1, 3)
            vals = [True] * n if on else [rnd.random() < .5 for _ in range(n - 1)] + [False]
            rnd.shuffle(vals)
            return "all(%s)" % ", ".join(cond(v, depth + 1) for v in vals)
        n = rnd.randint(1, 3)
        vals = [False] * n if not on else [rnd.random() < .5 for _ in range(n - 1)] + [True]
        rnd.shuffle(vals)
        return "any(%s)" % ", ".join(cond(v, depth + 1) for v in vals)
    def attr(on):
        r = rnd.random()
        if r < .6:
            return "#[cfg(%s)]" % cond(on)
        if on:
            return rnd.choice(["#[cfg_attr(%s, cfg(%s))]" % (cond(False), cond(False)), "#[cfg_attr(%s, cfg(%s))]" % (cond(True), cond(True)), "#[cfg(%s)] #[cfg(%s)]" % (cond(True), cond(True))])
        return rnd.choice(["#[cfg_attr(%s, cfg(%s))]" % (cond(True), cond(False)), "#[cfg(%s)] #[cfg(%s)]" % (cond(True), cond(False)), "#[cfg(%s)] #[cfg(%s)]" % (cond(False), cond(True))])
    def marker(on):
        return rnd.choice(["#[cfg_attr(%s, pin)]", "#[cfg_attr(%s, pin)]", "#[cfg_attr(%s, allow(dead_code), pin)]", "#[cfg_attr(%s, cfg_attr(all(), pin))]"]) % cond(on)
    def fields(style, k, pool):
        fs = []
        for i in range(k):
            nm = "n%d" % i if style == "named" else None
            r = rnd.random()
            if r < .3:  # configured out; type may not even exist
                ty = rnd.choice(["PhantomPinned", "NoSuchType", "T", "no::such::Path<U>"])
                pin = rnd.random() < .5
                same = "n%d" % (i - 1) if style == "named" and i and rnd.random() < .3 else nm
                fs.append(F(ty, pin, name=same, before=attr(False), on=False))
            else:
                pin = rnd.random() < .5
                b = attr(True) if rnd.random() < .5 else ""
                f = F(rnd.choice(pool), pin, name=nm)
                if rnd.random() < .5:
                    f.before = b
                else:
                    f.after = b
                if pin and rnd.random() < .5:
                    f.marker = marker(True)
                if not pin and rnd.random() < .3:
                    f.before += " " + marker(False)
                fs.append(f)
        return fs
    out = []
    for _ in range(500 if thorough else 160):
        style = rnd.choice(["named", "tuple"])
        pool = ["T", "U", "::std::vec::Vec<T>", "u8", "PhantomPinned"]
        if rnd.random() < .55:
            fs = fields(style, rnd.randint(1, 6), pool) + [F("PhantomData<(T, U)>", name="ph" if style == "named" else None)]
            d = D("Foo", "struct", [V(None, style, fs)], params=params(["T", "U"]), tag="cfg", **ALL)
        else:
            vs = []
            for i in range(rnd.randint(1, 5)):
                st_ = rnd.choice(["named", "tuple", "unit"])
                v = V("V%d" % i, st_, [] if st_ == "unit" else fields(st_, rnd.randint(0, 4), pool))
                for f in v.fields:
                    f.vis = ""
                if rnd.random() < .3:
                    v.on, v.attrs = False, attr(False)
                    if rnd.random() < .3 and i:
                        v.name = "V%d" % (i - 1)
                elif rnd.random() < .4:
                    v.attrs = attr(True)
                vs.append(v)
            vs.insert(rnd.randint(0, len(vs)), V("Ph", "tuple", [F("PhantomData<(T, U)>")]))
            d = D("Foo", "enum", vs, params=params(["T", "U"]), tag="cfg", **ALL)
        if rnd.random() < .25:
            d.project_replace = None
        out.append(d)
    # conditions on the attribute itself, and argument lists chosen by condition
    for on in ("all()", "not(any())", "pv_yes"):
        d = st("Foo", [F("T", True, marker="#[cfg_attr(%s, pin)]" % on), F("U")], "named", params=params(["T", "U"]), tag="cfg", **ALL)
        d.raw_decl = d.item_src().replace("#[pin_project(", "#[cfg_attr(%s, pin_project(" % on, 1).replace(")]\n", "))]\n", 1)
        out.append(d)
        d = st("Foo", [F("T", True), F("U")], "tuple", params=params(["T", "U"]), tag="cfg", project="Pm")
        d.raw_decl = "#[cfg_attr(not(%s), pin_project(project = Zm, !Unpin))] #[cfg_attr(%s, pin_project(project = Pm))] pub struct Foo<T, U>(#[pin] T, U);" % (on, on)
        out.append(d)
    return out


CFG_FLAGS = ["--cfg", "pv_yes", "--cfg", 'pv_key="v"']


# ------------------------------------------------------------------ random
def random_decls(seed, n):
    rnd = random.Random(seed)
    out = []
    simple = ["T", "U", "u8", "::std::string::String", "::std::vec::Vec<T>", "PhantomPinned", "&'a T", "&'a mut U", "(T, U)", "[T; 2]", "::core::option::Option<U>", "PhantomData<U>", "*mut T", "fn(T) -> U", "Aux<T>", "Un<T>", "AliasP", "::std::boxed::Box<dyn ::core::fmt::Debug>", "Dflt", "mac!(U)"]
    for _ in range(n):
        ps = [P("lt", "'a"), P("ty", "T", rnd.choice(["", "'a", "Clone", "Clone + 'a", "Default"])), P("ty", "U", rnd.choice(["", "'a", "Copy"]))]
        if rnd.random() < .3:
            ps.append(P("const", "N", "usize"))
        w = rnd.choice([[], [], ["T: 'a", "U: 'a"], ["U: Clone"], ["::std::vec::Vec<T>: Clone"]])
        ph = F("PhantomData<(&'a T, &'a U)>")
        w = list(w) + (["T: 'a", "U: 'a"] if "T: 'a" not in w else [])
        def flds(k, style):
            fs = []
            for i in range(k):
                a = rnd.choice(["", "", "", "/// d\n", "#[allow(dead_code)]", "#[cfg(all())]"])
                fs.append(F(rnd.choice(simple), rnd.random() < .5, vis=rnd.choice(["", "", "pub", "pub(crate)"]), before=a if rnd.random() < .5 else "", after=a if rnd.random() < .3 and not a.startswith("#[cfg(") else "", marker=rnd.choice(["#[pin]", "#[pin]", "#[cfg_attr(all(), pin)]"]), name=("n%d" % i if style == "named" else None)))
            return fs
        a = {}
        if rnd.random() < .6:
            a["project"] = "Pm"
        if rnd.random() < .6:
            a["project_ref"] = "Pr"
        r = rnd.random()
        kind = rnd.choice(["struct", "struct", "enum"])
        if r < .5:
            a["project_replace"] = "Po"
        elif r < .7 and kind == "struct":
            a["project_replace"] = ""
        un = rnd.choice([None, None, None, "!Unpin", "UnsafeUnpin"])
        vis = rnd.choice(["", "pub", "pub(crate)", "pub(super)"])
        if kind == "struct":
            style = rnd.choice(["named", "tuple"])
            fs = flds(rnd.randint(1, 7), style)
            ph.name = "ph" if style == "named" else None
            fs.insert(rnd.randint(0, len(fs)), ph)
            d = D("Foo", "struct", [V(None, style, fs)])
        else:
            vs = []
            for i in range(rnd.randint(1, 5)):
                style = rnd.choice(["named", "tuple", "unit"])
                fs = [] if style == "unit" else flds(rnd.randint(0, 4), style)
                for f in fs:
                    f.vis = ""
                vs.append(V("V%d" % i, style, fs))
            vs.insert(rnd.randint(0, len(vs)), V("Ph", "tuple", [ph]))
            d = D("Foo", "enum", vs)
        n_args = len(a) + (1 if un else 0)
        d.params, d.where, d.vis, d.unpin, d.pre, d.tag = ps, w, vis, un, AUX, "random"
        for k, v in a.items():
            setattr(d, k, v)
        d.order = rnd.sample(range(n_args), n_args)
        out.append(d)
    return out


# ------------------------------------------------------------------ combinations
def arg_combos(kind):
    """Every accepted combination of the arguments that choose what is generated."""
    for pj, rf, rp, pd in itertools.product((None, "Pm"), (None, "Pr"), (None, "", "Po"), (False, True)):
        if kind == "enum" and rp == "" or pd and rp is not None:
            continue
        yield dict(project=pj, project_ref=rf, project_replace=rp, pinned_drop=pd)


def mixed():
    """Every combination of arguments on every small shape."""
    out = []
    TU = lambda: params(["T", "U"])
    S = [
        lambda: st("Foo", [F("T", True)], "named", params=params(["T"])),
        lambda: st("Foo", [F("T", False)], "named", params=params(["T"])),
        lambda: st("Foo", [F("T", True)], "tuple", params=params(["T"])),
        lambda: st("Foo", [F("T", False)], "tuple", params=params(["T"]), vis=""),
        lambda: st("Foo", [F("u8", True)], "named", vis="pub(crate)"),
        lambda: st("Foo", [F("PhantomPinned", False), F("::std::string::String", True)], "tuple"),
        lambda: st("Foo", [F("T", True), F("U", True)], "named", params=TU()),
        lambda: st("Foo", [F("T"), F("U")], "named", params=TU()),
        lambda: st("Foo", [F("&'a T", True), F("U"), F("[u8; N]", True)], "named", params=[P("lt", "'a"), P("ty", "T", "'a"), P("ty", "U"), P("const", "N", "usize")]),
        lambda: st("Foo", [F("T", True), F("U")], "tuple", params=TU(), where=["T: Clone"], vis=""),
        lambda: st("Foo", [F("U", True), F("T", True)], "named", params=[P("ty", "T", "?Sized"), P("ty", "U")], sized=False),
        lambda: D("Foo", "enum", [variant("A", [F("T", True)], "tuple")], params=params(["T"])),
        lambda: D("Foo", "enum", [variant("A", [F("T")], "named"), variant("B", [], "unit")], params=params(["T"]), vis=""),
        lambda: D("Foo", "enum", [variant("A", [F("u8", True)], "named"), variant("B", [F("PhantomPinned")], "tuple"), variant("C", [], "unit")]),
        lambda: D("Foo", "enum", [variant("A", [F("T", True), F("U")], "tuple"), variant("B", [F("U", True), F("&'a u8")], "named"), variant("C", [F("[T; N]")], "tuple")], params=[P("lt", "'a"), P("ty", "T"), P("ty", "U"), P("const", "N", "usize")]),
        lambda: D("Foo", "enum", [variant("A", [F("T")], "tuple"), variant("B", [F("U")], "tuple")], params=TU(), where=["U: Clone"]),
    ]
    for mk in S:
        kind = mk().kind
        for a in arg_combos(kind):
            d = mk()
            if not d.sized and a["project_replace"] is not None:
                continue
            for k, v in a.items():
                setattr(d, k, v)
            d.tag = "mixed"
            if d.pinned_drop:
                d.pre, d.drop_body = d.pre + BODY_PRE, BODY
            out.append(d)
    return out


def similar():
    """Pinned fields whose types look alike (same head, same last segment, same text up to arguments or
    spacing) and differ; the same type both marked and not."""
    out = []
    pre = AUX + "pub mod m1 { pub struct W<X>(pub X); pub struct Z(pub u8); } pub mod m2 { pub struct W<X>(pub X); pub struct Z(pub super::PhantomPinned); }\npub struct K2<const Q: usize, X>(pub X); pub trait Pick { type Ty; } impl Pick for [u8; 1] { type Ty = u8; } impl Pick for [u8; 2] { type Ty = PhantomPinned; }\n"
    pairs = [("Aux<T>", "Aux<U>"), ("Aux<u8>", "Aux<PhantomPinned>"), ("Aux<u8>", "Aux<T>"), ("::core::option::Option<T>", "::core::option::Option<U>"), ("[T; 2]", "[U; 2]"), ("[T; 1]", "[T; 2]"), ("[u8; 4]", "[PhantomPinned; 4]"), ("(T, u8)", "(U, u8)"), ("(T,)", "(T, U)"), ("((T))", "((U))"), ("m1::W<T>", "m2::W<U>"), ("m1::Z", "m2::Z"), ("self::m1::Z", "self::m2::Z"), ("K2<1, T>", "K2<2, U>"), ("<[u8; 1] as Pick>::Ty", "<[u8; 2] as Pick>::Ty"), ("u8", "PhantomPinned"), ("Dflt<u8>", "Dflt"), ("mac!(T)", "mac!(U)"), ("mac!(u8)", "mac!(PhantomPinned)"), ("Aux<Aux<u8>>", "Aux<Aux<T>>"), ("PhantomData<u8>", "PhantomPinned"), ("AliasT<u8>", "AliasT<PhantomPinned>"), ("T", "T"), ("PhantomPinned", "PhantomPinned"), ("*const T", "T"), ("*mut U", "U"), ("fn(T)", "T"), ("::std::boxed::Box<T>", "T"), ("(u8, u8)", "(u8, PhantomPinned)"), ("Nu<T>", "Nu<U>"), ("Un<T>", "Nu<T>")]
    ph = lambda: F("PhantomData<(T, U)>")
    for a, b in pairs:
        for x, y in ((a, b), (b, a)):
            kw = dict(params=params(["T", "U"]), pre=pre, tag="similar")
            out.append(st("Foo", [F(x, True), F(y, True), ph()], "named", **dict(kw, **ALL)))
            out.append(st("Foo", [F(x, True), F(y, False), ph()], "tuple", **dict(kw, project="Pm")))
            out.append(D("Foo", "enum", [variant("A", [F(x, True), ph()], "tuple"), variant("B", [F(y, True)], "named"), variant("C", [F(y)], "tuple")], **dict(kw, **ALL)))
            out.append(D("Foo", "enum", [variant("A", [F(x, True), F(y, True)], "tuple"), variant("B", [F("u8"), ph()], "named")], **dict(kw, project_ref="Pr")))
    return out


KNOWN_TYPES = ["Box", "Vec", "Option", "Result", "Rc", "Arc", "Cell", "RefCell", "Mutex", "String", "PhantomPinned_", "Weak", "Cow", "ManuallyDrop", "MaybeUninit", "UnsafeCell", "HashMap", "Future", "Stream", "Timer", "Sleep", "Fn", "Ready", "Pending", "JoinHandle", "NonNull", "Wrapping", "Path", "Sender", "Receiver", "U", "Assert", "AssertUnpin", "Unpinned", "Never", "Infallible", "Empty", "Range", "Duration", "Instant", "Context", "Waker", "Poll"]


def type_names(words):
    """The user's own types with well-known names, or named by words of the macro's source: what they
    are called decides nothing."""
    out = []
    for w in dict.fromkeys(KNOWN_TYPES + [w for w in words if w[0].isupper()]):
        if w in KEYWORDS or reserved(w) or w in ("T", "Foo", "Unpin", "Drop", "Pm", "Pr", "Po", "Sized"):
            continue
        pre = "pub struct %s<X = PhantomPinned>(pub X);\npub mod deep { pub struct %s<X = super::PhantomPinned>(pub X); }\n" % (w, w)
        kw = dict(params=params(["T"]), pre=pre, tag="typename")
        out.append(st("Foo", [F("%s<T>" % w, True), F("deep::%s<T>" % w)], "named", **dict(kw, **ALL)))
        out.append(st("Foo", [F("deep::%s<u8>" % w, True), F("T"), F("%s<PhantomPinned>" % w, True)], "tuple", **dict(kw, project_replace="")))
        out.append(D("Foo", "enum", [variant("A", [F("%s<PhantomPinned>" % w, True), F("T")], "named"), variant("B", [F("%s<u8>" % w), F("deep::%s<T>" % w, True)], "tuple")], **dict(kw, **ALL)))
        out.append(D("Foo", "enum", [variant("A", [F("deep::%s" % w, True)], "tuple"), variant("B", [F("%s<T>" % w)], "named")], **dict(kw, project="Pm")))
        out.append(st("Foo", [F(w, True), F("&'static %s" % w), F("[%s; 2]" % w)], "named", pre=pre, tag="typename"))
        out.append(st("Foo", [F(w), F("::core::option::Option<%s>" % w)], "tuple", pre=pre, tag="typename", **ALL))
    return out


NOT_AUTO = ["*const u8", "::std::rc::Rc<u8>", "::core::cell::Cell<u8>", "::core::cell::UnsafeCell<u8>", "&'static mut u8", "::std::boxed::Box<dyn Fn()>", "PhantomPinned", "::core::marker::PhantomData<*mut u8>", "&'static ::core::cell::Cell<u8>", "::std::sync::MutexGuard<'static, u8>", "fn() -> u8", "::core::cell::RefCell<u8>"]


def concretes():
    """Types without parameters, with fields that have or lack each auto trait."""
    out = []
    for i, t in enumerate(NOT_AUTO):
        for pin in (True, False):
            kw = dict(tag="concrete")
            out.append(st("Foo", [F(t, pin)], "named", **kw))
            out.append(st("Foo", [F("u8", not pin), F(t, pin)], "tuple", **dict(kw, **ALL)))
            out.append(D("Foo", "enum", [variant("A", [F(t, pin)], "tuple"), variant("B", [], "unit")], **kw))
            out.append(D("Foo", "enum", [variant("A", [F("u8", not pin)], "named"), variant("B", [F(t, pin), F(NOT_AUTO[(i + 3) % len(NOT_AUTO)], not pin)], "tuple")], **dict(kw, **ALL)))
            out.append(st("Foo", [F(t, pin), F("u8", True)], "named", unpin="!Unpin", **kw))
            out.append(st("Foo", [F(t, pin), F("&'a u8", True)], "named", params=[P("lt", "'a")], **dict(kw, project="Pm")))
            out.append(D("Foo", "enum", [variant("A", [F(t, pin), F("[u8; N]")], "tuple")], params=[P("const", "N", "usize")], **dict(kw, project_ref="Pr")))
            out.append(st("Foo", [F("u16"), F(t, pin)], "tuple", pinned_drop=True, pre=BODY_PRE, drop_body=BODY, **kw))
    return out


def random_more(seed, n):
    """Random combinations over everything at once: generics, shapes, names, types, arguments, markers,
    attributes, visibilities."""
    rnd = random.Random(seed)
    rnd_names = random.Random(seed + 77)  # of its own: the words found must not change the rest
    words, ints = harvest()
    pool_names = [w for w in dict.fromkeys(NAMES + list(words)) if w not in KEYWORDS and not reserved(w) and w not in ("T", "U", "Foo", "Pm", "Pr", "Po", "sink")]
    out = []
    for _ in range(n):
        lt, ty, ty2, cn = rnd.random() < .3, rnd.random() < .7, rnd.random() < .4, rnd.random() < .25
        ps, use, types = [], [], ["u8", "::std::string::String", "PhantomPinned", "::std::boxed::Box<dyn ::core::fmt::Debug>", "()", "(u8, PhantomPinned)", "fn(u8) -> u8", "AliasP", "Dflt", "Aux<u8>", "Aux<PhantomPinned>", "&'static str", "*const u8", "mac!(u8)", "PhantomData<PhantomPinned>", "Dflt<u8>"]
        if lt:
            ps.append(P("lt", "'a")); use.append("&'a ()"); types += ["&'a u8", "&'a mut u8", "Lt<'a>", "Pin<&'a mut PhantomPinned>"]
        if ty:
            ps.append(P("ty", "T", rnd.choice(["", "", "Clone", "Default + Send"]))); use.append("*const T"); types += ["T", "T", "Aux<T>", "Un<T>", "Nu<T>", "[T; 2]", "(T, u8)", "::core::option::Option<T>", "PhantomData<T>", "mac!(T)", "::std::vec::Vec<T>"]
            if lt:
                ps[-1].bounds = (ps[-1].bounds + " + 'a").lstrip(" +"); types += ["&'a T", "&'a mut T"]
        if ty2:
            ps.append(P("ty", "U", rnd.choice(["", "", "Copy"]))); use.append("*const U"); types += ["U", "U", "Aux<U>", "::core::option::Option<U>", "fn(U)", "::core::cell::Cell<U>"]
            if ty:
                types += ["(T, U)", "Aux<(U, T)>"]
        if cn:
            ps.append(P("const", "N", "usize")); types += ["[u8; N]", "[PhantomPinned; N]"]
        w = []
        if ty and rnd.random() < .3:
            w.append(rnd.choice(["T: Clone", "::std::vec::Vec<T>: Clone", "T: 'static", "T: Unpin"]))
        if ty2 and rnd.random() < .2:
            w.append("U: Default")
        kind = rnd.choice(["struct", "struct", "enum"])
        vis = rnd.choice(["", "pub", "pub", "pub(crate)", "pub(super)"])
        ds = rnd.choice(["/// d\n", "#[allow(dead_code)]", "#[doc(hidden)]", "#[cfg(all())]", "#[cfg_attr(any(), pin)]"])

        def flds(k, style):
            fs, nm = [], rnd_names.sample(pool_names, k) if k else []
            for i in range(k):
                fs.append(F(rnd.choice(types), rnd.random() < .5, vis=rnd.choice(["", "", "pub", "pub(crate)", "pub(super)"]) if kind == "struct" else "", before=ds if rnd.random() < .2 else "", after=ds if rnd.random() < .15 else "", marker=rnd.choice(["#[pin]", "#[pin]", "#[pin]", "#[cfg_attr(all(), pin)]"]), name=nm[i] if style == "named" and rnd.random() < .5 else "n%d" % i if style == "named" else None))
            return fs
        ph = F("PhantomData<(%s)>" % "".join(u + ", " for u in use), rnd.random() < .2)
        big = rnd.random() < .08
        if kind == "struct":
            style = rnd.choice(["named", "tuple"])
            fs = flds(rnd.randint(8, 14) if big else rnd.randint(0 if use else 1, 5), style)
            if use:
                ph.name = "ph" if style == "named" else None
                fs.insert(rnd.randint(0, len(fs)), ph)
            d = D("Foo", "struct", [V(None, style, fs)])
        else:
            vs = []
            for i in range(rnd.randint(8, 12) if big else rnd.randint(1, 4)):
                style = rnd.choice(["named", "tuple", "tuple", "unit"])
                vs.append(V("V%d" % i, style, [] if style == "unit" else flds(rnd.randint(0, 3), style), attrs=rnd.choice(["", "", "", "/// v\n"])))
            if use or not any(v.fields for v in vs):
                if not use:
                    ph.ty = "u8"
                vs.insert(rnd.randint(0, len(vs)), V("Ph", "tuple", [ph]))
            d = D("Foo", "enum", vs)
        a = dict(rnd.choice(list(arg_combos(kind))))
        un = rnd.choice([None, None, None, "!Unpin", "UnsafeUnpin"])
        d.params, d.where, d.vis, d.unpin, d.pre, d.tag = ps, w, vis, un, AUX, "random"
        for k, v in a.items():
            setattr(d, k, v)
        if d.pinned_drop:
            d.pre, d.drop_body = d.pre + BODY_PRE, BODY
        if rnd.random() < .3:
            d.attrs = rnd.choice(["#[derive(Debug)]", "#[must_use]", "#[doc = \"x\"]", "#[allow(clippy::all)]", "#[repr(C)]", "#[non_exhaustive]"])
            if "derive" in d.attrs:
                d.attrs = ""
        k = sum([d.project is not None, d.project_ref is not None, d.project_replace is not None, un is not None, d.pinned_drop])
        d.order, d.trailing = rnd.sample(range(k), k), rnd.random() < .3 and k > 0
        out.append(d)
    return out


def fragments(thorough):
    """Declarations whose types, names and visibilities come out of macro fragments (which reach the
    macro as groups without delimiters)."""
    out = []
    src = shapes()[::1 if thorough else 3] + field_types()[::1 if thorough else 2] + generic_kinds()[::1 if thorough else 3] + mixed()[::2 if thorough else 7] + visibilities()[::1 if thorough else 3]
    fr = ["t", "tf", "n", "v", "tfnv"]
    for i, d in enumerate(src):
        if d.raw_decl or d.wrap_open or d.inner_path:
            continue
        e = d.copy(frag=fr[i % 5], tag="fragment")
        out.append(e)
    return out


def positions(extra=(), thorough=False):
    """A rare feature at the end (or the beginning) of a long list: of attributes, fields, variants,
    parameters or predicates."""
    out = []
    ns = [2, 3, 4, 5, 6, 7, 9, 11, 13, 17, 21, 33, 65] + ([8, 10, 12, 14, 15, 16, 24, 40, 100, 129] if thorough else [])
    for n in sorted(set(ns) | set(x + 1 for x in extra if 2 < x <= 128)):
        a = "#[allow(unused)] " * n
        doc = "".join("/// %d\n" % i for i in range(n))
        tu = dict(params=params(["T", "U"]), tag="position", **ALL)
        for x in (a, doc):
            out.append(st("Foo", [F("T", True, before=x), F("U", True, after=x), F("T", False, before=x), F("U", True)], "named", **tu))
            out.append(D("Foo", "enum", [variant("A", [F("T", True, before=x), F("U", True, after=x), F("T", False, after=x)], "tuple", attrs=x), variant("B", [F("U", True), F("T")], "named")], attrs=x, **tu))
        # the only pinned field of a long enum
        for at in (0, n - 1):
            out.append(D("Foo", "enum", [variant("V%d" % i, [F("T", i == at), F("U", False)], ("named", "tuple")[(i + n) % 2]) for i in range(n)], **tu))
            out.append(D("Foo", "enum", [variant("V%d" % i, [] if i != at else [F("T", True), F("U", False)], "unit" if i != at else ("named", "tuple")[n % 2]) for i in range(n)], **tu))
        # a bound lifetime that is named like the generated one
        hr = "for<'pin> fn(&'pin T) -> &'pin U"
        for at in (0, n - 1):
            out.append(D("Foo", "enum", [variant("V%d" % i, [F(hr if i == at else "T", i % 2 == 0), F("U", i % 3 == 0)], ("named", "tuple")[i % 2]) for i in range(n)], **tu))
            out.append(st("Foo", [F(hr if i == at else "T", i % 2 == 0) for i in range(n)] + [F("U")], "named", **tu))
        t = ["T%d" % i for i in range(n)]
        ps = params(t)
        ps[-1].bounds = "for<'pin> ::core::ops::Fn(&'pin ())"
        out.append(st("Foo", [F(x, i % 2 == 0) for i, x in enumerate(t)], "named", params=ps, tag="position", **ALL))
        out.append(st("Foo", [F(x, i % 2 == 0) for i, x in enumerate(t)], "tuple", params=params(t), where=["%s: Clone" % x for x in t[:-1]] + ["for<'pin> %s: ::core::ops::Fn(&'pin ())" % t[-1]], tag="position", **ALL))
        # a lifetime parameter named like the generated one, after n others
        l = ["'l%d" % i for i in range(n - 1)] + ["'pin"]
        out.append(st("Foo", [F("&%s u8" % x, i % 2 == 0) for i, x in enumerate(l)], "named", params=[P("lt", x) for x in l], tag="position", **ALL))
        b = ["::core::convert::AsRef<[u8; %d]>" % i for i in range(n)]
        out.append(st("Foo", [F("T", True), F("U")], "named", params=[P("ty", "T", " + ".join(b)), P("ty", "U")], tag="position", **ALL))
        out.append(D("Foo", "enum", [variant("A", [F("T", True), F("U")], "tuple"), variant("B", [F("U", True)], "named")], params=params(["T", "U"]), where=["T: " + " + ".join(b)], tag="position", **ALL))
        out.append(st("Foo", [F("T", True), F("U")], "tuple", params=params(["T", "U"]), where=["U: " + x for x in b], tag="position", **ALL))
        out.append(st("Foo", [F("&%s u8" % x, i % 2 == 0) for i, x in enumerate(l)], "tuple", params=[P("lt", x) for x in l[:-1]] + [P("lt", "'pin", " + ".join(l[:-1]))], tag="position", **ALL))
        out.append(st("Foo", [F("&%s u8" % x, i % 2 == 0) for i, x in enumerate(l)], "tuple", params=[P("lt", x, "'pin") for x in l[:-1]] + [P("lt", "'pin")], tag="position", **ALL))
        out.append(st("Foo", [F("&%s u8" % x, i % 2 == 0) for i, x in enumerate(l)], "named", params=[P("lt", x) for x in l], where=["'pin: " + " + ".join(l[:-1])], tag="position", **ALL))
        # a ?Sized tail, a raw name, a macro type in last place
        out.append(st("Foo", [F("U", i % 2 == 0) for i in range(n)] + [F("T", True)], "named", params=[P("ty", "T", "?Sized"), P("ty", "U")], sized=False, tag="position"))
        out.append(st("Foo", [F("U", i % 2 == 0, name="f%d" % i) for i in range(n)] + [F("T", True, name="r#type")], "named", **tu))
    return out


def param_mix():
    """Every number (0-3) of lifetime, type and const parameters together."""
    out = []
    for i, (nl, nt, nc) in enumerate(itertools.product(range(4), range(4), range(4))):
        if nl + nt + nc == 0:
            continue
        for kind in ("named", "tuple", "enum"):
            k = i + len(kind)
            ps = [P("lt", "'l%d" % j, "'l0" if j and k % 3 == 0 else "") for j in range(nl)]
            ps += [P("ty", "T%d" % j, ["", "Clone", "", "Send + Default"][(k + j) % 4]) for j in range(nt)]
            ps += [P("const", "N%d" % j, ["usize", "usize", "bool"][(k + j) % 3]) for j in range(nc)]
            fs = [F("&'l%d u8" % j, (k >> j) & 1 == 1) for j in range(nl)] + [F("T%d" % j, (k + j) % 2 == 0) for j in range(nt)]
            fs += [F("[PhantomPinned; N%d]" % j if ps[nl + nt + j].bounds == "usize" else "PhantomPinned", (k + j) % 3 == 0) for j in range(nc)]
            fs = fs[k % len(fs):] + fs[:k % len(fs)]
            w = ["T%d: ::core::fmt::Debug" % (nt - 1)] if nt and k % 4 == 1 else []
            kw = dict(params=ps, where=w, tag="param-mix", **(ALL if k % 2 else dict(project="Pm", project_ref="Pr")))
            if kind == "enum":
                h = (len(fs) + 1) // 2
                out.append(D("Foo", "enum", [variant("A", fs[:h], "tuple"), variant("B", fs[h:], "named" if fs[h:] else "unit"), variant("C", [], "unit")], **kw))
            else:
                out.append(st("Foo", fs, kind, **kw))
            if k % 3 == 0:
                out[-1].unpin = "!Unpin"
            elif k % 5 == 0:
                out[-1].project_replace, out[-1].pinned_drop = None, True
                out[-1].pre, out[-1].drop_body = out[-1].pre + BODY_PRE, BODY
    return out


_covering = None


def covering(**over):
    """A covering array of strength 3 (covering.json, from tools/gen_covering.py): every combination of three features
    of a declaration that can occur together. `over` replaces a feature of every row."""
    global _covering
    if _covering is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "covering.json")) as f:
            x = json.load(f)
        _covering = [dict(zip(x["factors"], r)) for r in x["rows"]]
    out, seen = [], set()
    for i, r in enumerate(_covering):
        r = dict(r, **over)
        if r["kind"].startswith("enum") and r["mode"] == "replace":
            r["mode"] = "replace-named"
        key = tuple(sorted((k, str(v)) for k, v in r.items()))
        if key in seen:
            continue
        seen.add(key)
        out.append(covering_row(i, r))
    return out


def covering_row(i, r):
    lts, tps = ["'a", "'b"][:r["lt"]], ["T", "U"][:r["ty"]]
    lt, t, u = (lts or ["'static"])[0], (tps or ["PhantomPinned"])[0], (tps or ["PhantomPinned"])[-1]
    n = "N" if r["const"] else "2"
    ps = [P("lt", x, "'a" if r["outlives"] and x == "'b" else "") for x in lts]
    for j, x in enumerate(tps):
        b = ([["::core::fmt::Debug", "Clone + Send"][(i + j) % 2]] if r["bound"] else []) + (["'a"] if r["outlives"] else [])
        ps.append(P("ty", x, " + ".join(b), "u8" if r["default"] else ""))
    if r["const"]:
        ps.append(P("const", "N", "usize", "3" if r["default"] else ""))
    w = []
    if r["where"]:
        w.append("%s: ::core::marker::Send" % t if tps and i % 2 else "::std::vec::Vec<%s>: ::core::marker::Sized" % u)

    def ty(k, x):
        return {"param": x, "concrete": ["::std::string::String", "PhantomPinned"][i % 2], "app": ["::core::option::Option<%s>", "::std::vec::Vec<%s>"][i // 2 % 2] % x, "ref": "&%s u8" % lt if x in tps and i % 3 else "&%s mut PhantomPinned" % (lts or ["'static"])[-1], "tuple": "(%s, u8)" % x, "array": "[%s; %s]" % (x, n), "fn": "fn(%s) -> u8" % x, "ptr": "*const %s" % x, "paren": "(%s)" % x}[k]

    def flds(style, flip=False):
        ts = [ty(r["first"], t)] + [["u8", u, "PhantomPinned"][(i + j) % 3] for j in range(max(0, r["count"] - 2))] + ([ty(r["last"], u)] if r["count"] > 1 else [])
        k = len(ts)
        pins = {"none": [False] * k, "first": [j == 0 for j in range(k)], "last": [j == k - 1 for j in range(k)], "all": [True] * k, "odd": [j % 2 == 1 for j in range(k)]}[r["pins"]]
        fs = []
        for j in range(k):
            f = F(ts[j], pins[j] != flip, vis=r["fvis"] if not r["kind"].startswith("enum") else "", name=(["r#match", "r#type", "r#n2", "_n3"] if r["raw"] else ["n0", "n1", "n2", "n3"])[j] if style == "named" else None, marker="#[cfg_attr(all(), pin)]" if r["marker"] else "#[pin]")
            f.before, f.after = {"": ("", ""), "doc": ("/// d\n", ""), "before": ("#[allow(dead_code)]" if f.pin else "", ""), "after": ("", "#[allow(unused)]" if f.pin else "/// e\n"), "many": ("/// d\n/// e\n#[allow(dead_code)]", "#[allow(unused)]\n/// f\n")}[r["fattr"]]
            fs.append(f)
        return fs

    use = ["&%s ()" % x for x in lts] + ["*const %s" % x for x in tps]
    ph = F("PhantomData<(%s)>" % "".join(x + ", " for x in use))
    if r["kind"].startswith("enum"):
        style = r["kind"][5:]
        vs = [V("A", style, flds(style))]
        vs.insert(i % 2, V("B", "unit", []))
        if i % 3 == 0:
            vs.append(V("C", "tuple", flds("tuple", True)))
        if use:
            vs.append(V("Ph", "tuple", [ph]))
        d = D("Foo", "enum", vs)
    else:
        fs = flds(r["kind"])
        if use:
            ph.name = "ph" if r["kind"] == "named" else None
            fs.insert([0, len(fs) // 2, len(fs)][i % 3], ph)
        d = D("Foo", "struct", [V(None, r["kind"], fs)])
    d.params, d.where, d.vis, d.unpin, d.tag = ps, w, r["vis"], r["unpin"] or None, "covering"
    d.project, d.project_ref = "Pm" if r["project"] else None, "Pr" if r["ref"] else None
    d.project_replace = {"replace": "", "replace-named": "Po"}.get(r["mode"])
    a = {"": "", "repr": "#[repr(C)]", "derive": "#[derive(Debug)]", "must_use": "#[must_use]"}[r["attr"]]
    a = "/// d\n" * r["doc"] + a if i % 2 else a + "\n/// d\n" * r["doc"]
    if r["before"] and r["attr"] != "derive":
        d.attrs_before = a
    else:
        d.attrs = a
    if r["mode"] == "drop":
        d.pinned_drop, d.pre, d.drop_body = True, BODY_PRE, BODY
    k = sum([d.project is not None, d.project_ref is not None, d.project_replace is not None, d.unpin is not None, d.pinned_drop])
    d.order, d.trailing = [(j + i) % k for j in range(k)] if k else None, i % 5 == 0 and k > 0
    return d


def core(seed=1, thorough=False):
    words, ints = harvest()
    out = shapes() + field_types() + generic_kinds() + arg_forms() + visibilities() + sizes(ints if thorough else ints[:12]) + names(words) + attributes() + contexts() + cfg_pairs()
    out += random_decls(seed * 1000003 + 7, 600 if thorough else 90)
    out += fragments(thorough) + positions(ints if thorough else ints[:12], thorough) + mixed() + similar() + type_names(words) + concretes() + param_mix()
    out += random_more(seed * 7919 + 3, 1500 if thorough else 250) + covering()
    out += covering(project=1, ref=1, mode="replace-named", pins="all", unpin="")
    out += covering(mode="replace-named", pins="odd", count=4, last="param")
    return out
