"""Witness programs: what must be rejected (each with a twin that must be accepted) and what must be
accepted, per property."""
import itertools
import re

from . import build, compile as C, corpus, decl, facts, interp as I, rules, rules2
from .decl import D, F, P, V
from .rules import describe

USE = "use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use std::{pin::Pin, marker::{PhantomData, PhantomPinned}};\n"


def K(*a, **k):
    from .check import Case
    return Case(*a, **k)


def rej(key, src, twin=None, raw=False, **kw):
    if raw:
        return K(key, src, False, twin, **kw)
    return K(key, USE + src, False, USE + twin if twin is not None else None, **kw)


def acc(key, src, **kw):
    return K(key, USE + src, True, **kw)


# ---------------------------------------------------------------- bases: (name, generics, use, item with @ for the attribute args)
def bases():
    return [
        ("named", "<T, U>", "<T, U>", "struct Foo<T, U> { #[pin] a: T, b: U }"),
        ("tuple", "<T, U>", "<T, U>", "pub struct Foo<T, U>(T, #[pin] U);"),
        ("both", "<T, U>", "<T, U>", "pub struct Foo<T, U> { #[pin] a: T, #[pin] b: U }"),
        ("nopin", "<T, U>", "<T, U>", "struct Foo<T, U> { a: T, b: U }"),
        ("enum", "<T, U>", "<T, U>", "enum Foo<T, U> { A { #[pin] a: T, b: U }, B(#[pin] U), C }"),
        ("where", "<T, U>", "<T, U>", "struct Foo<T, U> where T: Clone { #[pin] a: T, b: U }"),
        ("concrete", "", "", "struct Foo { #[pin] a: u8, b: String }"),
        ("concretepp", "", "", "pub struct Foo { #[pin] a: PhantomPinned, b: u8 }"),
        ("concretenopin", "", "", "struct Foo { a: u8 }"),
        ("concreteenum", "", "", "enum Foo { A(#[pin] u8), B { x: u8 } }"),
        ("lt", "<'a, T>", "<'a, T>", "struct Foo<'a, T> { #[pin] a: &'a T, #[pin] b: T }"),
        ("const", "<T, const N: usize>", "<T, N>", "struct Foo<T, const N: usize> { #[pin] a: [T; N], b: u8 }"),
        ("unsized", "<T: ?Sized>", "<T>", "struct Foo<T: ?Sized> { b: u8, #[pin] a: T }"),
        ("enumconst", "<T, const N: usize>", "<T, N>", "enum Foo<T, const N: usize> { A([T; N]), B { #[pin] a: T } }"),
        ("tupleconst", "<T, const N: usize>", "<T, N>", "pub struct Foo<T, const N: usize>(#[pin] [T; N]);"),
        ("enumlt", "<'a, T>", "<'a, T>", "pub enum Foo<'a, T> { A(&'a T), B { #[pin] b: T } }"),
        ("tuplelt", "<'a, T>", "<'a, T>", "struct Foo<'a, T>(#[pin] T, &'a T);"),
        ("enumnopin", "<T, U>", "<T, U>", "pub enum Foo<T, U> { A(T), B { b: U }, C }"),
        ("enumpp", "", "", "enum Foo { A(#[pin] PhantomPinned), B(u8), C }"),
        ("tupleunsized", "<T: ?Sized>", "<T>", "pub struct Foo<T: ?Sized>(#[pin] u8, T);"),
        ("single", "", "", "struct Foo(#[pin] ());"),
    ]


def item(b, args=""):
    src = b[3]
    return "#[pin_project%s]\n%s\n" % ("(%s)" % args if args else "", src)


def impl_head(b, extra=""):
    w = " where " + ", ".join([x for x in (["T: Clone"] if b[0] == "where" else []) + ([extra] if extra else [])]) if b[0] == "where" or extra else ""
    return b[1], "Foo" + b[2], w


def c02():
    out = []
    s = "#[pin_project(project = P, project_ref = R, project_replace = O)] pub struct Foo<T, U> { #[pin] a: T, b: U }\n"
    f = lambda body: s + "pub fn f<T, U>(x: Pin<&mut Foo<T, U>>%s) { %s }"
    out.append(rej("mut-from-pinned", f("") % ("", "let p = x.project(); let _: &mut T = p.a;"), f("") % ("", "let p = x.project(); let _: &mut U = p.b;")))
    out.append(rej("pin-from-unpinned", f("") % ("", "let p = x.project(); let _: Pin<&mut U> = p.b;"), f("") % ("", "let p = x.project(); let _: Pin<&mut T> = p.a;")))
    out.append(rej("own-pinned", f("") % (", v: Foo<T, U>", "let p = x.project_replace(v); let _: T = p.a;"), f("") % (", v: Foo<T, U>", "let p = x.project_replace(v); let _: U = p.b;")))
    out.append(rej("get-mut-pinned", f("") % ("", "let _ = x.project().a.get_mut();"), s + "pub fn f<T: Unpin, U>(x: Pin<&mut Foo<T, U>>) { let _ = x.project().a.get_mut(); }"))
    out.append(rej("ref-mut", f("") % ("", "let p = x.as_ref().project_ref(); let _: &mut U = p.b;"), f("") % ("", "let p = x.as_ref().project_ref(); let _: &U = p.b;")))
    for k, (it, pm, nu) in enumerate(rewritten()):
        out.append(acc("rewritten/%d" % k, it + pm, externs=["aux"], why="(fields and markers changed by another attribute macro)"))
    return out


def rewritten():
    """Declarations that an attribute macro between #[pin_project] and the item changes: (item, type assertions, Unpin-ness)."""
    A = "#[pin_project(project = P, project_ref = R, project_replace = O)] %s\n"
    S = "pub fn f<T, U>(x: Pin<&mut Foo<T, U>>) { let p = x.project(); let _: Pin<&mut T> = p.a; let _: &mut U = p.b; }\npub fn g<T, U>(x: Pin<&Foo<T, U>>) { let p = x.project_ref(); let _: Pin<&T> = p.a; let _: &U = p.b; }\npub fn h<T, U>(x: Pin<&mut Foo<T, U>>, v: Foo<T, U>) { let p = x.project_replace(v); let _: PhantomData<T> = p.a; let _: U = p.b; }\n"
    E = "pub fn f<T, U>(x: Pin<&mut Foo<T, U>>) { if let P::A(a, b) = x.project() { let _: Pin<&mut T> = a; let _: &mut U = b; } }\npub fn g<T, U>(x: Pin<&Foo<T, U>>) { if let R::A(a, b) = x.project_ref() { let _: Pin<&T> = a; let _: &U = b; } }\npub fn h<T, U>(x: Pin<&mut Foo<T, U>>, v: Foo<T, U>) { if let O::A(a, b) = x.project_replace(v) { let _: PhantomData<T> = a; let _: U = b; } }\n"
    good, bad = "Foo<u8, PhantomPinned>", "Foo<PhantomPinned, u8>"
    out = []
    for k, m in enumerate(("#[aux_macro::%s]", "#[allow(dead_code)] #[aux_macro::%s] #[doc = \"x\"]", "#[cfg_attr(all(), aux_macro::%s)]", "#[aux_macro::identity] #[aux_macro::%s]")):
        out.append((A % (m % "pin_marked") + "pub struct Foo<T, U> { #[mark] a: T, b: U }\n", S, (good, bad)))
        out.append((A % (m % "pin_marked") + "pub enum Foo<T, U> { A(#[mark] T, U), B }\n", E, (good, bad)))
        out.append((A % (m % "retype") + "pub struct Foo<T, U> { #[pin] a: Old, b: U }\n", S, (good, bad)))
        out.append((A % (m % "retype") + "pub enum Foo<T, U> { A(#[pin] Old, U), B { old_x: u8 } }\n", E, (good, bad)))
        out.append((A % (m % "retype") + "pub struct Foo<T, U> { #[pin] a: T, b: U, #[pin] old_x: u8 }\n", S + "pub fn n<T, U>(x: Pin<&mut Foo<T, U>>) { let _: Pin<&mut u8> = x.project().new_x; }\n", (good, bad)))
        out.append((A % (m % "unpin_fields") + "pub struct Foo<T, U> { #[pin] a: T, #[pin] b: U }\n", S.replace("Pin<&mut T>", "&mut T").replace("Pin<&T>", "&T").replace("PhantomData<T>", "T"), (bad, None)))
    return out


def c03():
    out = []
    un = "fn is_unpin<T: ?Sized + Unpin>() {}\n"
    for k, (it, pm, (good, bad)) in enumerate(rewritten()):
        ok = un + it + "pub fn f() { is_unpin::<%s>() }" % good
        out.append(rej("rewritten/%d" % k, un + it + "pub fn f() { is_unpin::<%s>() }" % bad, ok, externs=["aux"]) if bad else acc("rewritten/%d" % k, ok, externs=["aux"]))
    for b, good, bad in (("named", "Foo<u8, PhantomPinned>", "Foo<PhantomPinned, u8>"), ("tuple", "Foo<PhantomPinned, u8>", "Foo<u8, PhantomPinned>"), ("enum", "Foo<u8, u8>", "Foo<u8, PhantomPinned>"), ("unsized", "Foo<str>", "Foo<PhantomPinned>"), ("const", "Foo<u8, 0>", "Foo<PhantomPinned, 0>"), ("lt", "Foo<'static, u8>", "Foo<'static, PhantomPinned>"), ("nopin", "Foo<PhantomPinned, PhantomPinned>", None), ("unsized", "Foo<[u8]>", "Foo<dyn core::fmt::Debug>")):
        it = item([x for x in bases() if x[0] == b][0])
        ok = un + it + "pub fn f() { is_unpin::<%s>() }" % good
        if bad:
            out.append(rej("unpin-%s" % b, un + it + "pub fn f() { is_unpin::<%s>() }" % bad, ok))
        else:
            out.append(acc("unpin-%s" % b, ok))
    # types that are local, generic behind references, or only conditionally Unpin
    pre = un + "pub struct L(PhantomPinned); pub struct C<T>(T, PhantomPinned); impl<T: Copy> Unpin for C<T> {}\n"
    s = "#[pin_project] pub struct Foo<'a, T> { #[pin] a: C<T>, b: L, c: &'a u8 }\n"
    out.append(rej("cond", pre + s + "pub fn f<'a, T: Clone>() { is_unpin::<Foo<'a, T>>() }", pre + s + "pub fn f<'a, T: Copy>() { is_unpin::<Foo<'a, T>>() }"))
    return out


def c04():
    out = []
    un = "fn is_unpin<T: ?Sized + Unpin>() {}\n"
    for b in bases():
        g, me, w = impl_head(b)
        for args in ("!Unpin", "UnsafeUnpin", "!Unpin, project = P", "project_ref = R, UnsafeUnpin", "!Unpin, PinnedDrop", "PinnedDrop, UnsafeUnpin", "PinnedDrop, project = P, !Unpin, project_ref = R", "UnsafeUnpin, project = P, PinnedDrop", "project_replace = O, !Unpin", "UnsafeUnpin, project_replace = O", "project = P, project_ref = R, project_replace = O, !Unpin", "UnsafeUnpin, project = P, project_ref = R, project_replace = O"):
            if "project_replace" in args and "unsized" in b[0]:
                continue
            it = item(b, args)
            if "PinnedDrop" in args:
                it += pd_impl(b)
            if "Unsafe" in args:
                tw = un + it + "unsafe impl%s UnsafeUnpin for %s%s {}\npub fn f%s(_: &%s)%s { is_unpin::<%s>() }" % (g, me, w, g, me, w, me)
            else:
                tw = un + it + "pub fn f%s()%s { }" % (g, w)
            out.append(rej("%s-%s" % (b[0], args), un + it + "pub fn f%s()%s { is_unpin::<%s>() }" % (g, w, me), tw))
            gb = g.replace("T", "T: Unpin").replace("U>", "U: Unpin>").replace("T: Unpin: ?Sized", "T: ?Sized + Unpin")
            out.append(rej("%s-%s-bounds" % (b[0], args), un + it + "pub fn f%s()%s { is_unpin::<%s>() }" % (gb, w, me)))
    # region-conditional
    s = "#[pin_project(UnsafeUnpin)] pub struct Foo<'a, T>(#[pin] T, &'a u8); unsafe impl<T> UnsafeUnpin for Foo<'static, T> {}\n"
    out.append(rej("region", un + s + "pub fn f<'a, T>() { is_unpin::<Foo<'a, T>>() }", un + s + "pub fn f<T>() { is_unpin::<Foo<'static, T>>() }"))
    s = "#[pin_project(UnsafeUnpin)] pub struct Foo<'a, 'b, T>(#[pin] T, &'a u8, &'b u8); unsafe impl<'a, 'b: 'a, T: Copy> UnsafeUnpin for Foo<'a, 'b, T> {}\n"
    out.append(rej("region2", un + s + "pub fn f<'a, 'b, T: Copy>() { is_unpin::<Foo<'a, 'b, T>>() }", un + s + "pub fn f<'a, 'b: 'a, T: Copy>() { is_unpin::<Foo<'a, 'b, T>>() }"))
    s = "#[pin_project(UnsafeUnpin)] pub struct Foo<T>(#[pin] T); unsafe impl<T: 'static> UnsafeUnpin for Foo<T> {}\n"
    out.append(rej("static", un + s + "pub fn f<'a>() { is_unpin::<Foo<&'a u8>>() }", un + s + "pub fn f() { is_unpin::<Foo<&'static u8>>() }"))
    s = "#[pin_project(UnsafeUnpin)] pub struct Foo<'pin, T>(#[pin] T, &'pin u8); unsafe impl<T> UnsafeUnpin for Foo<'static, T> {}\n"
    out.append(rej("regionpin", un + s + "pub fn f<'a, T>() { is_unpin::<Foo<'a, T>>() }", un + s + "pub fn f<T>() { is_unpin::<Foo<'static, T>>() }"))
    return out


MYPP = "pub struct MyPP(PhantomPinned);\n"
CURSED = "pub struct MyPP(PhantomPinned); impl Unpin for MyPP where for<'cursed> str: Sized {}\n"


def c05():
    out = []
    modes = [("", ""), ("!Unpin", ""), ("UnsafeUnpin", ""), ("UnsafeUnpin", "impl"), ("PinnedDrop", "pd"), ("project = P, project_ref = R, project_replace = O", ""), ("!Unpin, PinnedDrop, project = P", "pd"), ("PinnedDrop, UnsafeUnpin", "pd"), ("project_replace = O, !Unpin", "")]
    for b in bases():
        g, me, w = impl_head(b)
        for args, kind in modes:
            if "project_replace" in args and "unsized" in b[0]:
                args = ", ".join(x for x in args.split(", ") if "project_replace" not in x)
            it = item(b, args)
            if kind == "impl":
                it += "unsafe impl%s UnsafeUnpin for %s%s {}\n" % (g, me, w)
            if kind == "pd":
                it += "#[pinned_drop] impl%s PinnedDrop for %s%s { fn drop(self: Pin<&mut Self>) {} }\n" % (g, me, w)
            forms = []
            def f(gen, ty, wh, pre="", tr="Unpin"):
                forms.append((pre, "impl%s %s for %s%s {}" % (gen, tr, ty, wh)))
            f(g, me, w)
            f(g, me, w, tr="::core::marker::Unpin")
            if "T" in g:
                f(g, me, impl_head(b, "T: Unpin")[2])
                f(g, me, impl_head(b, "T: Copy")[2])
                f(g, me, impl_head(b, "Foo%s: Sized" % b[2])[2])
            if b[2] == "<T, U>":
                f(g, me, impl_head(b, "T: Unpin, U: Unpin")[2])
                f(g, me, impl_head(b, "U: Unpin")[2])
                for inst in ("<u8, u8>", "<PhantomPinned, u8>", "<u8, PhantomPinned>", "<PhantomPinned, PhantomPinned>", "<MyPP, ()>", "<(), MyPP>", "<MyPP, MyPP>", "<Vec<MyPP>, [MyPP; 2]>", "<Box<u8>, &'static u8>"):
                    if b[0] == "where" and ("MyPP" in inst or "Phantom" in inst):
                        continue
                    f("", "Foo" + inst, "", MYPP if "MyPP" in inst else "")
                    if "MyPP" in inst:
                        f("", "Foo" + inst, "", CURSED)
                if b[0] != "where":
                    f("<X>", "Foo<PhantomPinned, X>", "")
                    f("<X>", "Foo<X, PhantomPinned>", "")
                    f("<X>", "Foo<MyPP, X>", "", MYPP)
                    f("<X>", "Foo<X, MyPP>", "", CURSED)
                    f("<X>", "Foo<X, X>", "")
                    f("<X>", "Foo<Vec<X>, X>", " where X: Send")
                f(g, "Al<T, U>", w, pre="type Al<T, U> = Foo<T, U>;\n")
            if b[2] == "<'a, T>":
                f("<T>", "Foo<'static, T>", "")
                f("<'a>", "Foo<'a, MyPP>", "", MYPP)
                f("", "Foo<'static, PhantomPinned>", "")
            if b[2] == "<T, N>":
                f("<T>", "Foo<T, 0>", "")
                f("<const N: usize>", "Foo<PhantomPinned, N>", "")
                f("<const N: usize>", "Foo<MyPP, N>", "", CURSED)
            if b[2] == "<T>":
                f("", "Foo<str>", "")
                f("", "Foo<PhantomPinned>", "")
                f("<X>", "Foo<[X]>", "")
                f("", "Foo<dyn core::fmt::Debug>", "")
            forms.append(("macro_rules! m { ($($t:tt)*) => { $($t)* } }\n", "m! { impl%s Unpin for %s%s {} }" % (g, me, w)))
            for k, (pre, im) in enumerate(forms):
                tw = pre + it if k < 1 or pre else None
                out.append(rej("%s/%s%s/%s" % (b[0], args.split(",")[0] or "default", "+" + kind if kind else "", im.replace(" ", "")), pre + it + im, tw))
            # negative impls (unstable): they must not help either
            if b[0] in ("named", "enum", "concrete") and kind == "":
                neg = "pub struct MyPP; impl !Unpin for MyPP {}\n"
                ty = "Foo<MyPP, MyPP>" if b[2] else "Foo"
                out.append(rej("%s/%s/negative" % (b[0], args or "default"), neg + it + "impl Unpin for %s {}" % ty, neg + it, attrs="#![feature(negative_impls)]"))
            # UnsafeUnpin
            if kind in ("", "pd") and "UnsafeUnpin" not in args:
                for im in ["unsafe impl%s UnsafeUnpin for %s%s {}" % (g, me, w), "unsafe impl%s ::pin_project::UnsafeUnpin for %s%s {}" % (g, me, w)] + (["unsafe impl UnsafeUnpin for Foo<u8, u8> {}", "unsafe impl<X> UnsafeUnpin for Foo<PhantomPinned, X> {}"] if b[2] == "<T, U>" and b[0] != "where" else []) + (["unsafe impl%s UnsafeUnpin for %s%s {}" % (g, me, impl_head(b, "T: Unpin")[2])] if "T" in g else []):
                    out.append(rej("%s/%s/uu/%s" % (b[0], args.split(",")[0] or "default", im.replace(" ", "")), it + im))
            if args == "UnsafeUnpin" and kind == "":
                out.append(rej("%s/uu-safe" % b[0], it + "impl%s UnsafeUnpin for %s%s {}" % (g, me, w), it + "unsafe impl%s UnsafeUnpin for %s%s {}" % (g, me, w)))
                out.append(rej("%s/uu-twice" % b[0], it + 2 * ("unsafe impl%s UnsafeUnpin for %s%s {}\n" % (g, me, w))))
    return out


def pd_impl(b, gen=None, ty=None, w=None, body="", method="fn drop(self: Pin<&mut Self>) {}"):
    g, me, wh = impl_head(b)
    return "#[pinned_drop] impl%s PinnedDrop for %s%s { %s }\n" % (g if gen is None else gen, ty or me, wh if w is None else w, method)


def c06():
    out = []
    for b in bases():
        g, me, w = impl_head(b)
        for args in ("", "!Unpin", "UnsafeUnpin", "project = P, project_ref = R", "project = P", "project_ref = R", "project = P, !Unpin", "UnsafeUnpin, project_ref = R", "project = P, project_replace = O", "project = P, project_ref = R, project_replace = O", "!Unpin, project_replace = O", "project_replace = O, UnsafeUnpin, project = P"):
            if "project_replace" in args and "unsized" in b[0]:
                continue
            it = item(b, args)
            for tr in ("Drop", "::core::ops::Drop"):
                out.append(rej("%s/%s/%s" % (b[0], args or "default", tr), it + "impl%s %s for %s%s { fn drop(&mut self) {} }" % (g, tr, me, w), it))
            out.append(rej("%s/%s/pd-no-arg" % (b[0], args or "default"), it + pd_impl(b)))
        if "unsized" not in b[0]:
            it = item(b, "project_replace = O")
            out.append(rej("%s/replace/Drop" % b[0], it + "impl%s Drop for %s%s { fn drop(&mut self) {} }" % (g, me, w), it))
            out.append(rej("%s/replace/pd-no-arg" % b[0], it + pd_impl(b)))
        for args in ("PinnedDrop", "PinnedDrop, !Unpin", "UnsafeUnpin, PinnedDrop", "PinnedDrop, project = P", "project_ref = R, PinnedDrop", "project = P, project_ref = R, PinnedDrop", "!Unpin, project = P, PinnedDrop"):
            it = item(b, args)
            ok = it + pd_impl(b)
            out.append(rej("%s/%s/no-impl" % (b[0], args), it, ok))
            out.append(rej("%s/%s/Drop-instead" % (b[0], args), it + "impl%s Drop for %s%s { fn drop(&mut self) {} }" % (g, me, w)))
            out.append(rej("%s/%s/Drop-too" % (b[0], args), ok + "impl%s Drop for %s%s { fn drop(&mut self) {} }" % (g, me, w)))
            out.append(rej("%s/%s/twice" % (b[0], args), ok + pd_impl(b)))
        it = item(b, "PinnedDrop")
        if b[2] == "<T, U>":
            for gen, ty in (("", "Foo<u8, u8>"), ("<T>", "Foo<T, u8>"), ("<X>", "Foo<X, X>")):
                out.append(rej("%s/partial/%s" % (b[0], ty), it + pd_impl(b, gen, ty, "" if "T" not in gen or b[0] != "where" else " where T: Clone")))
            out.append(rej("%s/cond" % b[0], it + pd_impl(b, w=impl_head(b, "U: Send")[2])))
            out.append(rej("%s/cond-unpin" % b[0], it + pd_impl(b, w=impl_head(b, "T: Unpin")[2])))
            out.append(rej("%s/both-halves" % b[0], it + pd_impl(b, "<T>", "Foo<T, u8>", " where T: Clone") + pd_impl(b, "<T>", "Foo<T, u16>", " where T: Clone")))
        if b[2] == "<'a, T>":
            out.append(rej("lt/partial", it + pd_impl(b, "<T>", "Foo<'static, T>")))
            out.append(rej("lt/cond", it + pd_impl(b, "<'a, T: 'static>")))
        if b[2] == "<T, N>":
            out.append(rej("const/partial", it + pd_impl(b, "<T>", "Foo<T, 0>")))
        if "unsized" in b[0]:
            out.append(rej("unsized/partial", it + pd_impl(b, "<T>")))
        # the hidden trait implemented by hand, without the argument
        raw = "impl%s ::pin_project::__private::PinnedDrop for %s%s { unsafe fn drop(self: Pin<&mut Self>) {} }" % (g, me, w)
        out.append(rej("%s/hidden-trait" % b[0], item(b) + raw))
    # types that are always unsized
    for k, s in (("slice", "struct Foo { #[pin] f: String, u: [u8] }"), ("str", "struct Foo<T> { a: T, #[pin] u: str }"), ("dyn", "struct Foo(u8, dyn core::fmt::Debug);")):
        g = "<T>" if "<T>" in s else ""
        out.append(rej("always-unsized/%s" % k, "#[pin_project] %s\nimpl%s Drop for Foo%s { fn drop(&mut self) {} }" % (s, g, g), "#[pin_project] %s\n" % s))
        out.append(rej("always-unsized/%s/pd" % k, "#[pin_project(PinnedDrop)] %s\n#[pinned_drop] impl%s PinnedDrop for Foo%s { fn drop(self: Pin<&mut Self>) {} }\nimpl%s Drop for Foo%s { fn drop(&mut self) {} }" % (s, g, g, g, g)))
    return out


# ---------------------------------------------------------------- C08
def c08(run, ws):
    out = []
    s = "#[pin_project(PinnedDrop)] pub struct Foo<T> { #[pin] a: T, b: u8 }\n"
    impl = "#[pinned_drop] impl<T> PinnedDrop for Foo<T> { %s }\n"
    good = s + impl % "fn drop(self: Pin<&mut Self>) {}"
    # forms of the impl
    ok = ["fn drop(self: Pin<&mut Self>) {}", "fn drop(mut self: Pin<&mut Self>) { let _ = self.as_mut(); }", "fn drop(self: Pin<&mut Self>) -> () {}", "fn drop(self: ::core::pin::Pin<&mut Self>) {}", "fn drop(self: std::pin::Pin<&mut Self>) {}", "#[inline] fn drop(self: Pin<&mut Self>) {}", "/// doc\n fn drop(self: Pin<&mut Self>) {}", "fn drop(mut self: core::pin::Pin<&mut Self>) -> () { let _ = self.as_mut(); }", "#[allow(unused)] fn drop(self: Pin<&mut Self,>,) {}", "fn drop(self: Pin<&mut Self>) { return; }"]
    for i, m in enumerate(ok):
        out.append(acc("form-ok/%d" % i, s + impl % m, why="(a documented form of #[pinned_drop])"))
    bad = ["", "fn drop(&mut self) {}", "fn drop(self) {}", "fn drop(&self) {}", "fn drop(mut self) {}", "fn drop(self: &mut Self) {}", "fn drop(self: Pin<&Self>) {}", "fn drop(self: Pin<&mut Foo<T>>) {}", "fn drop(self: Pin<Box<Self>>) {}", "fn drop(self: Pin<&mut T>) {}", "fn drop(self: Pin<&mut ()>) {}", "fn drop(self: Pin<&mut &mut Self>) {}", "fn drop(self: Pin<&'static mut Self>) {}", "fn drop(self: Box<Self>) {}", "fn drop(self: Pin<&mut Self, u8>) {}", "fn drop(self: Pin) {}", "fn drop() {}", "fn drop(_: Pin<&mut Self>) {}", "fn drop(this: Pin<&mut Self>) {}",
           "fn drop(self: Pin<&mut Self>, _: ()) {}", "fn drop(self: Pin<&mut Self>, x: &u8) {}", "fn drop(self: Pin<&mut Self>) -> u8 { 0 }", "fn drop(self: Pin<&mut Self>) -> Self { loop {} }", "fn drop(self: Pin<&mut Self>) -> ! { loop {} }", "fn drop(self: Pin<&mut Self>) -> ((),) { ((),) }", "fn drop(self: Pin<&mut Self>) -> Option<()> { None }", "unsafe fn drop(self: Pin<&mut Self>) {}", "async fn drop(self: Pin<&mut Self>) {}", "const fn drop(self: Pin<&mut Self>) {}", "extern \"C\" fn drop(self: Pin<&mut Self>) {}", "fn drop<X>(self: Pin<&mut Self>) {}", "fn drop<'x>(self: Pin<&'x mut Self>, _: &'x ()) {}",
           "fn pinned_drop(self: Pin<&mut Self>) {}", "fn Drop(self: Pin<&mut Self>) {}", "fn drop2(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} fn other(&self) {}", "fn other(&self) {} fn drop(self: Pin<&mut Self>) {}", "const A: u8 = 0; fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} const A: u8 = 0;", "type A = u8; fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} type A = u8;", "const A: u8 = 0;", "type A = u8;", "mac!{} fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>);", "#[cfg(any())] fn drop(self: Pin<&mut Self>) {}", "pub fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Other<&mut Self>) {}", "fn drop(self: evil::Pin<&mut Self>) {}", "fn drop(self: Pin<*mut Self>) {}", "fn drop(self: Pin<(&mut Self)>, ) -> (u8) {0}"]
    pre = "macro_rules! mac { () => {} } pub type Other<T> = Pin<T>; pub mod evil { pub type Pin<T> = T; }\n"
    for i, m in enumerate(bad):
        out.append(rej("form/%s" % (m.replace(" ", "") or "empty"), pre + s + impl % m, pre + good if i == 0 else None, why="(only drop(self: Pin<&mut Self>) is allowed)"))
    full = lambda h, m="fn drop(self: Pin<&mut Self>) {}": s + h + " { %s }" % m
    for h in ["#[pinned_drop] unsafe impl<T> PinnedDrop for Foo<T>", "#[pinned_drop] impl<T> !PinnedDrop for Foo<T>", "#[pinned_drop] impl<T> Drop for Foo<T>", "#[pinned_drop] impl<T> Foo<T>", "#[pinned_drop] impl<T> PinnedDrop<u8> for Foo<T>", "#[pinned_drop] impl<T> ::pin_project::PinnedDrop for Foo<T>", "#[pinned_drop] impl<T> Other for Foo<T>", "#[pinned_drop] impl<T> self::PinnedDrop for Foo<T>", "#[pinned_drop(foo)] impl<T> PinnedDrop for Foo<T>", "#[pinned_drop(self)] impl<T> PinnedDrop for Foo<T>", "#[pinned_drop = \"x\"] impl<T> PinnedDrop for Foo<T>", "#[pinned_drop(,)] impl<T> PinnedDrop for Foo<T>", "#[pinned_drop] #[pinned_drop] impl<T> PinnedDrop for Foo<T>", "#[pinned_drop] impl<T> PinnedDrop for &mut Foo<T>", "#[pinned_drop] impl<T> PinnedDrop for (Foo<T>,)", "#[pinned_drop] impl<T> PinnedDrop for [Foo<T>]", "#[pinned_drop] impl<T> PinnedDrop for Box<Foo<T>>", "#[pinned_drop] impl PinnedDrop for ()", "#[pinned_drop] impl<T> PinnedDrop for T", "#[pinned_drop] const impl<T> PinnedDrop for Foo<T>", "impl<T> PinnedDrop for Foo<T>", "#[pinned_drop] impl<T> PinnedDrop for dyn Fn(T)"]:
        out.append(rej("head/%s" % h.replace(" ", ""), full(h), why="(not an impl of PinnedDrop as documented)"))
    for it in ["#[pinned_drop] fn f(_: Pin<&mut ()>) {}", "#[pinned_drop] struct X(u8);", "#[pinned_drop] trait PinnedDrop { fn drop(self: Pin<&mut Self>) {} }", "#[pinned_drop] mod x {}", "#[pinned_drop] enum E { A(u8) }", "#[pinned_drop] const X: u8 = 0;", "#[pinned_drop] type X = u8;", "#[pinned_drop] use core::fmt;"]:
        out.append(rej("item/%s" % it.replace(" ", ""), it))
    out.append(acc("head-ok/parens", s + "#[pinned_drop()] impl<T> PinnedDrop for Foo<T> { fn drop(self: Pin<&mut Self>) {} }"))
    out.append(acc("head-ok/path", s + "#[pinned_drop] impl<T> PinnedDrop for self::Foo<T> { fn drop(self: Pin<&mut Self>) {} }"))
    out.append(acc("head-ok/attr", s + "/// d\n#[pinned_drop] #[allow(dead_code)] impl<T> PinnedDrop for Foo<T> where { fn drop(self: Pin<&mut Self>) {} }"))
    out.append(acc("head-ok/qualified", s + "#[pin_project::pinned_drop] impl<T> PinnedDrop for crate::Foo<T> { fn drop(self: std::pin::Pin<&mut Self>) {} }"))
    # calls from outside
    for i, call in enumerate(["x.drop();", "PinnedDrop::drop(x);", "::pin_project::__private::PinnedDrop::drop(x);", "<Foo<u8> as ::pin_project::__private::PinnedDrop>::drop(x);", "Foo::<u8>::drop(x);", "Drop::drop(x.get_mut());", "x.get_mut().drop();", "<Foo<u8>>::drop(x.get_mut());", "{ use ::pin_project::__private::PinnedDrop as _; x.drop(); }", "{ use ::pin_project::__private::PinnedDrop; PinnedDrop::drop(x); }", "{ use ::pin_project::__private::*; PinnedDrop::drop(x); }", "{ let f = ::pin_project::__private::PinnedDrop::drop; f(x); }", "{ let f: fn(Pin<&mut Foo<u8>>) = ::pin_project::__private::PinnedDrop::drop; f(x); }", "Some(x).map(::pin_project::__private::PinnedDrop::drop);", "x.drop_pinned();", "x.__drop_inner();", "Foo::<u8>::__drop_inner(x);", "__drop_inner(x);", "x.pinned_drop();"]):
        out.append(rej("call/%s" % call.replace(" ", ""), good + "pub fn f(x: Pin<&mut Foo<u8>>) { %s }" % call, good + "pub fn f(x: Pin<&mut Foo<u8>>) { let _ = x; }" if i == 0 else None, why="(safe code must not call the pinned destructor)"))
    # calls from the body, by every name the expansion contains
    names = set()
    for d, m, _ in ws:
        for f in m.fns:
            if not f["name"].startswith("q_") and f["name"] != "sink":
                names.add(f["name"])
        for i in m.items:
            if i["name"] and re.fullmatch(r"\w+", i["name"]) and i["kind"] in ("Fn", "Trait"):
                names.add(i["name"])
    names -= {"sink", "project", "project_ref", "Tr2"}
    run.rep.count("generated names tried as calls", len(names))
    for n in sorted(names):
        for call in ("%s(self);", "%s(self.as_mut());", "%s::<T>(self);", "Self::%s(self);", "self.%s();", "{ fn g<T>(x: Pin<&mut Foo<T>>) { %s(x) } g(self); }", "super::%s(self);", "self::%s(self);", "unsafe_free(|| %s(self));", "{ let f = %s; f(self); }", "{ let f: fn(Pin<&mut Foo<T>>) = %s; f(self) }", "{ use self::%s as q; q(self); }"):
            c = call % n
            if n == "drop" and not re.search(r"[.:]drop", c):
                continue  # core's drop
            for k, (shape, head) in enumerate(SELF_SHAPES):
                for j, around in enumerate(AROUND):
                    if (k and j) or (call != "%s(self);" and (k or j)):
                        continue
                    if k or j:
                        out.append(rej("recursion-in/%d/%d/%s" % (k, j, c.replace(" ", "")), shape + head % ("fn drop(mut self: Pin<&mut Self>) { %s }" % (around % c)), shape + head % ("fn drop(mut self: Pin<&mut Self>) { %s }" % (around % "let _ = self.as_mut();")), why="(the destructor must not be able to call itself)"))
            out.append(rej("recursion/%s" % c.replace(" ", ""), "fn unsafe_free<R>(f: impl FnOnce() -> R) -> R { f() }\n" + s + impl % ("fn drop(mut self: Pin<&mut Self>) { %s }" % c), why="(the destructor must not be able to call itself)"))
    return out


SELF_SHAPES = [
    ("#[pin_project(PinnedDrop)] struct Foo<T> { #[pin] a: T }\n", "#[pinned_drop] impl<T> PinnedDrop for Foo<T> { %s }\n"),
    ("#[pin_project(PinnedDrop)] struct Foo { #[pin] a: u8 }\n", "#[pinned_drop] impl PinnedDrop for Foo { %s }\n"),
    ("#[pin_project(PinnedDrop)] struct Foo(#[pin] u8, u16);\n", "#[pinned_drop] impl PinnedDrop for Foo { %s }\n"),
    ("#[pin_project(PinnedDrop, project = P)] enum Foo<'a, T: Clone> where T: 'a { A(#[pin] &'a T), B }\n", "#[pinned_drop] impl<'a, T: Clone> PinnedDrop for Foo<'a, T> where T: 'a { %s }\n"),
    ("#[pin_project(PinnedDrop)] struct Foo<T: ?Sized, const N: usize> { a: [u8; N], #[pin] b: T }\n", "#[pinned_drop] impl<T: ?Sized, const N: usize> PinnedDrop for Foo<T, N> { %s }\n"),
    ("mod m { #[::pin_project::pin_project(PinnedDrop)] pub struct Foo { #[pin] pub a: u8 } }\n", "#[pinned_drop] impl PinnedDrop for m::Foo { %s }\n"),
]
AROUND = ["%s", "fn g() {} g(); %s", "const K: u8 = 1; let _ = K; %s", "use ::core::mem; let _ = mem::size_of::<u8>(); %s", "let x = 1u8; let _ = x; %s", "{ %s }", "if true { %s }", "struct X; let _ = X; { %s }", "macro_rules! q { () => {} } q!(); %s", "loop { %s break; }", "match 1 { 1 => { %s } _ => {} }", "unsafe { ::core::hint::black_box(()); %s }", "let x; x = 1u8; let _ = x; let f = |y: u8| y; f(1); { { %s } }", "#[allow(unused)] let z = 1; %s", "return; #[allow(unreachable_code)] { %s }", "; %s", "impl Clone for L { fn clone(&self) -> L { L } } struct L; let _ = L.clone(); %s", "panic!(\"{}\", { %s 1 });", "let _: () = { %s };", "assert!({ %s true });"]


# ---------------------------------------------------------------- C12
def c12():
    out = []
    bodies = [("named", "struct Foo { #[pin] a: u32, b: u8 }"), ("tuple", "struct Foo(#[pin] u32, u8);"), ("bytes", "struct Foo { #[pin] a: u8, b: u8 }"), ("generic", "pub struct Foo<T, U> { #[pin] a: T, b: U }"), ("nopin", "struct Foo { a: u32, b: u8 }"), ("unit1", "struct Foo { a: () }"), ("phantom", "struct Foo<T>(#[pin] PhantomData<T>, u8);"), ("one", "struct Foo { #[pin] a: u16 }")]
    reprs = ["packed", "packed(1)", "packed(2)", "C, packed", "packed, C", "C, packed(2)", "packed(1), C", "Rust, packed", "packed(4),", "C,packed(1),", "r#packed", "C, r#packed", "r#packed(1)"]
    for name, it in bodies:
        for r in reprs:
            for pos in ("after", "before", "cfg_attr", "split", "cfg_before", "doc"):
                if pos not in ("after", "before") and r not in ("packed", "C, packed(2)", "packed(1), C"):
                    continue
                for args in ("", "(project = P, project_replace = O)", "(!Unpin)", "(UnsafeUnpin)"):
                    if args and not (r in ("packed", "packed(2)") and pos in ("after", "before")):
                        continue
                    pp = "#[pin_project%s]" % args
                    at = {"after": "%s #[repr(%s)]" % (pp, r), "before": "#[repr(%s)] %s" % (r, pp), "cfg_attr": "%s #[cfg_attr(all(), repr(%s))]" % (pp, r), "cfg_before": "#[cfg_attr(not(any()), repr(%s))] %s" % (r, pp), "split": "%s #[repr(C)] #[repr(%s)]" % (pp, r), "doc": "%s #[doc = \"x\"] #[allow(dead_code)] #[repr(%s)] #[must_use]" % (pp, r)}[pos]
                    tw = at.replace("(" + r + ")", "(C)") if pos != "split" else "%s #[repr(C)]" % pp
                    out.append(rej("%s/%s/%s%s" % (name, r.replace(" ", ""), pos, args.replace(" ", "")), at + " " + it, tw + " " + it if r == "packed" else None, why="(packed)"))
    for name, it in bodies[:3]:
        for src in ["#[pin_project] #[aux_macro::with(repr(packed))] %s", "#[aux_macro::with(repr(packed))] #[pin_project] %s", "#[aux_macro::with2(repr(packed))] #[pin_project] %s", "#[aux_macro::repr_packed] #[pin_project] %s", "aux_macro::wrap_packed! { #[pin_project] %s }", "#[aux_macro::after(repr(packed))] #[pin_project] %s", "#[aux_macro::with(repr(C, packed(1)))] #[pin_project] %s", "macro_rules! m { ($($t:tt)*) => { #[repr(packed)] $($t)* } }\nm! { #[pin_project] %s }", "macro_rules! m { ($($t:tt)*) => { #[pin_project] #[repr(packed)] $($t)* } }\nm! { %s }", "macro_rules! m { ($m:meta, $i:item) => { #[pin_project] #[$m] $i } }\nm! { repr(packed), %s }", "macro_rules! m { ($p:ident, $i:item) => { #[pin_project] #[repr($p)] $i } }\nm! { packed, %s }", "macro_rules! m { ($i:item) => { #[pin_project] $i } }\nm! { #[repr(packed)] %s }", "aux_macro::echo! { #[pin_project] #[repr(packed(1))] %s }"]:
            out.append(rej("smuggled/%s/%s" % (name, src.replace(" ", "")[:60]), src % it, (src.replace("repr_packed", "identity").replace("wrap_packed", "echo").replace("packed(1)", "align(2)").replace("(packed)", "(C)").replace(" packed,", " C,")) % it if name != "tuple" or True else None, externs=["aux"], why="(packed through another macro)"))
    # smuggled behind pin_project's back: rejected whenever a field could be misaligned
    for name, it in [bodies[0], bodies[1], bodies[3], ("one", "struct Foo { #[pin] a: u16 }"), ("nopin", "struct Foo { a: u32, b: u8 }"), ("mid", "struct Foo { #[pin] a: u8, b: u8, c: u64 }")]:
        for src in ["#[pin_project] #[aux_macro::repr_packed] %s", "#[pin_project] #[aux_macro::with2(repr(packed))] %s", "#[pin_project(project = P)] #[aux_macro::repr_packed] %s", "#[pin_project(project_replace)] #[aux_macro::repr_packed] %s", "#[pin_project(!Unpin)] #[aux_macro::repr_packed] %s", "#[pin_project(UnsafeUnpin)] #[aux_macro::repr_packed] %s"]:
            out.append(rej("behind/%s/%s" % (name, src.replace(" ", "")[:60]), src % it, src.replace("repr_packed", "identity").replace("(repr(packed))", "(repr(C))") % it, externs=["aux"], why="(packed added after expansion)"))
    pd = "#[pinned_drop] impl PinnedDrop for Foo { fn drop(self: Pin<&mut Self>) {} }"
    for r in ("packed", "C, packed(2)"):
        out.append(rej("pinned_drop/%s" % r, "#[pin_project(PinnedDrop)] #[repr(%s)] struct Foo { #[pin] a: u8, b: u8 }\n%s" % (r, pd), "#[pin_project(PinnedDrop)] #[repr(C)] struct Foo { #[pin] a: u8, b: u8 }\n" + pd))
    out.append(rej("pinned_drop/behind", "#[pin_project(PinnedDrop)] #[aux_macro::repr_packed] struct Foo { #[pin] a: u32, b: u8 }\n%s" % pd, externs=["aux"]))
    for k, a in enumerate(("#[pin_project] #[r#repr(packed)]", "#[r#repr(packed)] #[pin_project]", "#[pin_project] #[r#repr(C, r#packed)]", "#[pin_project] #[cfg_attr(all(), r#repr(packed))]", "#[pin_project] #[r#repr(C)] #[repr(packed)]", "#[pin_project] #[repr(C)] #[r#repr(packed)]")):
        for name, it in bodies[:3]:
            out.append(rej("raw/%d/%s" % (k, name), a + it, a.replace(", r#packed", "").replace("packed", "C") + it, why="(packed)"))
    out.append(rej("name-value", "#[pin_project] #[repr(packed = \"\")] struct Foo { a: u8 }"))
    # among many other attributes
    for n in (3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 64):
        for x in ("#[allow(unused)] ", "/// d\n", "#[repr(C)] "):
            for k, at in enumerate(("#[pin_project] %s#[repr(packed)] struct Foo { #[pin] a: u8, b: u8 }", "#[pin_project] #[repr(packed)] %sstruct Foo { #[pin] a: u8, b: u8 }", "#[repr(packed)] %s#[pin_project] struct Foo { #[pin] a: u8, b: u8 }", "#[pin_project] #[repr(%spacked)] struct Foo { #[pin] a: u8, b: u8 }")):
                y = x * n if k < 3 else "C, " * n
                if k == 3 and x != "#[repr(C)] ":
                    continue
                out.append(rej("among/%d/%d/%s" % (n, k, x[:6]), at % y, at.replace("repr(packed)", "repr(C)").replace("%spacked", "%sC") % y, why="(packed)"))
        out.append(rej("fields/%d" % n, "#[pin_project] #[repr(packed)] struct Foo { %s }" % ", ".join("#[pin] f%d: u8" % i for i in range(n)), "#[pin_project] #[repr(C)] struct Foo { %s }" % ", ".join("#[pin] f%d: u8" % i for i in range(n)), why="(packed)"))
        out.append(rej("generics/%d" % n, "#[pin_project] #[repr(packed)] struct Foo<%s> { #[pin] a: u8, b: PhantomData<(%s)> }" % (", ".join("T%d" % i for i in range(n)), ", ".join("T%d" % i for i in range(n))), why="(packed)"))
    # other representations
    for r in ("C", "align(2)", "align(16)", "C, align(8)", "Rust", "transparent"):
        it = "struct Foo { #[pin] a: u32 }" if r == "transparent" else "struct Foo { #[pin] a: u32, b: u8 }"
        out.append(acc("ok/" + r, "#[pin_project] #[repr(%s)] %s" % (r, it), why="(a representation that is not packed)"))
        out.append(acc("ok-before/" + r, "#[repr(%s)] #[pin_project] %s" % (r, it), why="(a representation that is not packed)"))
    for r in ("u8", "i64", "C", "C, u8", "usize"):
        out.append(acc("ok-enum/" + r, "#[pin_project(project = P)] #[repr(%s)] enum Foo { A(#[pin] u32, u8), B }" % r))
    out.append(acc("ok/cfg-off", "#[pin_project] #[cfg_attr(any(), repr(packed))] struct Foo { #[pin] a: u32, b: u8 }"))
    out.append(acc("ok/doc-says-packed", "#[pin_project] #[doc = \"repr(packed)\"] /// #[repr(packed)]\n struct Foo { #[pin] packed: u32, repr: u8 }"))
    out.append(acc("ok/other-type-packed", "#[repr(packed)] pub struct Pk(u32); #[pin_project] struct Foo { #[pin] a: Pk, b: u8 }"))
    for r in ("packed", "packed(1)", "C, packed"):
        out.append(rej("enum/" + r, "#[pin_project] #[repr(%s)] enum Foo { A(#[pin] u32) }" % r))
    return out


def repr_kept(d, m, rep):
    a, b = m.adt(d.name), m.twin and m.twin.adt(d.name)
    if a and b:
        rep.count("representations compared")
        if a["repr"] != b["repr"]:
            rep.bad("C12/kept", "the representation changes from %s to %s: `%s`" % (b["repr"], a["repr"], describe(d)))


# ---------------------------------------------------------------- C13
def c13():
    out = []
    m = "pub mod m { use pin_project::pin_project; use std::pin::Pin; #[pin_project(%s)] %s struct Foo<T> { #[pin] pub a: T, b: u8, pub(super) c: u8 } %s }\n"
    A = "project = P, project_ref = R, project_replace = O"
    for n in "PRO":
        out.append(rej("reexport/%s" % n, m % (A, "pub", "") + "pub use m::%s;" % n, m % (A, "pub", "") + "pub(crate) use m::%s; pub use m::Foo;" % n))
        out.append(rej("private/%s" % n, m % (A, "", "") + "use m::%s;" % n))
        out.append(rej("super/%s" % n, "pub mod z { %s }\nuse z::m::%s;" % (m % (A, "pub(super)", ""), n), "pub mod z { %s use m::%s; }" % (m % (A, "pub(super)", ""), n)))
    for n in ("__FooProjection", "__FooProjectionRef", "__FooProjectionOwned", "__Foo", "FooMustNotImplDrop", "FooProjection", "FooProj", "FooProjRef", "FooProjOwn"):
        out.append(rej("unnamed/%s" % n, m % ("project_replace", "pub", "") + "pub(crate) use m::%s;" % n))
        out.append(rej("unnamed-inside/%s" % n, m % ("project_replace", "pub", "type X = self::%s<'static, u8>;" % n)))
        out.append(rej("unnamed-inside0/%s" % n, m % ("project_replace", "pub", "use self::%s as _;" % n)))
    for call in ("project", "project_ref"):
        ref = "&mut" if call == "project" else "&"
        out.append(rej("method-private/%s" % call, "pub mod z { %s }\npub fn f(x: Pin<%s z::m::Foo<u8>>) { let _ = x.%s(); }" % (m % (A, "pub(super)", ""), ref, call)))
        out.append(acc("method/%s" % call, "%s\npub fn f(x: Pin<%s m::Foo<u8>>) { let p = x.%s(); let _ = (p.a, p.c); }" % (m % (A, "pub", ""), ref, call)))
        out.append(rej("field-private/%s" % call, "%s\npub fn f(x: Pin<%s m::Foo<u8>>) { let p = x.%s(); let _ = p.b; }" % (m % (A, "pub", ""), ref, call)))
        out.append(rej("field-restricted/%s" % call, "pub mod z { %s }\npub fn f(x: Pin<%s z::m::Foo<u8>>) { let p = x.%s(); let _ = p.c; }" % (m % (A, "pub", ""), ref, call)))
    return out


# ---------------------------------------------------------------- C14
def c14():
    out = []
    S = "#[pin_project%s] struct Foo<T>(#[pin] T);"
    okargs = ["", "()", "(project = A)", "(project_ref = A)", "(project_replace)", "(project_replace = A)", "(!Unpin)", "(UnsafeUnpin)", "(project = A, project_ref = B, project_replace = C)", "(project = A,)", "(project_replace, !Unpin)", "(UnsafeUnpin, project_replace, project = A)", "(!Unpin, project_ref = A,)", "(project = r#A)", "(project = __A)", "(project=A,project_ref=B)", "(project = Foo2)", "(project = r#type)"]
    for a in okargs:
        out.append(acc("args-ok/%s" % a.replace(" ", ""), S % a))
    bad = ["(Replace)", "(UnsafeUnpin,,)", "(,)", "(Foo)", "(,UnsafeUnpin)", "(PinnedDrop PinnedDrop)", "(UnsafeUnpin UnsafeUnpin)", "(project = A project_ref = B)", "(UnsafeUnpin, UnsafeUnpin)", "(!Unpin, !Unpin)", "(!Unpin, project = A, !Unpin)", "(UnsafeUnpin, project = A, project_ref = B, UnsafeUnpin)", "(project = A, project = B)", "(project = A, project = A)", "(project = A, project_ref = B, project = C)", "(project_ref = A, project_ref = B)", "(project_ref = A, project_ref = A)", "(project_replace = A, project_replace = B)", "(project_replace, project_replace)", "(project_replace, project_replace = B)", "(project_replace = A, project_replace)", "(UnsafeUnpin, !Unpin)", "(!Unpin, UnsafeUnpin)", "(!Unpin, project = A, UnsafeUnpin)", "(UnsafeUnpin, project_replace, !Unpin)", "(!)", "(Unpin)", "(! PinnedDrop)", "(!UnsafeUnpin)", "(!Unpin2)", "(!!Unpin)", "(unpin)", "(!unpin)", "(not_unpin)", "(project)", "(project = )", "(project = !)", "(project = 1)", "(project = \"A\")", "(project = A::B)", "(project = A<T>)", "(project(A))", "(project: A)", "(project == A)", "(project A)", "(project_ref)", "(project_ref = )", "(project_ref = !)", "(project_ref(A))", "(project_replace = )", "(project_replace = !)", "(project_replace(A))", "(project = struct)", "(project = Self)", "(project = _)", "(project = 'a)", "(project = fn)", "(project_owned = A)", "(project_mut = A)", "(Project = A)", "(PROJECT = A)", "(proj = A)", "(project_ref_ = A)", "(project = Foo)", "(project_ref = Foo)", "(project_replace = Foo)", "(project = A, project_ref = A)", "(project_ref = A, project = A)", "(project = A, project_replace = A)", "(project_replace = A, project = A)", "(project_ref = A, project_replace = A)", "(project_replace = A, project_ref = A)", "(UnsafeUnpin = true)", "(!Unpin = true)", "(!Unpin())", "(UnsafeUnpin())", "(PinnedDrop = true)", "(unsafe_unpin)", "(pinned_drop)", "(Drop)", "(project_replace; UnsafeUnpin)", "(project = A; project_ref = B)", "(UnsafeUnpin.)", "(\"UnsafeUnpin\")", "(5)", "(=)", "(#)", "((UnsafeUnpin))", "(@)", "(project = A, ,)", "(project = A,, project_ref = B)", " = \"x\"", " = UnsafeUnpin", "(UnsafeUnpin UnsafeUnpin,)", "(project = A B)", "(project_replace A)", "(all)", "(project = Foo, project_ref = Foo)", "(UnsafeUnpin, Unpin)"]
    for k, a in enumerate(bad):
        out.append(rej("args/%s" % a.replace(" ", ""), S % a, S % "" if k == 0 else None, why="(misused arguments)"))
    pd = "\n#[pinned_drop] impl<T> PinnedDrop for Foo<T> { fn drop(self: Pin<&mut Self>) {} }"
    for a in ("(PinnedDrop)", "(PinnedDrop, project = A)", "(!Unpin, PinnedDrop)", "(UnsafeUnpin, PinnedDrop,)"):
        out.append(acc("pd-ok/%s" % a.replace(" ", ""), S % a + pd))
    for a in ("(PinnedDrop, PinnedDrop)", "(PinnedDrop, project_replace)", "(project_replace, PinnedDrop)", "(project_replace = A, PinnedDrop)", "(PinnedDrop, project_replace = A)", "(project_replace, UnsafeUnpin, PinnedDrop)", "(PinnedDrop, !Unpin, UnsafeUnpin)", "(!Unpin, PinnedDrop, UnsafeUnpin)", "(PinnedDrop, UnsafeUnpin, PinnedDrop, UnsafeUnpin)", "(!PinnedDrop)", "(PinnedDrop())", "(PinnedDrop, project = A, project_ref = A)", "(UnsafeUnpin, PinnedDrop, project = B, PinnedDrop)"):
        out.append(rej("pd/%s" % a.replace(" ", ""), S % a + pd, why="(misused arguments)"))
    # enums
    E = "#[pin_project%s] enum Foo<T> { A(#[pin] T), B }"
    for a in ("", "(project = P)", "(project_ref = P)", "(project_replace = P)", "(project = P, project_ref = Q, project_replace = O, !Unpin)"):
        out.append(acc("enum-ok/%s" % a.replace(" ", ""), E % a))
    for a in ("(project_replace)", "(project = P, project_replace)", "(project_replace, project_ref = Q)", "(project_replace, !Unpin)", "(project = Foo)", "(project = P, project_ref = P)", "(project_replace = Foo)", "(UnsafeUnpin, !Unpin)", "(project = P, project = Q)", "(Foo)"):
        out.append(rej("enum/%s" % a.replace(" ", ""), E % a, why="(misused arguments on an enum)"))
    # #[pin]
    forms = {"named": "#[pin_project] struct Foo<T> { %s a: T, b: u8 }", "tuple": "#[pin_project] struct Foo<T>(u8, %s T);", "etuple": "#[pin_project] enum Foo<T> { A(%s T, u8), B }", "enamed": "#[pin_project] enum Foo<T> { B, A { b: u8, %s a: T } }", "elast": "#[pin_project] enum Foo<T> { X(#[pin] u8), Y { z: u8 }, A { %s a: T } }", "last": "#[pin_project] struct Foo<T> { #[pin] z: u8, y: u8, %s a: T }", "notunpin": "#[pin_project(!Unpin)] struct Foo<T> { %s a: T, b: u8 }", "uu": "#[pin_project(UnsafeUnpin)] struct Foo<T> { %s a: T, b: u8 }", "named-args": "#[pin_project(project = P, project_ref = R, project_replace = O)] struct Foo<T> { %s a: T, b: u8 }"}
    pins = ["#[pin()]", "#[pin(foo)]", "#[pin = \"x\"]", "#[pin = true]", "#[pin[]]", "#[pin{}]", "#[pin(mut)]", "#[pin(pin)]", "#[pin] #[pin]", "#[pin] #[allow(dead_code)] #[pin]", "#[pin] #[pin()]", "#[pin()] #[pin]", "#[pin] #[pin] #[pin]", "/// d\n #[pin] /// e\n #[pin]", "#[cfg_attr(all(), pin)] #[pin]", "#[pin] #[cfg_attr(all(), pin)]", "#[cfg_attr(all(), pin, pin)]", "#[cfg_attr(all(), pin())]", "#[pinned]", "#[Pin]", "#[unpin]", "#[pin_project]", "#[pin(\"\")]", "#[cfg_attr(all(), pin(x))]", "#[r#pin(foo)]", "#[r#pin()]", "#[r#pin = 1]", "#[pin] #[r#pin]", "#[r#pin] #[pin]", "#[r#pin] #[r#pin]", "#[cfg_attr(all(), r#pin)] #[pin]"]
    for fn, f in forms.items():
        for k, p in enumerate(pins):
            out.append(rej("pin/%s/%s" % (fn, p.replace(" ", "")), f % p, f % "#[pin]" if k == 0 else None, why="(misused #[pin])"))
    for i, s in enumerate(["#[pin_project] #[pin] struct Foo { #[pin] f: () }", "#[pin] #[pin_project] struct Foo { #[pin] f: () }", "#[pin_project] enum Foo { #[pin] V(()) }", "#[pin_project] #[pin] enum Foo { V(()) }", "#[pin_project] enum Foo { #[pin] A, V(()) }", "#[pin_project] enum Foo { V(()), #[pin] A { x: u8 } }", "#[pin_project] enum Foo { #[allow(dead_code)] #[pin] A(#[pin] u8) }", "#[pin_project] enum Foo { #[pin()] A(#[pin] u8) }", "#[pin_project] #[pin()] struct Foo(u8);", "#[pin_project] struct Foo<#[pin] T>(T);", "#[pin_project] #[allow(dead_code)] #[pin] struct Foo(u8);", "#[pin_project] enum Foo { V(()), W, #[pin] X }", "#[pin_project(!Unpin)] enum Foo { #[pin] V(()) }", "#[pin_project] #[cfg_attr(all(), pin)] struct Foo(u8);", "#[pin_project] enum Foo { #[cfg_attr(all(), pin)] V(()) }", "#[pin] struct Foo(u8);", "struct Foo { #[pin] a: u8 }", "#[pin_project] enum Foo { A(u8), #[pin] #[pin] B(u8) }", "#[pin_project] #[r#pin] struct Foo { #[pin] f: () }", "#[r#pin] #[pin_project] struct Foo { #[pin] f: () }", "#[pin_project] enum Foo { #[r#pin] V(#[pin] u8) }", "#[pin_project] enum Foo { A(u8), #[r#pin] B }"]):
        out.append(rej("pin-item/%d" % i, s, why="(#[pin] on something else than a field)"))
    # items
    for i, s in enumerate(["#[pin_project] struct Foo {}", "#[pin_project] struct Foo();", "#[pin_project] struct Foo;", "#[pin_project] enum Foo {}", "#[pin_project] enum Foo { V = 2 }", "#[pin_project] enum Foo { Unit, Tuple(), Struct {} }", "#[pin_project] enum Foo { A }", "#[pin_project] union Foo { f: () }", "#[pin_project] union Foo { #[pin] f: u8, g: u16 }", "#[pin_project] impl Foo {} struct Foo;", "#[pin_project] fn foo() {}", "#[pin_project] trait Foo {}", "#[pin_project] mod foo {}", "#[pin_project] type Foo = u8;", "#[pin_project] const X: u8 = 0;", "#[pin_project] static X: u8 = 0;", "#[pin_project] use std::fmt;", "#[pin_project] extern crate core;", "#[pin_project] macro_rules! m { () => {} }", "#[pin_project] extern \"C\" {}", "#[pin_project] #[repr(u8)] enum Foo { A(#[pin] u8) = 1, B }", "#[pin_project] #[repr(u8)] enum Foo { A(#[pin] u8), B = 7 }", "#[pin_project] #[repr(i8)] enum Foo { X, A { a: u8 } = 3, B }", "#[pin_project(project = P)] enum Foo { V = 2 }", "#[pin_project(!Unpin)] struct Foo;", "#[pin_project(UnsafeUnpin)] enum Foo { A, B }", "#[pin_project(project_replace)] struct Foo {}", "#[pin_project] struct Foo<T>() where T: Clone;", "#[pin_project] impl Drop for u8 {}", "#[pin_project] #[repr(u8)] enum Foo { A(#[pin] u8), B, C, D = 9 }", "#[pin_project(project_ref = Q)] #[repr(u16)] enum Foo { A(#[pin] u8), B, C, D { x: u8 } = 9, E }"]):
        out.append(rej("item/%d" % i, s, why="(unsupported item)"))
    for i, s in enumerate(["#[pin_project] #[pin_project] struct Foo(#[pin] ());", "#[pin_project] #[allow(dead_code)] #[pin_project] struct Foo { #[pin] a: u8 }", "#[pin_project] #[pin_project(!Unpin)] struct Foo(#[pin] ());", "#[pin_project(!Unpin)] #[pin_project] struct Foo(#[pin] ());", "#[pin_project(project = A)] #[pin_project(project_ref = B)] enum Foo { V(#[pin] u8) }", "#[pin_project::pin_project] #[pin_project] struct Foo(#[pin] ());", "#[pin_project] #[pin_project::pin_project] struct Foo(#[pin] ());", "#[pin_project] #[::pin_project::pin_project] struct Foo(#[pin] ());", "#[pin_project] #[cfg_attr(all(), pin_project)] struct Foo(#[pin] ());"]):
        out.append(rej("twice/%d" % i, s, "#[pin_project] struct Foo(#[pin] ());" if i == 0 else None, why="(#[pin_project] twice)"))
    return out


def c14_orders(run):
    """Every order of an argument list gives the same facts."""
    ds = []
    combos = [dict(project="Pm", project_ref="Pr", project_replace="Po", unpin="!Unpin"), dict(project="Pm", project_ref="Pr", project_replace="", unpin="UnsafeUnpin"), dict(project="Pm", project_ref="Pr", unpin="!Unpin", pinned_drop=True), dict(project="Pm", project_ref="Pr", unpin="UnsafeUnpin", pinned_drop=True), dict(project="Pm", project_replace="Po"), dict(project_ref="Pr", pinned_drop=True)]
    groups = []
    for kind in ("struct", "enum"):
        for c in combos:
            if kind == "enum" and c.get("project_replace") == "":
                continue
            n = sum(1 for k in c)
            g = []
            for perm in itertools.permutations(range(n)):
                for trailing in (False, True):
                    if trailing and perm != tuple(range(n)):
                        continue
                    if kind == "struct":
                        d = corpus.st("Foo", [F("T", True), F("U")], "named", params=corpus.params(["T", "U"]))
                    else:
                        d = D("Foo", "enum", [corpus.variant("A", [F("T", True), F("U")], "named"), corpus.variant("B", [F("U", True)], "tuple")], params=corpus.params(["T", "U"]))
                    d.tag = "order"
                    for k, v in c.items():
                        setattr(d, k, v)
                    d.order, d.trailing = list(perm), trailing
                    g.append(len(ds))
                    ds.append(d)
            groups.append(g)
    ws = run.witnesses(ds, "argument orders", queries=rules.unpin_queries)
    by = {id(d): m for d, m, _ in ws}
    for g in groups:
        ref = None
        for i in g:
            m = by.get(id(ds[i]))
            if m is None:
                continue
            fp = fingerprint(m)
            if ref is None:
                ref = (fp, ds[i])
            elif fp != ref[0]:
                diff = [(a, b) for a, b in zip(sorted(map(str, fp)), sorted(map(str, ref[0]))) if a != b][:1]
                run.bad("C14/order", "`%s` and `%s` expand to different programs (%s)" % (describe(ds[i]), describe(ref[1]), str(diff)[:400]), m.src)
            run.rep.count("orders compared")


def fingerprint(m):
    out = []
    for f in m.fns + m.closures:
        out.append(("fn", rules2.rel(m, f["path"]), f.get("vis") and rules2.norm(m, f["vis"]), str(rules2.norm(m, f.get("inputs"))), str(rules2.norm(m, f.get("output"))), body_key(m, f, f["path"])))
    for a in m.adts:
        out.append(("adt", rules2.rel(m, a["path"]), rules2.norm(m, a["vis"]), str(rules2.norm(m, a["generics"])), str([(v["name"], [(f["name"], str(rules2.norm(m, f["ty"])), rules2.norm(m, f["vis"])) for f in v["fields"]]) for v in a["variants"]])))
    for i in m.impls:
        out.append(("impl", i.get("trait"), str(rules2.norm(m, i["self"])), tuple(sorted(rules2.preds(m, i["preds"])))))
    for q in m.queries:
        out.append(("q", rules2.rel(m, q["path"]), str([(r["Unpin"], r["UnsafeUnpin"]) for r in q["res"]])))
    return sorted(str(x).replace("%s::outer::%s" % (m.crate, m.name), "~").replace(m.crate, "~") for x in out)


def body_key(m, f, root):
    """MIR of a function up to names of locals, source positions and its own path."""
    b = f.get("body")
    if not b:
        return None
    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items() if k not in ("sp", "name", "span", "crate")}
        if isinstance(x, list):
            return [go(v) for v in x]
        if isinstance(x, str):
            s = x.replace(root, "@")
            short = root.split("::", 1)[1] if "::" in root else root
            s = s.replace(short, "@")
            s = rules2.norm(m, s)
            s = re.sub(r"closure@[^}\s>,]*(?::\s*\d+:\d+)?[^}\s>,]*", "closure", s)
            s = re.sub(r"/[^\s\"']*\.rs:\d+:\d+(: \d+:\d+)?", "", s)
            return s
        return x
    return str(go({"argc": b["argc"], "locals": b["locals"], "blocks": b["blocks"]}))


# ---------------------------------------------------------------- C15
def c15():
    out = []
    s = "#[pin_project%s] pub struct Foo<T, U> { #[pin] pub a: T, pub b: U }\n"
    for a in ("", "(!Unpin)", "(UnsafeUnpin)", "(project_replace)", "(project = P, project_ref = R, project_replace = O)"):
        out.append(acc("destructure%s" % a.replace(" ", ""), s % a + "pub fn f(x: Foo<String, Vec<u8>>) -> (String, Vec<u8>) { let Foo { a, b } = x; (a, b) }\npub fn g(x: Foo<String, u8>) -> String { x.a }\npub const C: Foo<u8, u8> = Foo { a: 1, b: 2 };", why="(the type can be taken apart)"))
        out.append(acc("copy%s" % a.replace(" ", ""), "#[derive(Clone, Copy)]\n" + s % a + "fn c<T: Copy>() {}\npub fn f() { c::<Foo<u8, u8>>() }"))
    out.append(acc("const-generic-default", "#[pin_project] pub struct Foo<T = u8, const N: usize = 3> { #[pin] pub a: [T; N] }\npub fn f(x: Foo) -> [u8; 3] { x.a }"))
    out.append(acc("enum-match", "#[pin_project] pub enum Foo<T> { A(#[pin] T, String), B { #[pin] x: Vec<T> }, C }\npub fn f(x: Foo<u8>) -> String { match x { Foo::A(_, s) => s, Foo::B { x } => format!(\"{:?}\", x), Foo::C => String::new() } }"))
    out.append(acc("repr-int-cast", "#[pin_project] #[repr(transparent)] pub struct Foo<T> { #[pin] pub a: T }\nconst _: () = assert!(core::mem::size_of::<Foo<u64>>() == 8);"))
    out.append(rej("non-exhaustive", "#[pin_project] pub enum Foo { A(#[pin] u8), B }\npub fn f(x: Foo) { match x { Foo::A(_) => {} } }", "#[pin_project] pub enum Foo { A(#[pin] u8), B }\npub fn f(x: Foo) { match x { Foo::A(_) => {}, Foo::B => {} } }"))
    out.append(acc("helper-attr-of-derive", "#[pin_project] #[derive(aux_macro::Nothing)] #[helper] pub struct Foo { #[pin] #[helper] a: u8, #[helper(x)] b: u8 }", externs=["aux"]))
    out.append(acc("helper-attr-before", "#[derive(aux_macro::Nothing)] #[pin_project] #[helper] pub struct Foo { #[pin] #[helper] a: u8, #[helper(x)] b: u8 }", externs=["aux"]))
    return out


# ---------------------------------------------------------------- C16
def c16():
    out = []
    s = "#[pin_project(project = P, project_ref = R, project_replace = O)] pub struct Foo<T, U> { #[pin] pub a: T, pub b: U }\n"
    e = "#[pin_project(project = P, project_ref = R, project_replace = O)] pub enum Foo<T, U> { A { #[pin] a: T, b: U }, B(U) }\n"
    f = lambda it, sig, body: it + "pub fn f%s { %s }" % (sig, body)
    G = "<T, U>(mut x: Pin<&mut Foo<T, U>>)"
    bad = [
        (G, "let p = x.as_mut().project(); let q = x.as_mut().project(); let _ = (&p.a, &q.a);", "let p = x.as_mut().project(); let _ = &p.a; let q = x.as_mut().project(); let _ = &q.a;"),
        (G, "let p = x.as_mut().project(); let q = x.as_ref().project_ref(); let _ = (&p.b, &q.b);", "let p = x.as_ref().project_ref(); let q = x.as_ref().project_ref(); let _ = (&p.b, &q.b);"),
        (G, "let r = x.as_ref().project_ref(); let p = x.as_mut().project(); let _ = (p.b, r.b);", "let r = x.as_ref().project_ref(); let _ = r.b; let p = x.as_mut().project(); let _ = p.b;"),
        (G, "let p = x.project(); let q = x.project(); let _ = (p.b, q.b);", "let p = x.project(); let _ = p.b;"),
        (G, "let b = x.as_mut().project().b; let c = x.as_mut().project().b; let _ = (b, c);", "let b = x.as_mut().project().b; let _ = b; let c = x.as_mut().project().b; let _ = c;"),
        (G, "let a = x.as_mut().project().a; let c = x.as_mut().project().a; let _ = (a, c);", "let a = x.as_mut().project().a; let _ = a; let c = x.as_mut().project().a; let _ = c;"),
        ("<T, U>(mut x: Pin<&mut Foo<T, U>>, v: Foo<T, U>)", "let p = x.as_mut().project(); x.as_mut().project_replace(v); let _ = p.b;", "let p = x.as_mut().project(); let _ = p.b; x.as_mut().project_replace(v);"),
        ("<T, U>(mut x: Pin<&mut Foo<T, U>>, v: Foo<T, U>)", "let p = x.as_ref().project_ref(); x.as_mut().project_replace(v); let _ = p.b;", "let o = x.as_mut().project_replace(v); let p = x.as_mut().project(); let _ = (o.b, p.b);"),
        ("<T, U>(x: Pin<&mut Foo<T, U>>, v: Foo<T, U>)", "x.as_ref().project_replace(v);", "x.project_replace(v);"),
        ("<T, U>(x: Pin<&Foo<T, U>>)", "x.project();", "x.project_ref();"),
        ("<T, U: Default>(x: Pin<&Foo<T, U>>)", "*x.project_ref().b = U::default();", "let _ = x.project_ref().b;"),
        ("<T, U>(mut x: Foo<T, U>)", "x.project();", "unsafe { Pin::new_unchecked(&mut x) }.project();"),
        ("<T, U>(x: &mut Foo<T, U>)", "x.project();", "let _ = x;"),
        ("<T, U>(x: &Foo<T, U>)", "x.project_ref();", "let _ = x;"),
        ("<T: 'static, U: 'static>(x: Foo<T, U>) -> &'static U", "let x = Box::pin(x); x.as_ref().project_ref().b", "let x = Box::leak(Box::new(x)); unsafe { Pin::new_unchecked(&*x) }.project_ref().b"),
        ("<'a, T, U>(mut x: Pin<Box<Foo<T, U>>>) -> P<'a, T, U>", "x.as_mut().project()", "loop {}"),
        ("<'a, T, U>(mut x: Pin<Box<Foo<T, U>>>) -> Pin<&'a mut T>", "x.as_mut().project().a", "loop {}"),
        ("<'a, 'b, T, U>(x: &'b mut Pin<&'a mut Foo<T, U>>) -> P<'a, T, U>", "x.as_mut().project()", "loop {}"),
        ("<'a, 'b, T, U>(x: &'b mut Pin<&'a mut Foo<T, U>>) -> &'a mut U", "x.as_mut().project().b", "loop {}"),
        ("<'a, 'b, T, U>(x: Pin<&'b Foo<T, U>>) -> &'a U", "x.project_ref().b", "loop {}"),
        ("<'a, 'b, T, U>(x: Pin<&'b mut Foo<T, U>>) -> P<'a, T, U>", "x.project()", "loop {}"),
        ("<'a, 'b, T, U>(x: Pin<&'b mut Foo<T, U>>) -> P<'static, T, U>", "x.project()", "loop {}"),
        ("<'a, 'b, U>(x: Pin<&'b mut Foo<&'a u8, U>>) -> P<'b, &'static u8, U>", "x.project()", "loop {}"),
        ("<'a, 'b, U>(x: P<'b, U, &'a u8>) -> P<'b, U, &'b u8>", "x", "loop {}"),  # &mut is invariant
        ("<T: Copy, U>(mut x: Pin<&mut Foo<T, U>>)", "let mut a = x.as_mut().project().a; core::mem::drop(x); let _ = a.as_mut();", "let mut a = x.as_mut().project().a; let _ = a.as_mut(); core::mem::drop(x);"),
    ]
    sigfix = {"-> P<": 1}
    for i, (sig, b, t) in enumerate(bad):
        for k, it in (("struct", s), ("enum", e)):
            if k == "enum" and re.search(r"\.(a|b)\b", (b + t).replace(".as_", "")):
                continue
            if t == "loop {}":
                tw = None
            else:
                tw = f(it, sig, t)
            out.append(rej("misuse/%s/%d" % (k, i), f(it, sig, b), tw, why="(a projection must not outlive or alias its borrow)"))
    good = [
        (s, "<'a, T, U>(x: Pin<&'a mut Foo<T, U>>) -> P<'a, T, U>", "x.project()"),
        (s, "<'a, T, U>(x: Pin<&'a mut Foo<T, U>>) -> (Pin<&'a mut T>, &'a mut U)", "let p = x.project(); (p.a, p.b)"),
        (s, "<'a, T, U>(x: Pin<&'a Foo<T, U>>) -> (Pin<&'a T>, &'a U)", "let p = x.project_ref(); (p.a, p.b)"),
        (s, "<'a, 'b, T, U>(x: &'b mut Pin<&'a mut Foo<T, U>>) -> P<'b, T, U>", "x.as_mut().project()"),
        (s, "<'a: 'b, 'b, T, U>(x: Pin<&'a mut Foo<T, U>>) -> P<'b, T, U>", "x.project()"),
        (s, "<'a: 'b, 'b, T, U>(x: P<'a, T, U>) -> P<'b, T, U>", "x"),
        (s, "<'a: 'b, 'b, T>(x: R<'a, T, &'a u8>) -> R<'b, T, &'b u8>", "x"),
        (s, "<'a, T, U>(x: Pin<&'a mut Foo<T, U>>) -> R<'a, T, U>", "x.into_ref().project_ref()"),
        (s, "(x: Pin<&'static mut Foo<u8, u8>>) -> &'static mut u8", "x.project().b"),
        (s, "<T, U>(x: Pin<&mut Foo<T, U>>) -> P<'_, T, U>", "x.project()"),
        (s, "<T, U>(x: Pin<&mut Foo<T, U>>, v: Foo<T, U>) -> O<T, U>", "x.project_replace(v)"),
        (s, "<T, U>(mut x: Pin<&mut Foo<T, U>>, v: Foo<T, U>) -> U", "let o = x.as_mut().project_replace(v); let _ = x.project(); o.b"),
        (s, "<T, U>(x: Pin<&mut Foo<T, U>>)", "let p = x.project(); let (a, b) = (p.a, p.b); core::mem::drop((a, b));"),
        (e, "<'a, T, U>(x: Pin<&'a mut Foo<T, U>>) -> Option<&'a mut U>", "match x.project() { P::A { b, .. } => Some(b), P::B(b) => Some(b) }"),
        (e, "<'a, T, U>(x: Pin<&'a Foo<T, U>>) -> Option<Pin<&'a T>>", "match x.project_ref() { R::A { a, .. } => Some(a), R::B(_) => None }"),
        (e, "<T, U>(x: Pin<&mut Foo<T, U>>, v: Foo<T, U>) -> U", "match x.project_replace(v) { O::A { b, .. } => b, O::B(b) => b }"),
        ("#[pin_project(project = P, project_ref = R)] pub struct Foo<'pin, T>(#[pin] &'pin T, &'pin mut u8);\n", "<'a, 'x, T>(x: Pin<&'a mut Foo<'x, T>>) -> P<'a, 'x, T>", "x.project()"),
        ("#[pin_project(project = P, project_ref = R)] pub struct Foo<'pin, T>(#[pin] &'pin T, &'pin mut u8);\n", "<'a, 'x, T>(x: Pin<&'a Foo<'x, T>>) -> (Pin<&'a &'x T>, &'a &'x mut u8)", "let p = x.project_ref(); (p.0, p.1)"),
        ("#[pin_project(project = P)] pub struct Foo<'a, 'pin, 'pin_, T: 'a>(#[pin] &'a T, &'pin u8, &'pin_ u8);\n", "<'z, 'a, 'b, 'c, T>(x: Pin<&'z mut Foo<'a, 'b, 'c, T>>) -> (&'a T, &'b u8, &'c u8)", "let p = x.project(); (*p.0, *p.1, *p.2)"),
        ("#[pin_project(project = P)] pub struct Foo<T: ?Sized>(u8, #[pin] T);\n", "<'a, T: ?Sized>(x: Pin<&'a mut Foo<T>>) -> Pin<&'a mut T>", "x.project().1"),
        ("#[pin_project] pub struct Foo<T: ?Sized>(u8, #[pin] T);\n", "<'a>(x: Pin<&'a mut Foo<dyn Send + 'static>>) -> Pin<&'a mut (dyn Send + 'static)>", "x.project().1"),
        ("#[pin_project] pub struct Foo<'l>(u8, #[pin] dyn Send + 'l);\n", "<'a, 'l>(x: Pin<&'a mut Foo<'l>>) -> Pin<&'a mut (dyn Send + 'l)>", "x.project().1"),
        ("pub trait Tr { type A; }\n#[pin_project(project = P)] pub struct Foo<T: Tr> where T::A: Clone { #[pin] a: T, b: T::A }\n", "<'a, T: Tr>(x: P<'a, T>) -> T::A where T::A: Clone", "x.b.clone()"),
    ]
    for i, (it, sig, b) in enumerate(good):
        out.append(acc("use/%d" % i, f(it, sig, b), why="(a correct use of the projection's lifetime)"))
    return out
