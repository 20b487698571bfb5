"""C24: programs that misuse the attributes, well-formed token trees of every kind, and where the errors point."""
import itertools
import random
import re

from . import cases, compile as C

PRE = "use ::pin_project::*; use ::std::pin::Pin; use ::core::marker::*; macro_rules! mac { ($($t:tt)*) => {} }\n"
ARG = ["project", "project_ref", "project_replace", "PinnedDrop", "UnsafeUnpin", "!", "Unpin", "=", ",", "A", "r#B", "\"x\"", "1", "()", "#", "::", "'a", "crate", "self", "Self", "_", "!Unpin", "project = A", "project_ref = B", "{}", "[1]", "r#project", "r#type", "super", "..", "$"]
ITEMS = ["struct Foo<T> { #[pin] a: T }", "enum Foo<T> { A(#[pin] T), B }", "struct Foo(#[pin] u8);"]
GEN = ["", "<T>", "<'a, T: 'a>", "<T: ?Sized>", "<const N: usize>", "<T = u8>", "<'a>", "<T, U, V: Clone + 'static>", "<#[cfg(any())] T>", "<'pin, '_pin, T>", "<T: for<'x> Fn(&'x ())>", "<>", "<T,>"]
WHERE = ["", " where T: Clone", " where", " where Self: Sized", " where for<'a> T: Fn(&'a u8)", " where u8: Copy,", " where 'static: 'static", " where [u8; {1}]: Sized"]
TYPES = ["u8", "T", "&'a T", "[T; 3]", "(T,)", "fn(T) -> T", "dyn Fn(T)", "impl Clone", "mac!()", "!", "_", "<T as Tr>::X", "Self", "*const T", "[T]", "Option<Self>", "::core::pin::Pin<T>", "(T)", "for<'pin> fn(&'pin T)", "dyn for<'a> Tr<'a> + 'pin", "[u8; { struct X<'pin>(&'pin u8); 3 }]", "Box<dyn Fn(&T) -> &T>", "unsafe extern \"C\" fn(...)", "r#struct", "()", "&mut dyn std::any::Any", "crate::X", "super::X", "X::<'pin>"]
FATTR = ["", "#[pin]", "#[pin] #[cfg(any())]", "#[cfg(all())] #[pin]", "#[pin()]", "#[pin]#[pin]", "#[doc=\"x\"]", "#[pin = 1]", "#[pin::x]", "#[x::pin]", "#[r#pin]", "#[unsafe(pin)]", "#[pin{}]", "#[pin[]]", "#[cfg_attr(all(),pin)]"]
VIS = ["", "pub", "pub(crate)", "pub(super)", "pub(in self)", "pub(in super::super)", "pub(self)"]
IATTR = ["", "#[repr(C)]", "#[repr(packed)]", "#[repr]", "#[repr = 1]", "#[repr()]", "#[repr(1)]", "#[repr(packed,)]", "#[repr(align(8))]", "#[pin]", "#[pin_project]", "#[derive(Clone)]", "#[repr(\"C\")]", "#[repr(C::D)]", "#[repr(packed = 1)]", "#[repr{C}]", "#[cfg(any())]", "#[non_exhaustive]", "#[repr(,)]", "#[repr(C packed)]", "#[derive()]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(all(), pin())]", "#[cfg_attr(all(), pin = 1)]", "#[cfg_attr(all(), pin(__private()))]", "#[cfg_attr(all(), pin_project)]", "#[cfg_attr(all(), repr(packed))]", "#[cfg_attr(all(), pin, repr(C))]"]
PARGS = ["", "()", "(PinnedDrop)", "(!Unpin)", "(UnsafeUnpin)", "(project = P)", "(project_replace)", "(project = P, project_ref = R, project_replace = O)", "{project = P}", "[!Unpin]"]
OTHER = ["fn f() {}", "mod x {}", "trait T {}", "impl Foo {}", "type X = u8;", "const X: u8 = 1;", "static X: u8 = 1;", "use core::fmt;", "extern crate core;", "mac!{}", "mac!();", "macro_rules! q { () => {} }", "extern \"C\" { fn x(); }", "impl Tr for Foo {}", "unsafe impl Send for Foo {}", "async fn x() {}", "struct X;", "enum X {}"]
HEADS = ["impl PinnedDrop for Foo", "impl<T> PinnedDrop for Foo<T>", "impl PinnedDrop for mac!()", "impl PinnedDrop for <Foo as Tr>::X", "impl PinnedDrop for &Foo", "impl PinnedDrop for _", "impl PinnedDrop for dyn Tr", "impl PinnedDrop for impl Tr", "impl PinnedDrop for fn()", "impl !PinnedDrop for Foo", "impl const PinnedDrop for Foo", "impl PinnedDrop for ()", "impl PinnedDrop for Self", "impl PinnedDrop for <Foo>", "impl PinnedDrop for ::Foo", "impl Foo", "impl PinnedDrop", "default impl PinnedDrop for Foo", "unsafe impl PinnedDrop for Foo", "impl<'a, const N: usize> PinnedDrop for Foo<'a, N> where Self: Sized", "impl PinnedDrop for <Self as A>::B", "impl PinnedDrop for Foo<Self>", "impl PinnedDrop for (Foo)", "impl r#PinnedDrop for Foo", "impl PinnedDrop for Fn(u8) -> u8", "impl PinnedDrop for Foo::<u8>", "impl PinnedDrop for crate::Foo", "impl PinnedDrop for Foo<{ Self::X }>", "impl PinnedDrop for Foo where T: Fn(Self) -> Self"]
METHODS = ["fn drop(self: Pin<&mut Self>) { %s }", "fn drop(mut self: Pin<&mut Self>) -> () { %s }", "fn drop(self: Pin<&mut Self>);", "fn drop(self) {%s}", "fn drop(&mut self) {%s}", "fn drop() {%s}", "fn drop(self: Pin<&mut Self>, ...) {%s}", "fn drop(...) {}", "type X;", "type X = u8;", "const A: u8;", "const A: u8 = 1;", "mac!{}", "mac!();", "pub(crate) fn drop(self: Pin<&mut Self>) { %s }", "default fn drop(self: Pin<&mut Self>) {%s}", "fn drop(self: <Pin>::X) {%s}", "fn drop(self: Pin<&mut <Self>>) {%s}", "fn drop(#[x] self: Pin<&mut Self>) {%s}", "unsafe extern \"C\" fn drop(self: Pin<&mut Self>) {%s}", "fn drop(self: Pin<&mut Self>) { #![allow(unused)] %s }", "async fn drop(self: Pin<&mut Self>) {%s}", "fn drop(self: Pin) {%s}", "fn drop(self: Pin()) {%s}", "fn drop(self: Pin<>) {%s}", "fn drop(self: mac!()) {%s}", "fn drop<T>(self: Pin<&mut Self>) where T: Copy {%s}", ""]
BODIES = ["", "self", "Self", "Self::X", "Self {}", "Self(1)", "<Self>::X", "<Self as T>::X", "self.x", "mac!(self Self ::)", "mac!(Self::<T>::x)", "mac!($ self)", "fn f(self) {}", "let self = 1;", "let Self { a } = self;", "match self { Self => {} }", "impl Self {}", "impl X for Self { type Self_ = Self; fn f(self) -> Self { self } }", "&self", "*self", "Self::<u8>::f()", "Self::f::<u8>()", "use self::x;", "use Self::x;", "crate::Self", "self::x()", "Self..Self", "[Self; Self::N]", "async { self }", "const { Self::X }", "unsafe { self }", "loop { break self }", "let x: impl Self = 1;", "macro_rules! m { (self) => { self } }", "format!(\"{self}\")", "mac![Self {}; self]", "mac!{Self}", "<Self>", "#[self] x;", "Self!()", "self!()", "Self::x!{}", "if let Self::A(x) = *self {}", "super::Self::x", "pub(in self) fn f() {}", "'self_: loop {}", "<[Self]>::x", "<Self as X<Self>>::Y::<Self>::Z", "Self::A { ..self }", "&raw const self", "self.0.1.2", "static X: Self = 1;"]


def soup(seed, n):
    """n random programs around one use of an attribute."""
    rng = random.Random(seed)
    ch = rng.choice
    out = []
    seqs = [(a,) for a in ARG] + list(itertools.product(ARG, ARG))
    rng.shuffle(seqs)
    seqs = seqs[:n // 6] + [tuple(ch(ARG) for _ in range(rng.randint(3, 7))) for _ in range(n // 6)]
    for i, q in enumerate(seqs):
        out.append("#[pin_project(%s)] %s" % (" ".join(q), ITEMS[i % 3]))

    def fld(named, i):
        nm = ch(["a", "b", "_c", "r#type", "this", "__x", "Foo", "r#fn", "\u00e9"]) if rng.random() < .4 else "f%d" % i
        return "%s %s %s%s" % (ch(FATTR) if rng.random() < .7 else "", ch(VIS) if rng.random() < .3 else "", nm + ": " if named else "", ch(TYPES))

    def body():
        k, m = rng.randint(0, 2), rng.randint(0, 3)
        if k == 0:
            return "{ %s }" % ", ".join(fld(1, i) for i in range(m))
        return "( %s )" % ", ".join(fld(0, i) for i in range(m)) if k == 1 else ""

    for _ in range(n // 3):
        g, w = ch(GEN), ch(WHERE)
        ia = ch(IATTR) if rng.random() < .4 else ""
        head = "%s #[pin_project%s] %s %s " % (ia if rng.random() < .5 else "", ch(PARGS), ia, ch(VIS))
        nm = ch(["Foo", "r#type", "_Foo", "foo", "\u00c9"]) if rng.random() < .2 else "Foo"
        k = rng.random()
        if k < .5:
            b = body()
            out.append(head + "struct %s%s %s" % (nm, g, (w + b) if b.startswith("{") else b + w + ";"))
        elif k < .85:
            out.append(head + "enum %s%s%s { %s }" % (nm, g, w, ", ".join("%s V%d%s%s" % (ch(["", "#[pin]", "#[cfg(any())]", "#[doc=\"\"]"]) if rng.random() < .3 else "", i, body(), ch(["", " = 1", " = N"]) if rng.random() < .1 else "") for i in range(rng.randint(0, 3)))))
        elif k < .9:
            out.append(head + "union %s%s%s { a: u8, #[pin] b: u16 }" % (nm, g, w))
        else:
            out.append(head + ch(OTHER))
    for _ in range(n - len(out)):
        ms = " ".join((lambda m: m % "; ".join(ch(BODIES) for _ in range(rng.randint(0, 3))) if "%s" in m else m)(ch(METHODS[:2]) if rng.random() < .6 else ch(METHODS)) for _ in range(ch([0, 1, 1, 1, 1, 2, 3])))
        out.append("#[pinned_drop%s] %s { %s }" % (ch(["", "", "", "()", "(x)", "{}", " = 1"]), ch(HEADS[:2]) if rng.random() < .5 else ch(HEADS), ms))
    rng.shuffle(out)
    return out


def panics(run, progs, chunk=48):
    """Programs on which a macro panics: [(program, message)]. Many programs share a crate; a crate with a
    syntax error (which would hide the other programs) or a panic is divided."""
    cx = run.ctx()

    def compile_(ms):
        return C.rustc(cx, "#![allow(warnings)]\n" + "".join("mod m%d { %s %s }\n" % (i, PRE, m) for i, m in enumerate(ms)))

    def go(ms):
        x = compile_(ms)
        p = [d for d in x.diags if d.get("level") == "error" and re.search(r"\bpanicked\b", d["message"])]
        if p:
            if len(ms) == 1:
                return [(ms[0], " ".join(c["message"] for c in p[0].get("children", ()))[:200])]
        elif not any(d.get("level") == "error" and not d.get("code") and d["spans"] and not d["spans"][0].get("expansion") for d in x.diags) or len(ms) == 1:
            return []
        h = len(ms) // 2
        return go(ms[:h]) + go(ms[h:])

    return [b for bs in C.pool(go, [progs[i:i + chunk] for i in range(0, len(progs), chunk)]) for b in bs]


# ---------------------------------------------------------------- where errors point
def marked():
    """[(key, program)]: the construct at fault stands between \u00ab and \u00bb."""
    out = []

    def m(key, src):
        out.append((key, src))

    st, en, tu = "pub struct Foo<T, U> { #[pin] pub a: T, pub b: U }", "pub enum Foo<T> { A(#[pin] T, u8), B }", "pub struct Foo<T>(#[pin] pub T, pub u8);"
    fill = ["project = P", "project_ref = R", "!Unpin", "PinnedDrop", "UnsafeUnpin", "project_replace"]
    # an argument at fault among good ones
    bad = ["foo", "Foo", "Unpin", "unpin", "pinned_drop", "project_mut = X", "Replace", "Drop", "UnsafeUnpim", "projects = X", "!Foo", "!unpin", "!UnsafeUnpin", "project = 1", "project_ref = \"R\"", "project = ()", "project_replace = 3", "project ! X", "42", "\"project\"", "'a", "#", "=", "(project = P)", "project = P = Q", "PinnedDrop = true", "UnsafeUnpin(true)", "!Unpin = 1", "project(P)", "project::P", "_", "crate", "self", "project = P Q", "PinnedDrop PinnedDrop", "!!Unpin"]
    for b in bad:
        for k, (pre, post) in enumerate([("", ""), ("project_ref = R9, ", ""), ("", ", project_ref = R9"), ("project_ref = R9, ", ", project_replace = O9"), ("project_ref = R9, project_replace = O9, ", ",")]):
            if "project_ref" in b and k:
                continue
            if "project_replace" in b and k > 2:
                continue
            for j, it in enumerate((st, en, tu)):
                if (k + j) % 2 and k:
                    continue
                m("arg/%s/%d%d" % (b.replace(" ", ""), k, j), "#[pin_project(%s\u00ab%s\u00bb%s)] %s" % (pre, b, post, it))
    # duplicates: the second
    for a in fill:
        for it in (st, tu):
            for mid in ("", "project_ref = R9, " if "ref" not in a else "project = P9, "):
                x = a if "=" not in a else a.split("=")[0] + "= X"
                m("duplicate/%s" % a.replace(" ", ""), "#[pin_project(%s, %s\u00ab%s\u00bb)] %s" % (a, mid, x, it))
                m("duplicate/%s/same" % a.replace(" ", ""), "#[pin_project(%s, %s\u00ab%s\u00bb)] %s" % (a, mid, a, it))
    m("duplicate/replace-named", "#[pin_project(project_replace, \u00abproject_replace = O\u00bb)] " + st)
    m("duplicate/replace-named2", "#[pin_project(project_replace = O, \u00abproject_replace\u00bb)] " + st)
    # contradictions: either of the two
    for a, b in (("UnsafeUnpin", "!Unpin"), ("PinnedDrop", "project_replace"), ("PinnedDrop", "project_replace = O")):
        for x, y in ((a, b), (b, a)):
            for mid in ("", "project = P, "):
                m("contradiction/%s/%s" % (x, y), "#[pin_project(\u00ab%s\u00bb, %s\u00ab%s\u00bb)] %s" % (x, mid, y, st))
    for k in ("project", "project_ref", "project_replace"):
        m("name-is-type/%s" % k, "#[pin_project(\u00ab%s = Foo\u00bb)] %s" % (k, st))
        m("name-is-type-enum/%s" % k, "#[pin_project(%s\u00ab%s = Foo\u00bb)] %s" % ("project = P9, " if k != "project" else "", k, en))
    for a, b in itertools.permutations(("project", "project_ref", "project_replace"), 2):
        m("same-name/%s/%s" % (a, b), "#[pin_project(\u00ab%s = X\u00bb, \u00ab%s = X\u00bb)] %s" % (a, b, st))
        m("same-name-enum/%s/%s" % (a, b), "#[pin_project(\u00ab%s = X\u00bb, \u00ab%s = X\u00bb)] %s" % (a, b, en))
    m("unnamed-replace-enum", "#[pin_project(\u00abproject_replace\u00bb)] " + en)
    m("unnamed-replace-enum2", "#[pin_project(project = P, \u00abproject_replace\u00bb, project_ref = R)] " + en)
    # values missing
    for k in ("project", "project_ref"):
        for e in (k, k + " ="):
            m("no-value/%s" % e.replace(" ", ""), "#[pin_project(\u00ab%s\u00bb)] %s" % (e, st))
            m("no-value2/%s" % e.replace(" ", ""), "#[pin_project(!Unpin, \u00ab%s\u00bb)] %s" % (e, en))
    m("no-value/replace", "#[pin_project(\u00abproject_replace =\u00bb)] " + st)
    m("bang", "#[pin_project(\u00ab!\u00bb)] " + st)
    # #[pin]
    for a in ("#[pin(foo)]", "#[pin()]", "#[pin = \"x\"]", "#[pin{}]", "#[pin[x]]", "#[pin(__private())]"):
        m("pin-args/" + a, "#[pin_project] pub struct Foo<T> { pub a: T, \u00ab%s\u00bb pub b: u8, #[pin] c: u8 }" % a)
        m("pin-args-tuple/" + a, "#[pin_project] pub struct Foo<T>(pub T, #[pin] u8, \u00ab%s\u00bb pub u8);" % a)
        m("pin-args-enum/" + a, "#[pin_project] pub enum Foo<T> { A(#[pin] T), B { a: u8, \u00ab%s\u00bb b: u8 }, C }" % a)
    for mid in ("", "/// d\n", "#[allow(dead_code)] "):
        m("pin-twice", "#[pin_project] pub struct Foo<T> { #[pin] pub a: T, #[pin] %s\u00ab#[pin]\u00bb pub b: u8 }" % mid)
        m("pin-twice-tuple", "#[pin_project] pub struct Foo<T>(pub T, #[pin] %s\u00ab#[pin]\u00bb pub u8, u16);" % mid)
        m("pin-twice-enum", "#[pin_project] pub enum Foo<T> { A(#[pin] T), B { #[pin] %s\u00ab#[pin]\u00bb a: u8, b: u8 } }" % mid)
    for it in ("pub struct Foo { #[pin] a: u8 }", "pub struct Foo(#[pin] u8);", "pub enum Foo { A(#[pin] u8) }"):
        m("pin-item", "#[pin_project] \u00ab#[pin]\u00bb %s" % it)
        m("pin-item2", "#[pin_project] /// d\n\u00ab#[pin]\u00bb #[allow(dead_code)] %s" % it)
    m("pin-variant", "#[pin_project] pub enum Foo { A(#[pin] u8), \u00ab#[pin]\u00bb B(u8) }")
    m("pin-variant-unit", "#[pin_project] pub enum Foo { A(#[pin] u8), \u00ab#[pin]\u00bb B }")
    # twice
    m("pin_project-twice", "#[pin_project] \u00ab#[pin_project]\u00bb " + st)
    m("pin_project-twice2", "#[pin_project(!Unpin)] #[allow(dead_code)] \u00ab#[pin_project(project = P)]\u00bb " + st)
    # unsupported items
    for it in ("pub struct Foo;", "pub struct Foo {}", "pub struct Foo();", "pub enum Foo {}", "pub enum Foo { A, B }", "pub enum Foo { A(), B {} }"):
        m("empty/" + it.replace(" ", ""), "#[pin_project] \u00ab%s\u00bb" % it)
    for it in ("pub union Foo { a: u8 }", "fn f() {}", "impl Foo {}", "trait Tr {}", "mod x {}", "type X = u8;", "const X: u8 = 0;", "static X: u8 = 0;", "use core::fmt;", "extern crate core as c9;"):
        m("item/" + it.replace(" ", ""), "#[pin_project] \u00ab%s\u00bb" % it)
    m("discriminant", "#[pin_project] #[repr(u8)] pub enum Foo { A(#[pin] u8), \u00abB = 3\u00bb, C }")
    m("discriminant-first", "#[pin_project] #[repr(u8)] pub enum Foo { \u00abB = 3\u00bb, A(#[pin] u8), C }")
    m("discriminant-field", "#[pin_project] #[repr(u8)] pub enum Foo { D, \u00abB(#[pin] u8) = 3\u00bb, A(#[pin] u8) }")
    # packed
    for r in ("packed", "packed(2)"):
        for pre, post in (("", ""), ("C, ", ""), ("", ", C")):
            m("packed/%s" % (pre + r + post).replace(" ", ""), "#[pin_project] #[repr(%s\u00ab%s\u00bb%s)] %s" % (pre, r, post, st))
            m("packed-before/%s" % (pre + r + post).replace(" ", ""), "#[repr(%s\u00ab%s\u00bb%s)] #[pin_project(!Unpin)] %s" % (pre, r, post, tu))
        m("packed-second/%s" % r, "#[pin_project] #[repr(C)] #[allow(dead_code)] #[repr(\u00ab%s\u00bb)] %s" % (r, st))
    # pinned_drop
    s = "#[pin_project(PinnedDrop)] pub struct Foo<T> { #[pin] a: T, b: u8 }\n"
    head = "#[pinned_drop] impl<T> PinnedDrop for Foo<T> { %s }"
    for b in ("fn drop(\u00ab&mut self\u00bb) {}", "fn drop(\u00abself\u00bb) {}", "fn drop(\u00abself: &mut Self\u00bb) {}", "fn drop(\u00abself: Pin<&Self>\u00bb) {}", "fn drop(\u00abself: Pin<&mut T>\u00bb) {}", "fn drop(\u00abself: Pin<Box<Self>>\u00bb) {}", "fn drop\u00ab()\u00bb {}", "fn drop(\u00abself: Pin<&mut Self>, _: u8\u00bb) {}", "fn drop(\u00ab_: Pin<&mut Self>\u00bb) {}", "fn drop(self: Pin<&mut Self>) -> \u00abu8\u00bb { 0 }", "fn drop(self: Pin<&mut Self>) -> \u00abSelf\u00bb { loop {} }", "\u00abunsafe\u00bb fn drop(self: Pin<&mut Self>) {}", "fn \u00abdrop2\u00bb(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} \u00abfn drop(self: Pin<&mut Self>) {}\u00bb", "fn drop(self: Pin<&mut Self>) {} \u00abfn other(&self) {}\u00bb", "\u00abfn other(&self) {}\u00bb fn drop(self: Pin<&mut Self>) {}", "\u00abconst A: u8 = 0;\u00bb fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} \u00abconst A: u8 = 0;\u00bb", "\u00abtype A = u8;\u00bb", "fn drop(self: Pin<&mut Self>) {} \u00abtype A = u8;\u00bb", "\u00abmac!{}\u00bb fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} \u00abmac!{}\u00bb", "\u00abfn drop(self: Pin<&mut Self>);\u00bb"):
        m("drop/" + re.sub("[\u00ab\u00bb ]", "", b), s + head % b)
    ok = " { fn drop(self: Pin<&mut Self>) {} }"
    m("drop/empty", s + "#[pinned_drop] \u00abimpl<T> PinnedDrop for Foo<T> {}\u00bb")
    m("drop/unsafe", s + "#[pinned_drop] \u00abunsafe\u00bb impl<T> PinnedDrop for Foo<T>" + ok)
    m("drop/trait", s + "#[pinned_drop] impl<T> \u00abDrop\u00bb for Foo<T>" + ok)
    m("drop/trait-path", s + "#[pinned_drop] impl<T> \u00ab::pin_project::PinnedDrop\u00bb for Foo<T>" + ok)
    m("drop/inherent", s + "#[pinned_drop] impl<T> \u00abFoo<T>\u00bb" + ok)
    m("drop/ref", s + "#[pinned_drop] impl<T> PinnedDrop for \u00ab&mut Foo<T>\u00bb" + ok)
    m("drop/tuple", s + "#[pinned_drop] impl<T> PinnedDrop for \u00ab(Foo<T>,)\u00bb" + ok)
    m("drop/args", s + "#[pinned_drop(\u00abfoo\u00bb)] impl<T> PinnedDrop for Foo<T>" + ok)
    m("drop/args2", s + "#[pinned_drop(\u00abfoo = bar\u00bb)] impl<T> PinnedDrop for Foo<T>" + ok)
    m("drop/twice", s + "#[pinned_drop] \u00ab#[pinned_drop]\u00bb impl<T> PinnedDrop for Foo<T>" + ok)
    for it in ("fn f() {}", "struct X(u8);", "trait T {}", "mod x {}", "const X: u8 = 0;"):
        m("drop-item/" + it.replace(" ", ""), "#[pinned_drop] \u00ab%s\u00bb" % it)
    # impls that contradict the attribute: the impl, or the attribute
    un = "\u00ab#[pin_project%s]\u00bb pub struct Foo<T> { #[pin] a: T, b: u8 }\n"
    for a in ("", "(!Unpin)", "(UnsafeUnpin)", "(project = P)"):
        m("impl-unpin" + a, un % a + "\u00abimpl<T> Unpin for Foo<T> {}\u00bb")
        m("impl-drop" + a, un % a + "\u00abimpl<T> Drop for Foo<T> { fn drop(&mut self) {} }\u00bb")
        m("impl-pinned-drop" + a, un % a + "\u00ab#[pinned_drop] impl<T> PinnedDrop for Foo<T> { fn drop(self: Pin<&mut Self>) {} }\u00bb")
        if a != "(UnsafeUnpin)":
            m("impl-unsafe-unpin" + a, un % a + "\u00abunsafe impl<T> UnsafeUnpin for Foo<T> {}\u00bb")
    m("no-pinned-drop", "#[pin_project(\u00abPinnedDrop\u00bb)] " + st)
    m("no-pinned-drop2", "#[pin_project(project = P, \u00abPinnedDrop\u00bb)] " + en)
    m("impl-drop-too", "#[pin_project(\u00abPinnedDrop\u00bb)] pub struct Foo<T> { #[pin] a: T, b: u8 }\n#[pinned_drop] impl<T> PinnedDrop for Foo<T>%s\n\u00abimpl<T> Drop for Foo<T> { fn drop(&mut self) {} }\u00bb" % ok)
    # attributes that appear only after conditions are resolved
    for it in (st, en, tu):
        for x in ("pin", "pin()", "pin(x)", "pin = 1", "pin(__private())", "pin_project", "pin_project()", "pin_project(!Unpin)"):
            m("late/" + x, "#[pin_project(project = P9)] \u00ab#[cfg_attr(all(), %s)]\u00bb %s" % (x, it))
            m("late2/" + x, "#[pin_project] #[repr(C)] \u00ab#[cfg_attr(all(), allow(dead_code), %s)]\u00bb %s" % (x, it))
    for x in ("packed", "C, packed", "packed(2)", "packed, C"):
        m("late-packed", "#[pin_project] \u00ab#[cfg_attr(all(), repr(%s))]\u00bb %s" % (x, st))
    for x in ("pin", "pin()", "pin(x)", "pin = 1"):
        m("late-field/" + x, "#[pin_project] pub struct Foo<T>(#[pin] \u00ab#[cfg_attr(all(), %s)]\u00bb pub T);" % x)
        m("late-variant/" + x, "#[pin_project] pub enum Foo<T> { X, \u00ab#[cfg_attr(all(), %s)]\u00bb A(#[pin] T) }" % x)
    return out


def root(sp):
    while sp.get("expansion"):
        sp = sp["expansion"]["span"]
    return sp


def c24(run):
    ms = marked()
    cx = run.ctx()
    head = "#![allow(warnings)]\nuse ::pin_project::*; use ::core::pin::Pin; macro_rules! mac { () => {} }\n"

    def one(x):
        key, src = x
        txt = head + src
        regs, out, st = [], bytearray(), None
        for c in txt:
            if c == "\u00ab":
                st = len(out)
            elif c == "\u00bb":
                regs.append((st, len(out)))
            else:
                out += c.encode()
        return regs, C.rustc(cx, out.decode())

    for (key, src), (regs, r) in zip(ms, C.pool(one, ms)):
        plain = re.sub("[\u00ab\u00bb]", "", src)
        run.rep.count("misuse programs")
        run.unit(plain)
        if r.ok:
            run.bad("C24/accepted/" + key, "a misuse is not diagnosed: " + src, plain)
            continue
        errs = [d for d in r.diags if d.get("level") == "error" and d.get("spans")]
        hit = False
        for d in errs:
            if re.search(r"\bpanicked\b", d["message"]):
                run.bad("C24/panic/" + key, "a macro panics: " + src, plain)
            for sp in d["spans"]:
                if sp["is_primary"]:
                    q = root(sp)
                    run.rep.count("error positions")
                    if any(a <= q["byte_start"] and q["byte_end"] <= b for a, b in regs):
                        hit = True
        if not hit:
            at = [(d["message"][:80], (lambda q: q["text"][0]["text"][q["column_start"] - 1:q["column_end"] - 1] if q["text"] else "?")(root(d["spans"][0]))) for d in errs[:2]]
            run.bad("C24/position/" + key, "no error points at the construct at fault (between \u00ab and \u00bb): %s; errors: %s" % (src, at), plain)
        else:
            run.rep.sample({"program": src[:300], "verdict": errs[0]["message"][:120], "rule": "an error lies between the marks"}, 4)
    progs = soup(run.seed, 12000 if run.thorough else 3000)
    extra = [re.sub("[\u00ab\u00bb]", "", s) for _, s in ms]
    for f in (cases.c14,):
        extra += [c.src for c in f() if not c.accept and not c.externs and not c.flags and "extern crate" not in c.src]
    for p in progs + extra:
        run.rep.count("programs tried for panics")
        run.unit(p)
    for p, msg in panics(run, progs) + panics(run, extra):
        run.bad("C24/panic", "a macro panics (%s): %s" % (msg, p), p)
