"""Witnesses and rules of C09, C17, C18, C19, C21, C22 and C23."""
import itertools
import re
from dataclasses import replace as dc_replace

from . import build, compile as C, corpus, decl, facts, interp as I, rules, rules2
from .cases import K, acc, rej
from .decl import D, F, P, V


DEBUG = False


# ---------------------------------------------------------------- C09
def canon(m, f, root):
    """MIR of a function up to names and numbers of locals and blocks, chains of gotos, source
    positions and the function's own path; None without a body."""
    b = f.get("body")
    if not b:
        return None
    return canon_body(m, b, root) + "".join(" promoted " + canon_body(m, p, root) for p in b.get("promoted", ()))


def canon_body(m, b, root):
    locs, blks = {i: i for i in range(b["argc"] + 1)}, {}
    out = []

    def loc(i):
        return locs.setdefault(i, "l%d" % len(locs))

    def text(x):
        s = x.replace(root, "@")
        if "::" in root:
            s = s.replace(root.split("::", 1)[1], "@")
        s = rules2.norm(m, s)
        s = re.sub(r"closure@[^}\s>,]*(?::\s*\d+:\d+)?[^}\s>,]*", "closure", s)
        s = re.sub(r"coroutine@[^}\s>,]*|async block@[^}\s>,]*", "coroutine", s)
        return re.sub(r"/[^\s\"']*\.rs:\d+:\d+(: \d+:\d+)?", "", s)

    def go(x):
        if isinstance(x, dict):
            if "const" in x and ("def" in x or "static" in x):
                x = {k: v for k, v in x.items() if k != "const"}
            elif "const" in x and x["const"].startswith('"'):
                # stringified tokens show the receiver's internal name
                x = dict(x, const=re.sub(r"\b__self\b", "self", x["const"]))
            return {k: (loc(v) if k == "ix" else go(v)) for k, v in x.items() if k not in ("sp", "name", "span", "crate", "cleanup")}
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                return ["place", loc(x[0]), go(x[1])]
            return [go(v) for v in x]
        return text(x) if isinstance(x, str) else x

    preds = {}
    for blk in b["blocks"]:
        for s in succs(blk["t"]):
            preds[s] = preds.get(s, 0) + 1

    def final(n):
        seen = set()
        while n not in seen:
            seen.add(n)
            blk = b["blocks"][n]
            if blk["s"] or blk["t"]["k"] != "goto":
                break
            n = blk["t"]["t"]
        return n

    work = [0]
    done = set()

    def ref(n):
        if not isinstance(n, int):
            return n
        n = final(n)
        if n not in blks:
            blks[n] = len(blks)
            work.append(n)
        return "b%d" % blks[n]

    blks[0] = 0
    while work:
        n = work.pop(0)
        if n in done:
            continue
        done.add(n)
        seq = []
        while True:
            blk = b["blocks"][n]
            seq += [go(s) for s in blk["s"]]
            t = blk["t"]
            nx = final(t["t"]) if t["k"] == "goto" else None
            if nx is not None and preds.get(nx, 0) == 1 and nx not in blks:
                n = nx
                continue
            break
        tt = go({k: v for k, v in t.items() if k not in ("t", "u", "targets", "otherwise")})
        if "t" in t:
            tt["t"] = ref(t["t"])
        if "u" in t:
            tt["u"] = ref(t["u"])
        if t["k"] == "switch":
            tt["targets"] = [[v, ref(x)] for v, x in t["targets"]]
            tt["otherwise"] = ref(t["otherwise"])
        out.append((blks[n] if n in blks else None, seq, tt))
    used = [go(b["locals"][i]["ty"]) for i in sorted(locs, key=lambda i: (isinstance(locs[i], str), int(str(locs[i]).lstrip("l"))))]
    return str((b["argc"], used, [(s, t) for _, s, t in out]))


def succs(t):
    s = []
    for k in ("t", "u"):
        if isinstance(t.get(k), int):
            s.append(t[k])
    if t["k"] == "switch":
        s += [x[1] for x in t["targets"]] + [t["otherwise"]]
    return s


SHAPES = {
    "generic": ("<'a, T: Tr, const N: usize>", "<'a, T, N>", "where T: 'a", "pub struct Foo<'a, T: Tr, const N: usize> where T: 'a { #[pin] pub a: T, pub b: &'a [u8; N], pub c: u32 }"),
    "tuple": ("", "", "", "pub struct Foo(#[pin] pub u8, pub ::std::string::String, pub u32);"),
    "gtuple": ("<T: Tr>", "<T>", "", "pub struct Foo<T: Tr>(#[pin] pub T, pub ::std::string::String, pub u32);"),
    "enum": ("<T: Tr>", "<T>", "", "#[allow(dead_code)] pub enum Foo<T: Tr> { A(#[pin] T, u32), B { x: u32 }, C }"),
    "unsized": ("<T: ?Sized + Tr>", "<T>", "", "pub struct Foo<T: ?Sized + Tr> { pub c: u32, #[pin] pub a: T }"),
}

C09_PRE = """use ::pin_project::{pin_project, pinned_drop};
use ::core::pin::Pin;
pub trait Tr { const C: u32; type Out: ?Sized; fn tf() -> u32 where Self: Sized { 1 } fn tm(&self) -> u32 { 2 } }
impl Tr for u8 { const C: u32 = 8; type Out = u16; }
pub fn eff<X>(_: X) {}
pub mod deep { pub fn eff2<X>(_: X) {} pub const DC: u32 = 3; }
macro_rules! through { ($e:expr) => { $e } }
macro_rules! twice { ($($t:tt)*) => { { $($t)* } { $($t)* } } }
macro_rules! field { ($s:ident . $f:tt) => { $s.$f } }
macro_rules! selfty { ($t:ty) => { ::core::mem::size_of::<$t>() } }
"""
ASSOC = """impl%(g)s Foo%(a)s %(w)s { pub const K: u32 = 5; pub fn assoc() -> u32 { 1 } pub fn gen<X>(x: X) -> X { x } pub fn byref(&self) -> u32 { 2 } pub fn pinref(self: Pin<&Self>) -> u32 { 3 } pub fn pinmut(self: Pin<&mut Self>) -> u32 { 4 } }
impl%(g)s Tr for Foo%(a)s %(w)s { const C: u32 = 9; type Out = u8; }
"""

# (key, mut self?, body, shapes, must be accepted)
BODIES = [
    ("empty", 0, "", "all", 1),
    ("effect", 0, "eff(1u8);", "all", 1),
    ("field", 0, "eff(self.c);", "generic unsized", 1),
    ("field-tuple", 0, "eff(self.2); eff(self.0);", "tuple", 1),
    ("project", 0, "let this = self.project(); eff(this.c);", "generic unsized", 1),
    ("project-t", 0, "let this = self.project(); *this.2 += 1; eff(this.0);", "tuple", 1),
    ("project-mut", 1, "*self.as_mut().project().c = 3; eff(self.c);", "generic unsized", 1),
    ("project-ref", 0, "let r = self.as_ref().project_ref(); eff(*r.c);", "generic unsized", 1),
    ("order", 1, "eff(1u8); *self.as_mut().project().c += 1; eff(2u16); let x = self.c; eff(x); eff(self.as_mut().pinmut());", "generic", 1),
    ("ret", 0, "if self.c > 3 { eff(1u8); return; } eff(2u8);", "generic unsized", 1),
    ("ret-expr", 0, "return eff(self.byref());", "generic tuple enum unsized", 1),
    ("tail", 0, "eff(self.byref())", "all", 1),
    ("self-const", 0, "eff(Self::K);", "all", 1),
    ("self-assoc", 0, "eff(Self::assoc());", "all", 1),
    ("self-gen", 0, "eff(Self::gen::<u8>(3)); eff(Self::gen(4u16));", "all", 1),
    ("self-path", 0, "let f = Self::assoc; eff(f()); let g: fn(u8) -> u8 = Self::gen::<u8>; eff(g(1));", "all", 1),
    ("self-method-path", 0, "eff(Self::byref(&self)); eff(Self::pinref(self.as_ref()));", "all", 1),
    ("self-method-mut", 0, "eff(Self::pinmut(self));", "all", 1),
    ("trait-const", 0, "eff(<Self as Tr>::C); eff(<Self>::C); eff(Self::C);", "all", 1),
    ("trait-fn", 0, "eff(<Self as Tr>::tm(&self)); eff(self.tm());", "all", 1),
    ("trait-fn2", 0, "eff(<Self as Tr>::tf()); eff(Self::tf());", "generic tuple enum", 1),
    ("trait-type", 0, "let x: <Self as Tr>::Out = 3; eff(x);", "all", 1),
    ("param-const", 0, "eff(T::C); eff(<T as Tr>::C); eff(N);", "generic", 1),
    ("param-fn", 0, "eff(T::tf()); eff(self.a.tm());", "generic", 1),
    ("size", 0, "eff(::core::mem::size_of::<Self>());", "generic tuple enum", 1),
    ("vec", 0, "let v: ::std::vec::Vec<Self> = ::std::vec::Vec::new(); eff(v.len()); let w = ::std::vec::Vec::<Self>::new(); eff(w.len());", "generic tuple enum", 1),
    ("option", 0, "let v: Option<&Self> = None; eff(v.is_some()); let o = None::<Self>; eff(o.is_none());", "generic tuple enum", 1),
    ("fnptr", 0, "let f: fn(Pin<&mut Self>) -> u32 = Self::pinmut; eff(f(self));", "all", 1),
    ("cast", 0, "let p = &*self as *const Self; eff(p.is_null());", "generic tuple enum", 1),
    ("turbofish", 0, "eff::<Option<&Self>>(None); eff::<Pin<&mut Self>>(self);", "all", 1),
    ("closure", 1, "let mut f = |x: u32| { *self.as_mut().project().c = x; }; f(1); f(2);", "generic", 1),
    ("closure-ref", 0, "let f = || self.c + Self::K; eff(f());", "generic unsized", 1),
    ("closure-move", 0, "let f = move || { let s = self; eff(s.c); }; f();", "generic", 1),
    ("closure-nested", 0, "let f = |x| { let g = |y| self.c + x + y; g(1) }; eff(f(2));", "generic", 1),
    ("closure-ty", 0, "let f = |x: &Self| -> u32 { x.c }; eff(f(&self));", "generic", 1),
    ("pat-struct", 0, "let Self { b, c, .. } = &*self; eff((b, c));", "generic", 1),
    ("pat-tuple", 0, "let Self(a, _, c) = &*self; eff((a, c));", "tuple", 1),
    ("pat-enum", 0, "match &*self { Self::A(_, n) => eff(n), Self::B { x } => eff(x), Self::C => eff(0u8) }", "enum", 1),
    ("pat-iflet", 0, "if let Self::B { x } = &*self { eff(x); } else { eff(1u8); }", "enum", 1),
    ("pat-range", 0, "match self.c { Self::K => eff(1u8), 0..=3 => eff(2u8), _ => {} }", "generic unsized", 1),
    ("pat-matches", 0, "eff(matches!(&*self, Self::C)); eff(matches!(&*self, Self::A(..) | Self::B { .. }));", "enum", 0),
    ("ctor-enum", 0, "let x: Self = Self::C; eff(x); let y = Self::B { x: 3 }; eff(y);", "enum", 1),
    ("ctor-fn", 0, "let f = Self::A; eff(f as fn(T, u32) -> Self);", "enum", 1),
    ("ctor-tuple", 0, "let x = Self(1, ::std::string::String::new(), 3); eff(x);", "tuple", 1),
    ("ctor-tuple-fn", 0, "let f = Self; eff(f(1, ::std::string::String::new(), 3));", "tuple", 1),
    ("update", 0, "let x = Self { c: 4, a: loop {}, b: self.b }; eff(x);", "generic", 1),
    ("loop", 1, "for i in 0..3u32 { *self.as_mut().project().c += i; } while self.c > 0 { *self.as_mut().project().c -= 1; }", "generic", 1),
    ("label", 1, "'outer: loop { loop { if self.c > 3 { break 'outer; } *self.as_mut().project().c += 1; } }", "generic", 1),
    ("block-value", 0, "let x = { let y = self.c; y + 1 }; eff(x);", "generic", 1),
    ("match-guard", 0, "match self.c { n if n > Self::K => eff(n), _ => eff(0u32) }", "generic", 1),
    ("index", 0, "eff(self.b[self.c as usize]); eff(&self.b[..]);", "generic", 1),
    ("arith", 0, "let mut x = self.c; x += 1; x = x * 2 - Self::K; eff(!x); eff(-(x as i32));", "generic", 1),
    ("ref", 0, "let r = &self; eff(r.c); let rr = &*self; eff(rr.c);", "generic", 1),
    ("unsafe", 1, "let p = unsafe { self.as_mut().get_unchecked_mut() }; p.c = 4; eff(p.c);", "generic", 1),
    ("string", 0, "eff(\"self\"); eff(\"Self::K\"); eff('s');", "all", 1),
    ("raw-str", 0, "eff(r#\"self.c\"#); eff(b\"self\");", "all", 1),
    ("const-array", 0, "let x = [Self::K; 3]; eff(x); let y = [0u8; 4]; eff(y);", "tuple", 1),
    ("item-fn", 0, "fn helper(x: u32) -> u32 { x + 1 } eff(helper(self.c));", "generic", 1),
    ("item-fn-gen", 0, "fn helper<X: Tr>(x: &X) -> u32 { x.tm() + X::C } eff(helper(&*self));", "generic enum tuple", 1),
    ("item-struct", 0, "struct L { c: u8 } impl L { fn new() -> Self { Self { c: 1 } } fn get(&self) -> u8 { self.c } } eff(L::new().get());", "all", 1),
    ("item-trait", 0, "trait Q { fn q(&self) -> u8; fn w() -> Self where Self: Sized; } impl Q for u8 { fn q(&self) -> u8 { *self } fn w() -> Self { 3 } } eff(3u8.q()); eff(u8::w());", "all", 1),
    ("item-enum", 0, "enum L { A(u8), B } impl L { fn f(self) -> u8 { match self { Self::A(x) => x, Self::B => 0 } } } eff(L::A(3).f()); eff(L::B.f());", "all", 1),
    ("item-const", 0, "const Q: u32 = 7; static S: u32 = 8; eff(Q); eff(S + Q);", "all", 1),
    ("item-use", 0, "use super::deep; ", "none", 1),
    ("item-guard", 0, "struct G(u8); impl Drop for G { fn drop(&mut self) { eff(self.0); } } let _g = G(1); let _ = G(2); eff(self.byref());", "all", 1),
    ("item-mod", 0, "mod inner { pub fn f() -> u8 { 1 } } eff(inner::f());", "all", 1),
    ("item-macro", 0, "macro_rules! loc { ($e:expr) => { eff($e) } } loc!(self.byref()); loc!(Self::K);", "all", 1),
    ("item-macro-self", 0, "macro_rules! lm { () => { 4u8 } } eff(lm!());", "all", 1),
    ("println", 0, "::std::println!(\"{} {}\", self.c, Self::K);", "generic unsized", 1),
    ("format", 0, "eff(::std::format!(\"{:?} {x}\", Self::assoc(), x = self.byref()));", "all", 1),
    ("assert", 0, "assert!(self.c < 100); assert_eq!(Self::K, 5, \"{}\", self.c);", "generic", 1),
    ("vec-mac", 0, "eff(::std::vec![Self::K; 3]); eff(::std::vec![self.byref(), Self::K]);", "all", 1),
    ("mac-expr", 0, "eff(through!(self.byref())); eff(through!(Self::K)); eff(through!(Self::assoc()));", "all", 1),
    ("mac-twice", 0, "twice!(eff(self.byref()); eff(Self::K););", "all", 1),
    ("mac-field", 0, "eff(field!(self.c));", "generic unsized", 1),
    ("mac-ty", 0, "eff(selfty!(Self)); eff(selfty!(Option<Self>)); eff(selfty!(<Self as Tr>::Out));", "generic tuple", 1),
    ("mac-stmt", 0, "through! { eff(self.byref()) } through!{{ let x = Self::K; eff(x) }};", "all", 1),
    ("eprint", 0, "::std::eprint!(\"{}\", self.byref() + Self::K);", "all", 1),
    ("concat", 0, "eff(concat!(\"a\", 1)); eff(stringify!(abc)); eff(module_path!());", "all", 1),
    ("async", 0, "let f = async { 1u8 }; eff(f);", "tuple", 1),
    ("async-self", 0, "let f = async move { self.byref() }; eff(f);", "tuple enum", 1),
    ("lifetime", 0, "let x: &'a [u8; N] = self.b; eff(x); let y: &'a u8 = &x[0]; eff(y);", "generic", 1),
    ("question", 0, "let f = || -> Option<u32> { let x = Some(self.c)?; Some(x) }; eff(f());", "generic", 1),
    ("let-else", 0, "let Some(x) = Some(self.byref()) else { return }; eff(x);", "all", 1),
    ("let-type", 1, "let this: Pin<&mut Self> = self.as_mut(); eff(this.byref());", "all", 1),
    ("shadow", 0, "let this = self; let c = this.byref(); let c = c + 1; eff(c);", "all", 1),
    ("drop-fn", 0, "drop(self);", "all", 1),
    ("drop-temp", 0, "let x = ::std::string::String::new(); drop(x); let y = ::std::boxed::Box::new(1); eff(self.byref());", "all", 1),
    ("attr-stmt", 0, "#[allow(unused_variables)] let x = self.byref(); #[cfg(any())] eff(1u8); #[cfg(not(any()))] eff(2u8);", "all", 1),
    ("attr-arm", 0, "match self.byref() { #[cfg(any())] 0 => eff(0u8), 1 => eff(1u8), _ => {} }", "all", 1),
    ("unsafe-fn-block", 0, "unsafe { eff(core::ptr::read(&self.c)) };", "generic", 1),
    ("panic", 0, "if self.byref() > 100 { panic!(\"x{}\", self.byref()); }", "all", 1),
    ("crate-path", 0, "eff(core::mem::align_of::<u32>()); eff(self::deep::DC); eff(crate::outer::STATIC);", "all", 1),
    ("super-path", 0, "eff(super::STATIC);", "all", 1),
    ("deep", 0, "deep::eff2(self.byref()); { use self::deep::*; eff2(DC); }", "all", 1),
    ("ident-like", 0, "let self_ = self.byref(); let selfie = 1u8; let Self_ = 2u8; eff((self_, selfie, Self_));", "all", 1),
    ("field-named", 0, "struct L { selfs: u8 } let l = L { selfs: 1 }; eff(l.selfs);", "all", 1),
    ("method-named", 0, "eff(self.byref().wrapping_add(1).max(Self::K));", "all", 1),
    ("range", 0, "eff(..self.byref()); eff(0..=Self::K);", "all", 1),
    ("tuple-expr", 0, "let (a, b) = (self.byref(), Self::K); eff((a, (b, a)));", "all", 1),
    ("if-chain", 0, "if self.byref() == 1 { eff(1u8) } else if Self::K == 5 { eff(2u8) } else { eff(3u8) }", "all", 1),
    ("dyn", 0, "let f: &dyn Fn() -> u32 = &|| self.byref(); eff(f());", "all", 1),
    ("impl-args", 0, "fn h(x: impl Fn() -> u32) -> u32 { x() } eff(h(|| self.byref()));", "all", 1),
    ("const-generic-use", 0, "let x: [u8; N] = [0; N]; eff(x);", "generic", 1),
    ("inline-const", 0, "let x = const { 3 + 4 }; eff(x);", "all", 1),
    ("qself-nested", 0, "let x: Option<<<Self as Tr>::Out as ToOwnedLike>::O> = None; trait ToOwnedLike { type O; } impl ToOwnedLike for u8 { type O = u16; } eff(x);", "tuple", 1),
    ("where-like", 0, "fn is<X: ?Sized>() -> u8 { 1 } eff(is::<Self>()); eff(is::<dyn Fn(&Self)>()); eff(is::<[Self; 2]>()); eff(is::<(Self, Self)>()); eff(is::<&'static str>()); eff(is::<*const Self>()); eff(is::<fn(Self) -> Self>());", "tuple", 1),
    # programs that may be rejected, but must not silently mean something else
    ("local-__self", 0, "let __self = 1u32; eff(self.byref()); eff(__self);", "all", 1),
    ("local-__self-same", 1, "let mut keep = 5u32; { let __self = &mut keep; eff(__self); } let __self = (); eff(self.byref());", "all", 0),
    ("shadow-self-type", 0, "struct Foo; eff(::core::mem::size_of::<Self>());", "generic tuple enum", 0),
    ("shadow-self-type-const", 0, "struct Foo; impl Foo { const K: u32 = 77; } eff(Self::K);", "tuple", 0),
    ("shadow-param", 0, "struct T; impl Tr for T { const C: u32 = 1; type Out = u8; } eff(<Self as Tr>::C);", "enum", 0),
    ("shadow-trait", 0, "trait Tr { const C: u32; } eff(self.tm());", "all", 0),
    ("local-drop_inner", 0, "fn __drop_inner() -> u8 { 4 } eff(__drop_inner());", "all", 0),
    ("outer-drop_inner", 0, "eff(__drop_inner());", "outer", 0),
    ("nested-self-fn", 0, "struct L; impl L { fn f(&self) -> usize { ::core::mem::size_of::<Self>() } } eff(L.f());", "all", 1),
    ("mac-def-self", 0, "macro_rules! k { () => { Self::K } } eff(k!());", "all", 0),
    ("mac-def-self2", 0, "macro_rules! k { ($s:ident) => { $s.byref() } } eff(k!(self));", "all", 1),
    ("mac-impl", 0, "macro_rules! im { ($t:ident) => { struct $t; impl $t { fn n(&self) -> usize { ::core::mem::size_of::<Self>() } } } } im!(Z); eff(Z.n());", "all", 0),
    ("mac-impl-args", 0, "macro_rules! items { ($($i:item)*) => { $($i)* } } items! { struct Z2(u8); impl Z2 { fn n(&self) -> u8 { self.0 } fn mk() -> Self { Self(1) } } } eff(Z2::mk().n());", "all", 0),
    ("fmt-inline", 0, "let x = self.byref(); eff(::std::format!(\"{x}\"));", "all", 1),
    ("fmt-inline-self", 0, "eff(::std::format!(\"{self:p}\"));", "all", 0),
    ("thread-local", 0, "::std::thread_local!(static TL: u8 = 1); TL.with(|x| eff(x));", "all", 1),
    ("qself-path", 0, "eff(<Self>::assoc()); eff(<Self>::K);", "all", 1),
    ("generic-struct-lit", 0, "let _f = |c: u32, a: T, b: &'a [u8; N]| Self { a, b, c };", "generic", 1),
    ("let-self-pat", 0, "let f = |s: &Self| { let Self { c, .. } = s; *c }; eff(f(&self));", "generic", 1),
    ("match-ref", 0, "match *self { Self { c: Self::K, .. } => eff(1u8), Self { ref b, .. } => eff(b) }", "generic", 1),
    ("assoc-in-array-len", 0, "let x = [0u8; Self::K as usize]; eff(x);", "tuple", 1),
    ("return-ty-closure", 0, "let f = || -> Option<Self> { None }; eff(f().is_none());", "generic tuple enum", 1),
    ("self-in-attr", 0, "#[doc = \"self Self\"] let x = 1u8; eff(x);", "all", 1),
    ("paren", 0, "(self).byref(); ((self.as_ref())).pinref();", "all", 1),
    ("chain", 0, "self.as_ref().get_ref().byref().checked_add(Self::K).map(|x| x + Self::C).map(eff);", "all", 1),
]


# every kind of expression as a statement, and every kind of statement
G9 = "struct Gd(u8); impl Drop for Gd { fn drop(&mut self) { eff(self.0); } } "
STMTS = [
    ("path", "let x = Gd(1); x; eff(2u8);"), ("path-qualified", "eff(0u8); Self::K; eff(1u8);"), ("block", "{ let x = Gd(1); } eff(2u8);"),
    ("block-label", "'l: { if self.byref() > 1 { break 'l; } eff(3u8); } eff(4u8);"), ("unsafe-block", "unsafe { eff(1u8); } eff(2u8);"), ("const-block", "const { assert!(1 + 1 == 2) }; eff(1u8);"),
    ("tuple", "(Gd(1), Gd(2)); eff(3u8);"), ("array", "[Gd(1), Gd(2)]; eff(3u8);"), ("repeat", "[const { Gd(1) }; 2]; eff(3u8);"), ("struct", "struct L { a: Gd } L { a: Gd(1) }; eff(2u8);"),
    ("struct-rest", "struct L { a: Gd, b: Gd } let l = L { a: Gd(1), b: Gd(2) }; L { a: Gd(3), ..l }; eff(4u8);"), ("call", "Gd(1); eff(2u8);"), ("method", "self.byref(); eff(1u8);"), ("field", "let t = (Gd(1), Gd(2)); t.0; eff(3u8);"),
    ("index", "let a = [1u8, 2]; a[self.byref() as usize]; eff(3u8);"), ("range", "Gd(1)..Gd(2); eff(3u8);"), ("range-full", "..; eff(1u8);"), ("ref", "&Gd(1); &mut Gd(2); eff(3u8);"), ("raw-ref", "let mut x = 1u8; &raw const x; &raw mut x; eff(3u8);"),
    ("deref", "let b = ::std::boxed::Box::new(Gd(1)); *b; eff(2u8);"), ("neg", "-(self.byref() as i32); !self.byref(); eff(1u8);"), ("binary", "self.byref() + 1; eff(1u8);"), ("lazy", "self.byref() > 1 && { eff(1u8); true }; self.byref() > 2 || { eff(2u8); true }; eff(3u8);"),
    ("assign", "let x; x = Gd(1); let mut y = Gd(2); y = x; eff(3u8);"), ("assign-op", "let mut x = 1u32; x += self.byref(); x <<= 2; x ^= Self::K; x %= 7; eff(x);"), ("destructure", "let (a, b); (a, b) = (self.byref(), Self::K); [_, _] = [a, b]; (_, ..) = (a, b, 1u8); eff((a, b));"), ("underscore", "_ = Gd(1); eff(2u8);"),
    ("cast", "self.byref() as u8; eff(1u8);"), ("if", "if self.byref() > 1 { eff(1u8); } eff(2u8);"), ("if-let", "if let Some(x) = Some(Gd(1)) { eff(x); } else { eff(2u8); } eff(3u8);"), ("match", "match self.byref() { 1 | 2 => eff(1u8), x @ 3..=9 => eff(x), x if x == Self::K => {} _ => eff(2u8) } eff(3u8);"),
    ("match-empty", "let f = |x: ::core::convert::Infallible| match x {}; if false { f(loop {}); } eff(3u8);"), ("loop", "loop { if self.byref() > 1 { break; } else { continue; } } eff(2u8);"), ("loop-break", "let x = loop { break Gd(4); }; eff(x);"), ("while", "while self.byref() > 3 { eff(1u8); } eff(2u8);"),
    ("while-let", "let mut o = Some(3u8); while let Some(x) = o { eff(x); o = x.checked_sub(1); } eff(2u8);"), ("for", "for i in [Gd(1), Gd(2)] { eff(i); } eff(3u8);"), ("for-label", "'a: for i in 0..3u32 { for j in 0..3u32 { if i == j { continue 'a; } if j == self.byref() { break 'a; } eff((i, j)); } }"),
    ("closure", "|| eff(Gd(1)); eff(2u8);"), ("closure-call", "(|| eff(self.byref()))(); (move |x: u8| eff(x))(3); eff(2u8);"), ("async", "async { eff(Gd(1)) }; eff(2u8);"), ("paren", "(Gd(1)); ((eff(2u8))); eff(3u8);"), ("literal", "1; \"s\"; 'c'; b'x'; 1.5; true; b\"s\"; eff(1u8);"),
    ("try", "let f = || -> ::core::result::Result<u8, Gd> { ::core::result::Result::<u8, Gd>::Err(Gd(1))?; Ok(1) }; eff(f());"), ("return", "if self.byref() > 1 { return; } eff(1u8); return eff(2u8);"), ("return-unit", "return (); "), ("macro", "eff!(); eff(1u8);"), ("macro-brace", "through! { eff(1u8) } through! { eff(2u8) }; eff(3u8);"), ("macro-bracket", "through![eff(self.byref())]; eff(through![Self::K]);"),
    ("let-else", "let ::core::option::Option::Some(g) = Some(Gd(1)) else { eff(9u8); return; }; eff(2u8); eff(g);"), ("let-nothing", "let _x; if self.byref() > 1 { _x = Gd(1); } eff(2u8);"), ("let-underscore", "let _ = Gd(1); eff(2u8); let _y = Gd(3); eff(4u8);"), ("let-pat", "let (a, ref b) = (Gd(1), Gd(2)); eff(a); eff(b); let [x, .., y] = [1u8, 2, 3]; eff((x, y));"), ("let-typed", "let x: u64 = 5; let y: &dyn ::core::any::Any = &x; eff(y.is::<u64>());"),
    ("empty", ";;; eff(1u8);;"), ("item-order", "eff(h()); fn h() -> u8 { 1 } eff(2u8); const Q: u8 = 3; eff(Q);"), ("item-impl", "eff(L.g()); struct L; impl L { fn g(&self) -> u8 { 4 } } eff(2u8);"), ("item-union", "union Un { a: u8, b: i8 } let u = Un { a: 1 }; eff(unsafe { u.b });"), ("item-alias", "type Al = u8; eff(Al::MAX); type Ga<X> = Option<X>; eff(Ga::<u8>::None);"), ("item-extern", "extern crate core as kore; eff(kore::mem::size_of::<u8>());"), ("item-extern-fn", "extern \"C\" { fn abs(x: i32) -> i32; } eff(unsafe { abs(-1) });"), ("item-static-mut", "static mut ST: u8 = 0; unsafe { ST = 1; } eff(2u8);"),
    ("item-use", "use ::core::mem::size_of as so; eff(so::<u8>()); use ::core::{mem, cmp::{self, *}}; eff(mem::align_of::<u8>()); eff(max(1u8, cmp::min(2, 3)));"), ("attr-block", "#[allow(unused)] { eff(1u8); } #[cfg(any())] { eff(2u8); } #[cfg(all())] { eff(3u8); }"), ("attr-item", "#[cfg(any())] fn z() -> u8 { 1 } #[cfg(all())] fn z() -> u8 { 2 } eff(z());"), ("attr-inner", "let x = { 1u8 }; eff(x);"), ("drop-order", "let a = Gd(1); let b = Gd(2); eff(self.byref()); let c = Gd(3);"), ("temporaries", "eff(&Gd(1)); match Gd(2).0 { x => eff(x) } eff(3u8);"), ("tail-temp", "eff(&Gd(1))"), ("tail-if", "if self.byref() > 1 { eff(1u8) } else { eff(2u8) }"), ("tail-match", "match self.byref() { 0 => eff(1u8), _ => eff(2u8) }"), ("tail-block", "{ eff(1u8) }"), ("tail-loop", "loop { if self.byref() > 1 { break } }"), ("tail-return", "return"), ("tail-macro", "through!(eff(self.byref()))"), ("tail-closure", "(|| eff(self.byref()))()"), ("tail-unsafe", "unsafe { eff(1u8) }"), ("tail-panic", "panic!(\"{}\", self.byref())"), ("tail-unit", "eff(1u8); ()"), ("tail-never", "loop {}"),
    ("nested-self", "fn inner() { struct Q(u8); impl Q { fn a(self) -> Self { let s = self; Self(s.0) } fn b(&mut self) { *self = Self(2); } fn c(self: ::std::boxed::Box<Self>) -> Self { *self } } let mut q = Q(1).a(); q.b(); eff(::std::boxed::Box::new(q).c().0); } inner();"),
    ("nested-trait-self", "trait Z { const N: u8; type O; fn f(&self) -> Self::O; fn g() -> u8 { Self::N } } impl Z for u8 { const N: u8 = 1; type O = Self; fn f(&self) -> Self::O { *self + Self::N } } eff(4u8.f()); eff(<u8 as Z>::g());"),
    ("closure-self-arg", "let f = |this: Pin<&mut Self>| { eff(this.byref()); }; f(self);"), ("closure-capture-self", "let f = || { let g = || self.byref(); g() + Self::K }; eff(f()); eff(f());"), ("shadow-names", "let this = 1u8; let __this = 2u8; let _self = 3u8; let s = self.byref(); eff((this, __this, _self, s));"), ("generic-call", "eff::<u8>(1); eff::<fn() -> u32>(Self::assoc); eff::<Option<<Self as Tr>::Out>>(None);"), ("method-turbofish", "eff([1u8].iter().map(|x| u32::from(*x)).sum::<u32>()); eff(\"1\".parse::<u8>().is_ok());"),
    ("string-macro", "eff(::std::format!(\"{0} {0:?} {1:>2$} {n}\", self.byref(), Self::K, 3usize, n = Self::assoc()));"), ("write-macro", "use ::std::fmt::Write as _; let mut s = ::std::string::String::new(); ::std::write!(s, \"{}\", self.byref()).unwrap(); ::std::writeln!(&mut s, \"{}\", Self::K).unwrap(); eff(s);"), ("assert-macros", "::std::assert!(self.byref() < 100, \"{}\", Self::K); ::std::assert_ne!(self.byref(), 77); ::std::debug_assert!(Self::K > 0, \"{}\", Self::K); ::std::debug_assert_eq!(Self::K, 5);"), ("nested-macros", "eff(::std::vec![through!(through!(self.byref())), ::std::vec![Self::K][0], { let q = through![[Self::K; 2]]; q[1] }]);"), ("matches", "eff(::core::matches!(self.byref(), 1 | 2)); eff(::core::matches!(Some(Self::K), Some(x) if x > self.byref()));"), ("todo", "if self.byref() > 100 { ::std::todo!() } if self.byref() > 101 { ::std::unimplemented!(\"{}\", Self::K) } if self.byref() > 102 { ::std::unreachable!() }"), ("line-macros", "eff(::core::cfg!(any())); eff(::core::option_env!(\"NOPE_NOPE\").is_some());"),
]
BODIES += [("stmt-" + k, 0, G9 + b, "tuple enum", 1) for k, b in STMTS if k != "macro"]


# newer syntax, and less common forms of known syntax
MORE = [
    ("c-str", "eff(c\"self\");", "all", 1), ("async-closure", "let f = async |x: u8| x; eff(f);", "tuple enum", 1), ("let-chain", "if let Some(x) = Some(self.byref()) && x > Self::K { eff(x); }", "all", 1),
    ("unsafe-extern", "unsafe extern \"C\" { safe fn abs(x: i32) -> i32; } eff(abs(1));", "all", 1), ("precise-capture", "fn h<'x>(x: &'x u8) -> impl Sized + use<'x> { x } eff(h(&1));", "tuple", 1),
    ("half-open", "match self.byref() { ..5 => {} 5.. => eff(1u8) }", "all", 1), ("range-pat-self", "match self.byref() { 0..=Self::K => eff(1u8), Self::K.. => eff(2u8) }", "all", 1), ("assoc-bounds", "fn h(x: impl Iterator<Item: Copy>) { eff(x); } h([1u8].into_iter());", "tuple", 1),
    ("literals", "eff(1_000u64); eff(0x1f_u8); eff(1e3f32); eff(b'\\x41'); eff(br##\"self\"##); eff('\\u{1f}'); eff(1.0e-3_f64);", "tuple", 1), ("label-value", "eff('l: { if self.byref() > 1 { break 'l Self::K; } self.byref() });", "all", 1),
    ("gen-self", "eff(Self::gen::<Option<&Self>>(None)); eff(Self::gen::<fn(Pin<&mut Self>) -> u32>(Self::pinmut)(self));", "all", 1), ("qself-array", "eff(<Option<&Self>>::None); eff(<[u8]>::len(&[1])); eff(<&Self as Into<&Self>>::into(&*self).byref());", "tuple enum generic", 1),
    ("index-fields-enum", "match &*self { Self::A { 1: x, .. } => eff(x), Self::B { x: Self::K } => eff(1u8), _ => {} } let f = |t: T| Self::A { 0: t, 1: 4 }; eff(f as fn(T) -> Self);", "enum", 1), ("index-fields-tuple", "let Self { 2: c, .. } = &*self; eff(c); let x = Self { 0: 1, 1: ::std::string::String::new(), 2: *c }; eff(x);", "tuple", 1),
    ("pat-bind", "match &*self { this @ Self { c: 0..=9, .. } => eff(this.c), Self { c: ref x @ Self::K, .. } => eff(x), &Self { c, .. } => eff(c) }", "generic", 1), ("pat-or", "match &*self { Self::A(_, x) | Self::B { x } if *x > Self::K => eff(x), (Self::C | Self::A(..)) => eff(1u8), _ => {} }", "enum", 1), ("pat-path-ref", "match &Some(&*self) { Some(&Self::C) => eff(1u8), None | Some(Self::B { .. }) => {} Some(_) => eff(2u8) }", "enum", 1), ("pat-let-ref", "let &Self(a, ref b, c) = &*self; eff((a, b, c));", "tuple", 1), ("pat-param", "let f = |&Self(a, _, _): &Self| a; eff(f(&self)); let g = |Self(_, s, _): &Self| s.len(); eff(g(&self));", "tuple", 1), ("pat-for", "for Self(a, ..) in [&*self] { eff(a); } while let Self(1, ..) = &*self { break }", "tuple", 1), ("pat-slice", "if let [Self(a, ..), ..] = ::core::slice::from_ref(&*self) { eff(a); }", "tuple", 1), ("pat-nested-tuple", "let (Self(a, ..), Self { 2: c, .. }) = (&*self, &*self); eff((a, c));", "tuple", 1),
    ("cast-chain", "eff(Self::assoc as fn() -> u32 as usize > 0); eff(self.byref() as u64 as u8);", "all", 1), ("return-value-closure", "let f = |x| { if x { return Self::K; } self.byref() }; eff(f(true));", "all", 1), ("closure-move-self", "let mut s = self; let mut f = move || { eff(s.as_mut().pinmut()); }; f(); f();", "all", 1), ("nested-async", "eff(async { async { 1u8 }.await }); eff(async move { let s = self; s.byref() });", "tuple enum", 1), ("array-of-self", "let a: [&Self; 1] = [&*self]; eff(a[0].byref()); let b: [Option<&Self>; Self::K as usize] = [None; 5]; eff(b.len());", "tuple", 1), ("dyn-tr1", "trait D { fn d(&self) -> u8; } impl<X: ?Sized> D for X { fn d(&self) -> u8 { 7 } } eff(D::d(&*self));", "tuple", 1), ("dyn-tr2", "trait D { fn d(&self) -> u8; } impl<X: ?Sized> D for X { fn d(&self) -> u8 { 7 } } eff(<Self as D>::d(&self));", "tuple", 1), ("dyn-any", "eff((&*self as &dyn ::core::any::Any).is::<Self>()); eff(::core::any::TypeId::of::<Self>());", "tuple", 1), ("assign-through", "let this = self.project(); *this.2 = { let x = Self::K; x + 1 }; this.1.clear();", "tuple", 1), ("method-on-path", "eff(Self::K.pow(2)); eff(Self::assoc().max(Self::K)); eff((Self::K, Self::C).0);", "all", 1), ("unary-self", "eff(!Self::K); eff(-(Self::K as i64)); eff(&Self::K); eff(*&Self::K);", "all", 1), ("const-in-block", "{ const Z: u32 = 1; eff(Z + Self::K); { let self_k = Self::K; eff(self_k); } }", "all", 1), ("type-in-where", "fn h<X>(x: X) -> X where X: Copy { x } eff(h::<Option<&Self>>(None).is_none()); eff(h::<*const Self>(&*self).is_null());", "tuple enum generic", 1), ("impl-fn", "fn h(f: impl Fn(&u8) -> u8, g: &mut dyn FnMut(u8)) { g(f(&1)); } h(|x| *x, &mut |y| eff(y));", "all", 1), ("hrtb-type", "let f: &dyn for<'x> Fn(&'x Self) -> &'x Self = &|x| x; eff(f(&self).byref());", "tuple enum", 1), ("trait-object-self", "let f: ::std::boxed::Box<dyn Fn(Pin<&mut Self>) -> u32> = ::std::boxed::Box::new(Self::pinmut); eff(f(self));", "all", 1),
    ("gctor", "let f = |t: T| Self(t, ::std::string::String::new(), 3); eff(f as fn(T) -> Self);", "gtuple", 1), ("gctor-fn", "eff(Self as fn(T, ::std::string::String, u32) -> Self); let f = Self; eff(f as fn(T, ::std::string::String, u32) -> Self);", "gtuple", 1), ("gctor-arg", "fn h<A, B>(f: impl FnOnce(A) -> B) { eff(f); } h(|t: T| Self(t, ::std::string::String::new(), Self::K)); eff([1u32].map(|x| x + Self::K));", "gtuple", 1), ("gctor-mac", "eff(through!(Self as fn(T, ::std::string::String, u32) -> Self));", "gtuple", 0), ("gctor-mac2", "let f = through!(|t| Self(t, ::std::string::String::new(), 3)); eff(f as fn(T) -> Self);", "gtuple", 0),
    ("gpat", "let Self(a, _, c) = &*self; eff((a, c)); if let Self(_, ref s, Self::K) = *self { eff(s); }", "gtuple", 1), ("gpat-param", "let f = |Self(_, s, _): &Self| s.len(); eff(f(&self));", "gtuple", 1), ("gpat-index", "let Self { 2: c, 0: a, .. } = &*self; eff((c, a)); let f = |t| Self { 0: t, 1: ::std::string::String::new(), 2: 4 }; eff(f as fn(T) -> Self);", "gtuple", 1), ("gfield", "eff(self.2); eff(self.0.tm()); let this = self.project(); *this.2 += 1; eff(this.0);", "gtuple", 1),
    # a macro call that contains `fn` may be rejected
    ("mac-fn-type", "eff(through!({ let f: fn() -> u32 = Self::assoc; f() }));", "all", 0), ("mac-fn-cast", "::std::assert!((Self::assoc as fn() -> u32)() == self.byref());", "all", 0), ("mac-fn-self", "twice!(fn q() -> u8 { 1 } eff(self.byref()); eff(q()););", "all", 0), ("mac-fn-only", "twice!(fn q(x: u8) -> u8 { x } eff(q(1)););", "all", 1), ("mac-struct-only", "twice!(struct Q(u8); impl Q { fn new() -> Self { Self(1) } fn get(self) -> u8 { self.0 } } eff(Q::new().get()););", "all", 1),
]
BODIES += [("more-" + k, 0, b, sh, must) for k, b, sh, must in MORE]


# ways to write the type in the header of the impl: Foo itself, a path to it, a renamed import, an alias
HEADS = {
    "foo": ("", "Foo"),
    "path": ("", "self::Foo"),
    "import": ("pub mod ren { pub use super::Foo as Bar; }\n", "ren::Bar"),
    "alias": ("pub type Al%(al)s = Foo%(a)s;\n", "Al"),
}
ALIAS = {"gtuple": "<T>", "generic": "<'a, T, const N: usize>", "tuple": "", "enum": "<T>", "unsized": "<T>"}


def c09_module(name, shape, mut, body, n_pre="", head="foo"):
    g, a, w, item = SHAPES[shape]
    v = dict(g=g, a=a, w=w)
    mt = "mut " if mut else ""
    impl = "impl%(g)s %%s Foo%(a)s %(w)s" % v
    s = "pub mod %s {\n" % name + C09_PRE + n_pre + "#[pin_project(PinnedDrop, project = Pm, project_ref = Pr)]\n" + item + "\n" + ASSOC % v
    s += (impl % "") + " {\n pub fn reference(%sself: Pin<&mut Self>) { %s }\n}\n" % (mt, body)
    hpre, hname = HEADS[head]
    s += hpre % dict(v, al=ALIAS[shape]) + "#[pinned_drop]\n" + (impl % "PinnedDrop for").replace(" Foo", " " + hname) + " {\n fn drop(%sself: Pin<&mut Self>) { %s }\n}\n}\n" % (mt, body)
    return s


def c09(run):
    mods, info = [], {}
    eds = {"2021": [], "2018": [], "2024": []}
    for key, mut, body, shapes, must in BODIES:
        if shapes == "none":
            continue
        pre = ""
        sh = list(SHAPES) if shapes in ("all", "outer") else shapes.split()
        if shapes == "outer":
            pre = "pub fn __drop_inner() -> u8 { 7 }\n"
        for s in sh:
            for head in HEADS if must else ("foo",):
                # a constructor written through an alias: recorded for three bodies
                if head == "alias" and "tuple" in s and re.search(r"\bSelf(\(| as|;)", body) and key.startswith("more-"):
                    continue
                k = "b%d" % len(info)
                info[k] = (key, s if head == "foo" else s + "/" + head, must, body)
                src = c09_module(k, s, mut, body, pre, head)
                # the reference alone must be a correct program: checked with the annotated one
                mods.append((k, src))
    cx = run.ctx()
    prelude = "pub mod unused {}\n"
    total = 0
    for ed in (("2021", "2018", "2024") if run.thorough else ("2021",)):
        mm = mods
        plain = []
        for k, src in mm:
            plain.append((k, re.sub(r"#\[pinned_drop\].*\Z", "}\n", src, flags=re.S).replace("PinnedDrop, ", "")))
        extra = "pub static STATIC: u32 = 1;\n"
        mm = [("zz", extra)] + mm
        groups = [[("zz", extra)] + mm[1:][i::build.JOBS] for i in range(build.JOBS)]
        pg = [[("zz", extra)] + plain[i::build.JOBS] for i in range(build.JOBS)]
        res = C.compile_groups(cx, groups, prelude=prelude, edition=ed, stem="c")
        pres = C.compile_groups(cx, pg, prelude=prelude, edition=ed, facts=False, stem="p")
        ix = facts.index(res.chunks)
        src = dict(mods)
        for k, (key, s, must, body) in info.items():
            name = "%s/%s" % (key, s)
            if k in pres.failed:
                run.rep.count("not correct programs (skipped)")
                if DEBUG:
                    print("SKIP", ed, name, pres.failed[k])
                continue
            if k in res.failed:
                run.rep.count("bodies rejected")
                if must:
                    run.bad("C09/rejected/%s" % name, "a #[pinned_drop] body is rejected (%s) though it is fine in a method: %s" % (res.failed[k], body), src[k])
                continue
            m = ix.get(k)
            if m is None:
                raise build.BuildError("no facts for " + name)
            m.src = src[k]
            total += 1
            run.unit(re.sub(r"\b%s\b" % k, "m", src[k]) + ed)
            c09_compare(run, name, s, body, m, src[k])
        if "(whole crate)" in res.failed:
            run.bad("C09/crate", "the witness crate does not compile: " + res.failed["(whole crate)"])
    if total < 250:
        run.bad("C09/floor", "only %d bodies could be compared" % total)


def c09_compare(run, name, shape, body, m, src):
    run.rep.count("bodies compared")
    by = {f["path"]: f for f in m.fns}
    ref = [f for f in m.fns if f["name"] == "reference"]
    adt = m.adt("Foo")
    dr = adt and m.trait_fn(adt, "core::ops::drop::Drop", "drop")
    if len(ref) != 1 or not dr:
        run.bad("C09/missing/%s" % name, "no destructor or reference in the program", src)
        return
    ref = ref[0]

    def key(f):
        nested = {}
        for p, g in list(by.items()) + [(c["path"], c) for c in m.closures]:
            if p.startswith(f["path"] + "::"):
                nested[p[len(f["path"]):]] = canon(m, g, f["path"])
        return canon(m, f, f["path"]), nested

    want = key(ref)
    reach, work = {dr["path"]}, [dr["path"]]
    while work:
        p = work.pop()
        for c in rules.callees(by[p]) if p in by else ():
            if c not in reach and c in by:
                reach.add(c)
                work.append(c)
    best = None
    for p in sorted(reach):
        got = key(by[p])
        run.rep.count("functions compared")
        if got[0] == want[0]:
            diff = [n for n, v in want[1].items() if got[1].get(n) != v]
            if not diff:
                run.rep.count("nested functions compared", len(want[1]))
                run.rep.sample({"body": body[:200], "type": shape, "reference": rules2.rel(m, ref["path"]), "same MIR": rules2.rel(m, p), "nested": len(want[1])}, 4)
                return
            best = "nested function %s differs" % diff[0]
    run.bad("C09/differs/%s" % name, "no function reached by Drop::drop has the MIR of the body as written (%s): `%s`" % (best or "bodies differ", body), src)


# ---------------------------------------------------------------- C17
BARE = "use ::pin_project::pin_project;\n"
SETTINGS = [
    # (name, edition, prelude, flags, uses, floor: share of the declarations that must be usable)
    ("edition 2021", "2021", "", (), None, 0.95),
    ("edition 2015", "2015", "extern crate core; extern crate pin_project;\n", (), None, 0.85),
    ("edition 2018", "2018", "", (), None, 0.95),
    ("edition 2024", "2024", "", (), None, 0.95),
    ("unsafe code forbidden", "2021", "", ("-Funsafe_code",), None, 0.85),
    ("no implicit prelude", "2021", "#![no_implicit_prelude]\n", (), BARE, 0.2),
    ("no std", "2021", "#![no_std]\n", (), BARE, 0.3),
    ("crate renamed in scope", "2021", "extern crate pin_project as pp;\nmod shadow {}\n", (), "use pp::pin_project; use pp::pinned_drop; use ::core::{pin::Pin, marker::{PhantomData, PhantomPinned}};\n", 0.9),
    ("2015, no prelude, no unsafe", "2015", "#![no_implicit_prelude]\nextern crate core; extern crate pin_project;\n", ("-Funsafe_code",), BARE, 0.12),
    ("no std, 2018", "2018", "#![no_std]\n#![no_implicit_prelude]\n", ("-Funsafe_code",), BARE, 0.12),
]


def accept(run, ds, setting, twins_too=True):
    name, ed, prelude, flags, uses, floor = setting
    cx = run.ctx()
    uses = decl.USES if uses is None else uses
    mods = []
    for i, d in enumerate(ds):
        mods.append(("m%d" % i, decl.module("m%d" % i, d, True, uses=uses)))
    res = C.compile_modules(cx, mods, prelude=prelude, edition=ed, flags=flags, facts=False, stem="a")
    bad = [k for k in res.failed if k in dict(mods)]
    tw = {}
    if bad:
        pl = []
        for k in bad:
            d = ds[int(k[1:])]
            if d.raw_decl is None:
                pl.append((k, decl.module(k, d, False, uses=uses)))
        if pl:
            tw = C.compile_modules(cx, pl, prelude=prelude, edition=ed, flags=flags, facts=False, stem="b").failed
    src = dict(mods)
    ok = 0
    for i, d in enumerate(ds):
        k = "m%d" % i
        if k not in res.failed:
            ok += 1
            run.rep.count("accepted: " + name)
            run.unit(name + re.sub(r"\b%s\b" % k, "m", src[k]))
            continue
        if d.soft or k in tw:
            run.rep.count("not applicable: " + name)
            continue
        run.bad("C17/%s/%s" % (name.replace(" ", "-"), d.tag), "a supported declaration is rejected in the setting `%s` (%s): %s" % (name, res.failed[k], rules.describe(d)), "// edition %s, flags %s\n%s%s" % (ed, " ".join(flags), prelude, src[k]))
    if "(whole crate)" in res.failed:
        run.bad("C17/crate", "the witness crate does not compile as a whole (%s): %s" % (name, res.failed["(whole crate)"]))
    if ok < floor * len(ds):
        run.bad("C17/floor/%s" % name.replace(" ", "-"), "only %d of %d declarations are accepted in the setting `%s`" % (ok, len(ds), name))
    if ds:
        run.rep.sample({"setting": name, "declarations": len(ds), "accepted": ok, "example": rules.describe(ds[len(ds) // 2])[:200]}, 12)


def strict_ok(d, setting):
    name, _, _, flags, uses, _ = setting
    if "-Funsafe_code" in flags and (d.unpin == "UnsafeUnpin" and d.unsafe_unpin_impls or "unsafe" in d.pre + d.post + str(d.drop_body)):
        return False
    if uses == BARE and d.pinned_drop:
        return False
    return True


def c17(run):
    base = corpus.core(run.seed, run.thorough) + corpus.in_functions() + corpus.lifetimes()
    dr = corpus.drops() + corpus.drops_more(run.seed, False)[::3]
    um = corpus.unpin_modes(run.seed, False)
    for i, s in enumerate(SETTINGS):
        if i == 0:
            ds = base + dr + um[::4]
        elif run.thorough:
            ds = base + dr + um[::8]
        else:
            ds = base[i % 3::3] + dr[i % 4::4] + um[i % 20::20]
        accept(run, [d for d in ds if strict_ok(d, s)], s)
    run.cases(c17_cases(), "particular programs")


def c17_cases():
    out = []
    for i, (s, kw) in enumerate(EXTRA_ACCEPT):
        out.append(acc("program/%d" % i, s, why="(a supported program)", **kw))
    raw = lambda key, src, **kw: out.append(K(key, src, True, **kw))
    # projections, types, parameters, fields and variants named like well-known items
    known = ["Pin", "PhantomData", "PhantomPinned", "Unpin", "Drop", "Sized", "Option", "Box", "Copy", "Clone", "Send", "Some", "None", "Ok", "Err", "Vec", "String", "Result", "ManuallyDrop", "PinnedDrop", "UnsafeUnpin", "Wrapper", "Projection", "Project", "Deref", "Fn", "Iterator", "Self_", "core", "std", "pin_project", "pin", "ptr", "marker", "u8", "usize", "str", "bool", "drop", "Foo_", "T_", "A"]
    for n in known:
        pp = "#[::pin_project::pin_project%s] "
        raw("named-projection/" + n, pp % ("(project = %s, project_ref = %sR, project_replace = %sO)" % (n, n, n)) + "pub struct Foo<'a, T> { #[pin] a: T, b: &'a i64 }\npub fn f<'p, 'a, T>(x: ::core::pin::Pin<&'p mut Foo<'a, T>>) -> self::%s<'p, 'a, T> { x.project() }\n" % n)
        raw("named-projection-ref/" + n, pp % ("(project_ref = %s)" % n) + "pub enum Foo<T> { V { #[pin] a: T, b: i64 }, W(T, #[pin] i64), Z }\npub fn f<'p, T>(x: ::core::pin::Pin<&'p Foo<T>>) -> self::%s<'p, T> { x.project_ref() }\n" % n)
        raw("named-projection-replace/" + n, pp % ("(project_replace = %s)" % n) + "pub enum Foo<T> { V { #[pin] a: T, b: i64 }, W(T, #[pin] i64), Z }\npub fn f<T>(x: ::core::pin::Pin<&mut Foo<T>>) -> self::%s<T> { x.project_replace(Foo::Z) }\n" % n)
        raw("named-type/" + n, pp % "(project = Pm, project_ref = Pr, project_replace = Po)" + "pub struct %s<T> { #[pin] a: T, b: i64 }\npub fn f<'p, T>(x: ::core::pin::Pin<&'p mut self::%s<T>>) -> Pm<'p, T> { x.project() }\n" % (n, n))
        raw("named-type-drop/" + n, pp % "(PinnedDrop)" + "pub struct %s<T> { #[pin] a: T, b: i64 }\n#[::pin_project::pinned_drop] impl<T> PinnedDrop for self::%s<T> { fn drop(self: ::core::pin::Pin<&mut Self>) { let _ = self.project().a; } }\n" % (n, n), soft=n in ("Pin",))
        raw("named-param/" + n, pp % "(project = Pm, project_ref = Pr, project_replace = Po)" + "pub enum Foo<%s: ::core::marker::Send> where %s: ::core::marker::Copy { V { #[pin] a: %s, b: i64 }, W(%s, #[pin] i64), Z }\n" % (n, n, n, n), soft=n in ("i64",))
        if n in ("T_", "A", "Foo_", "Self_", "Pin", "ptr", "pin", "marker", "Wrapper", "PhantomPinned", "Projection", "drop"):  # otherwise ambiguous in any path to the type
            raw("named-const-param/" + n, pp % "(project_replace)" + "pub struct Foo<T, const %s: ::core::primitive::usize>(#[pin] [T; %s], i64);\n" % (n, n))
        raw("named-variant/" + n, pp % "(project = Pm, project_ref = Pr, project_replace = Po)" + "pub enum Foo<T> { %s { #[pin] a: T, b: i64 }, %s2(T, #[pin] i64), %s3 }\n" % (n, n, n))
        if n not in ("Some", "None", "Ok", "Err"):  # a constructor in scope: no binding can have the name
            raw("named-field/" + n, pp % "(project = Pm, project_ref = Pr, project_replace = Po)" + "pub struct Foo<T> { #[pin] %s: T, %s2: T }\n" % (n, n))
    # in edition 2015, with nothing but the crate itself in scope
    for i, src in enumerate((
        "#[pin_project] pub struct Foo<T, U> { #[pin] a: T, b: U }\n",
        "#[pin_project(project = P, project_ref = R, project_replace = O)] pub struct Foo<'a, T: 'a>(#[pin] T, &'a u8);\n",
        "#[pin_project(project = P, project_ref = R, project_replace = O)] pub enum Foo<T> where T: Copy { A { #[pin] a: T, b: u8 }, B(T, #[pin] u8), C }\n",
        "#[pin_project(!Unpin)] pub struct Foo<T> { #[pin] a: T }\n",
        "#[pin_project(UnsafeUnpin, project_replace)] pub struct Foo<T> { #[pin] a: T, b: u8 }\nunsafe impl<T: Copy> ::pin_project::UnsafeUnpin for Foo<T> {}\n",
        "#[pin_project(PinnedDrop, project = P)] pub enum Foo<T> { A(#[pin] T, u8), B }\n#[::pin_project::pinned_drop] impl<T> PinnedDrop for Foo<T> { fn drop(mut self: std::pin::Pin<&mut Self>) { if let P::A(_, x) = self.as_mut().project() { *x = 1 } } }\n",
        "mod core {} #[pin_project(project_replace = O)] pub struct Foo<T: ?Sized> where T: Sized { b: u8, #[pin] a: T }\n",
        "pub mod m { #[::pin_project::pin_project(project = P)] pub(super) struct Foo<T>(#[pin] pub(crate) T, pub(in m) u8); }\n",
    )):
        for ed in ("2015", "2018", "2021", "2024"):
            if "in m" in src and ed != "2015":
                continue
            pre = "#[allow(unused_extern_crates)] extern crate pin_project;\n"
            raw("bare/%s/%d" % (ed, i), pre + src.replace("#[pin_project", "#[::pin_project::pin_project"), edition=ed)
            if "std" not in src and "mod core" not in src:
                raw("bare-nostd/%s/%d" % (ed, i), "#![no_std]\n" + pre + src.replace("#[pin_project", "#[::pin_project::pin_project"), edition=ed)
    return out


EXTRA_ACCEPT = [
    ("#[pin_project] pub struct A<T: ?Sized> { #[pin] x: T }\npub fn f(x: Pin<&mut A<dyn core::fmt::Debug>>) { let _ = x.project().x; }", {}),
    ("#[pin_project] pub struct A<T: ?Sized> { y: u8, #[pin] x: T }\npub fn f<'a>(x: Pin<&'a mut A<[u8; 4]>>) -> Pin<&'a mut A<[u8]>> { x }", {}),
    ("#[pin_project] struct A { #[pin] x: [u8] }\n#[pin_project] struct B { a: String, x: str }\n#[pin_project] struct C { #[pin] x: dyn Send }", {}),
    ("#[pin_project(project_replace)] pub struct A<T>(#[pin] T) where Self: Sized;", {}),
    ("pub trait Tr { type A; }\n#[pin_project(project = P)] pub enum E<T: Tr> where T::A: Copy { X(#[pin] T::A), Y { a: <T as Tr>::A, #[pin] b: Option<Box<E<T>>> } }", {}),
    ("#[pin_project] pub struct List<T> { #[pin] x: T, next: Option<Box<Self>> }", {}),
    ("#[pin_project(PinnedDrop)] pub struct A<'a, T: 'a + ?Sized, const N: usize> where T: core::fmt::Debug { #[pin] x: [u8; N], y: &'a T }\n#[pinned_drop] impl<'a, T: 'a + ?Sized, const N: usize> PinnedDrop for A<'a, T, N> where T: core::fmt::Debug { fn drop(self: Pin<&mut Self>) { let _ = self.project().y; } }", {}),
    ("#[pin_project(UnsafeUnpin, project_replace = O, project = P, project_ref = R)] pub struct A<T>(#[pin] T, u8);\nunsafe impl<T: Copy> UnsafeUnpin for A<T> {}", {}),
    ("#[pin_project(!Unpin, PinnedDrop)] pub enum E { A(#[pin] u8) , B }\n#[pinned_drop] impl PinnedDrop for E { fn drop(self: Pin<&mut Self>) {} }", {}),
    ("#[pin_project]\n#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]\npub struct A<T> { #[pin] x: T, y: Vec<T> }", {}),
    ("#[derive(Debug, Clone)]\n#[pin_project(project = P)]\n#[derive(PartialEq)]\npub enum A<T> { #[allow(dead_code)] X { #[pin] x: T }, Y }", {}),
    ("pub mod a { pub(in crate::a) mod b { use pin_project::pin_project; #[pin_project(project = P, project_ref = R, project_replace = O)] pub(in crate::a) struct A<T> { #[pin] pub(super) x: T, pub(in crate::a) y: u8, pub(crate) z: u8, pub w: u8 } }\n pub fn f() { let _ = b::A::<u8>::project; } }", {}),
    ("pub fn f() { #[pin_project] struct A<T> { #[pin] x: T } let mut a = A { x: 1 }; let _ = Pin::new(&mut a).project().x; }", {}),
    ("pub const X: usize = { #[pin_project] struct A { #[pin] x: u64 } core::mem::size_of::<A>() };", {}),
    ("pub struct S; impl S { pub fn m() { #[pin_project(project = P)] enum E { A(#[pin] u8) } match Pin::new(&mut E::A(1)).project() { P::A(x) => { let _: Pin<&mut u8> = x; } } } }", {}),
    ("#[pin_project] pub struct A { #[pin] r#type: u8, r#fn: u8, r#match: String }\npub fn f(x: Pin<&mut A>) { let p = x.project(); let _ = (p.r#type, p.r#fn, p.r#match); }", {}),
    ("#[pin_project(project = r#Proj)] pub struct r#struct { #[pin] a: u8 }\npub fn f(x: Pin<&mut r#struct>) -> r#Proj<'_> { x.project() }", {}),
    ("#[pin_project] pub struct A<T>(#[pin] T, u8,);\npub fn f<T>(x: Pin<&mut A<T>>) { let A2 { .. } = A2 {}; struct A2 {} let p = x.project(); let _ = (p.0, p.1); }", {}),
    ("#![doc = \"x\"]\n", {}) if False else ("#[pin_project] pub struct A { #[pin] f: for<'a, 'b> fn(&'a u8, &'b u8) -> &'a u8, g: &'static (dyn for<'x> Fn(&'x u8) -> &'x u8 + Send + Sync) }", {}),
    ("#[pin_project] pub struct A<T> where for<'a> &'a T: IntoIterator<Item = &'a u8>, T: for<'b> PartialEq<&'b u8> { #[pin] x: T, y: u8 }", {}),
    ("#[pin_project] pub struct A<T = u8, const N: usize = 2, U: ?Sized = [u8]> { #[pin] x: [T; N], y: Box<U> }\npub fn f(x: Pin<&mut A>) { let _: Pin<&mut [u8; 2]> = x.project().x; }", {}),
    ("#[pin_project(project = P)] pub enum E<T> { A(#[pin] T), B(T), C { x: T, #[pin] y: u8 }, D {}, E(), F }", {}),
    ("macro_rules! m { ($($f:ident: $t:ty),*) => { #[pin_project] pub struct M { $(#[pin] $f: $t),* } } }\nm!(a: u8, b: String);", {}),
    ("macro_rules! ty { () => { Vec<u8> } }\n#[pin_project] pub struct M { #[pin] a: ty!(), b: ty![] }", {}),
    ("#[pin_project] pub struct A<F> where F: FnMut(&mut u8) -> Result<(), Box<dyn std::error::Error>> { #[pin] f: F, x: std::cell::RefCell<u8> }", {}),
    ("#[pin_project] pub union_like! { }", {}) if False else ("#[pin_project] pub struct A(#[pin] pub u8, pub(crate) u8, u8);", {}),
    ("#[pin_project] #[must_use] #[non_exhaustive] #[doc(alias = \"x\")] pub struct A { #[doc = \"d\"] #[pin] #[allow(unused)] x: u8 }", {}),
    ("#[pin_project] #[repr(C, align(16))] pub struct A { #[pin] x: u8 }\n#[pin_project] #[repr(transparent)] pub struct B(#[pin] u8);\n#[pin_project(project = P)] #[repr(u8)] pub enum E { A(#[pin] u8), B }", {}),
    ("#[pin_project] pub struct A<'pin, 'a, '__pin> { #[pin] x: &'pin u8, y: &'a u8, z: &'__pin u8 }", {}),
    ("#[pin_project] pub struct Self_ { #[pin] this: u8, __self: u8, _self: u8, __this: u8 }", {}),
    ("#[pin_project(project_replace)] pub struct A { #[pin] result: u8, guard: u8, self_ptr: u8, value: u8, replacement: u8, this: u8 }", {}),
]


# ---------------------------------------------------------------- C18
CFGA = re.compile(r"#\[cfg(_attr)?\(.*?\)\](?=\s|$)")


def configured(d):
    """The declaration as it is after configuration, written without conditions."""
    e = d.copy()
    e.variants = [v for v in e.variants if v.on]
    for v in e.variants:
        v.attrs = ""
        v.fields = [f for f in v.fields if f.on]
        for f in v.fields:
            f.before = f.after = ""
            f.marker = "#[pin]"
    return e


def c18(run):
    from .cases import fingerprint
    ds = [d for d in corpus.cfg_pairs() + corpus.cfg_more(run.seed, run.thorough) if d.raw_decl is None]
    both = []
    for d in ds:
        both += [d, configured(d)]
    ws = run.witnesses(both, "declarations with and without conditions", queries=rules.unpin_queries, flags=corpus.CFG_FLAGS)
    by = {id(d): m for d, m, _ in ws}
    for i in range(0, len(both), 2):
        a, b = by.get(id(both[i])), by.get(id(both[i + 1]))
        if a is None or b is None:
            continue
        run.rep.count("pairs compared")
        fa, fb = fingerprint(a), fingerprint(b)
        if fa != fb:
            x = [y for y in fa if y not in fb][:1] + [y for y in fb if y not in fa][:1]
            run.bad("C18/differs", "`%s` does not expand like `%s`: %s" % (rules.describe(both[i]), rules.describe(both[i + 1]), str(x)[:600]), a.src)
    # every subset of conditional parts by command-line configuration
    src = "#[pin_project(project = Pm, project_ref = Pr, project_replace = Po)]\npub enum Foo<T, U> { #[cfg(a)] A { #[cfg_attr(b, pin)] x: T, #[cfg(c)] #[pin] y: U, z: u8 }, #[cfg(not(a))] A { #[pin] z: U }, B(#[cfg(b)] #[pin] T, #[cfg(not(b))] U, ::core::marker::PhantomData<(T, U)>) }\n"
    use = "pub fn f<'a, T, U>(p: Pm<'a, T, U>) { match p { %s, Pm::B(q, _) => { let _: %s = q; } } }\n"
    cs = []
    for a, b, c in itertools.product((0, 1), repeat=3):
        if a:
            fs = ["x", "z"] + (["y"] if c else [])
            arm = "Pm::A { %s } => { let _: %s = x; let _: &mut u8 = z; %s }" % (", ".join(fs), "::core::pin::Pin<&mut T>" if b else "&mut T", "let _: ::core::pin::Pin<&mut U> = y;" if c else "")
        else:
            arm = "Pm::A { z } => { let _: ::core::pin::Pin<&mut U> = z; }"
        fl = []
        for n, v in (("a", a), ("b", b), ("c", c)):
            if v:
                fl += ["--cfg", n]
        cs.append(acc("config/%d%d%d" % (a, b, c), src + use % (arm, "::core::pin::Pin<&mut T>" if b else "&mut U"), flags=fl, why="(configuration %s)" % " ".join(fl)))
        wrong = arm.replace("&mut T", "&mut u8", 1) if "&mut T" in arm else arm.replace("&mut U", "&mut T", 1)
        cs.append(rej("config/%d%d%d-wrong" % (a, b, c), src + use % (wrong, "::core::pin::Pin<&mut T>" if b else "&mut U"), flags=fl))
    run.cases(cs, "configurations")


# ---------------------------------------------------------------- C19
STD_OK = re.compile(r"^std::(rt|panicking|collections::hash|hash::random::\{impl#\d+\}::(new|default|build_hasher)|ffi::os_str)\b")
STD_ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_iter", "into_keys", "into_values", "retain", "extract_if", "fmt", "next", "for_each", "union", "intersection", "difference", "symmetric_difference"}
CORE_DENY = [
    (re.compile(r"^core::sync::"), "an atomic"),
    (re.compile(r"^core::arch::|^core::intrinsics::.*asm"), "machine-specific code"),
    (re.compile(r"^core::ptr::.*::(addr|expose_provenance|expose_addr|align_offset)$|^core::ptr::hash$|^core::fmt::rt::\{impl#\d+\}::new_pointer$|^core::fmt::pointer_fmt"), "an address"),
    (re.compile(r"^alloc::(sync|task)::"), "shared state"),
    (re.compile(r"^core::any::type_name"), "compiler-dependent text"),
    (re.compile(r"^core::panic::location"), "a source location"),
]
SPAN_DENY = {"start", "end", "line", "column", "byte_range", "file", "local_file", "source_text", "source_file", "source", "parent", "tracked_env", "tracked_path", "emit", "def_site"}
CRATES_OK = {"core", "alloc", "syn", "quote", "proc_macro2", "proc_macro", "pin_project_internal", "unicode_ident"}


def fn_refs(b):
    """All function values mentioned in a body (including promoted constants)."""
    def ops(x):
        if isinstance(x, dict):
            if "fn" in x and isinstance(x["fn"], dict):
                yield x["fn"]
            for v in x.values():
                yield from ops(v)
        elif isinstance(x, list):
            for v in x:
                yield from ops(v)
    yield from ops(b["blocks"])
    for p in b.get("promoted", ()):
        yield from ops(p["blocks"])


def type_paths(t):
    if isinstance(t, dict):
        if "path" in t:
            yield t["path"]
        for v in t.values():
            yield from type_paths(v)
    elif isinstance(t, list):
        for v in t:
            yield from type_paths(v)


def consts(b):
    def go(x):
        if isinstance(x, dict):
            if "const" in x:
                yield x
            for v in x.values():
                yield from go(v)
        elif isinstance(x, list):
            for v in x:
                yield from go(v)
    yield from go(b["blocks"])
    for p in b.get("promoted", ()):
        yield from go(p["blocks"])


ORDER_FREE = {"any", "all", "count", "len", "is_empty", "min", "max", "sum", "size_hint"}


def is_local(place, local):
    return isinstance(place, (list, tuple)) and len(place) == 2 and place[0] == local and not place[1]


def uses_local(x, local):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == local and isinstance(x[1], (list, tuple)) and not isinstance(x[0], bool):
            return True
        return any(uses_local(v, local) for v in x)
    return isinstance(x, dict) and any(uses_local(v, local) for v in x.values())


def order_free(b, local):
    """Is an iterator used only by consumers whose result does not depend on the order?"""
    def mut_refs():
        return [s["assign"][0] for bl in b["blocks"] for s in bl["s"] if isinstance(s.get("rv"), dict) and s["rv"].get("kind") != "shared" and "ref" in s["rv"]]
    for bl in b["blocks"]:
        for s in bl["s"]:
            if not uses_local(s, local):
                continue
            rv = s.get("rv")
            if is_local(s.get("assign"), local) and not uses_local(rv, local):
                continue
            if isinstance(rv, dict) and is_local(rv.get("ref"), local) and not s["assign"][1]:
                if not order_free(b, s["assign"][0]):
                    return False
            elif "assign" in s:
                return False
        t = bl["t"]
        if not uses_local(t, local) or t["k"] == "drop" or t["k"] == "call" and is_local(t.get("dest"), local) and not uses_local(t["a"], local):
            continue
        g = t["f"].get("fn") if t["k"] == "call" and isinstance(t.get("f"), dict) else None
        if not g or g.get("name") not in ORDER_FREE or not g["path"].startswith("core::iter::"):
            return False
        # a closure that changes what it captures sees the order
        for a in t["a"][1:]:
            for l in (v[0] for v in a.values() if isinstance(v, (list, tuple))):
                for b2 in b["blocks"]:
                    for s in b2["s"]:
                        if is_local(s.get("assign"), l) and any(uses_local(s, r) for r in mut_refs() if r != l):
                            return False
    return True


def hash_iteration(b, g):
    """Is this reference to an iteration of a hash table one whose order can be seen?"""
    n = 0
    if g["name"] not in ("iter", "keys", "values", "into_iter", "into_keys", "into_values", "drain"):
        return True
    for bl in b["blocks"]:
        t = bl["t"]
        if t["k"] == "call" and isinstance(t.get("f"), dict) and t["f"].get("fn") is g:
            n += 1
            if t["dest"][1] or not order_free(b, t["dest"][0]):
                return True
    return n == 0


def c19(run):
    cx = run.ctx()
    fx = cx.deps.facts("pin_project_internal")
    bodies = {f["path"]: f for f in fx["fns"]}
    if len([f for f in fx["fns"] if f.get("body")]) < 30:
        run.bad("C19/floor", "only %d functions of the macro crate could be analysed" % len(bodies))
    items = {i["path"]: i for i in fx["items"]}
    for f in fx["fns"] + fx["closures"]:
        b = f.get("body")
        if not b:
            continue
        run.rep.count("functions of the macro crate")
        run.unit(f["path"])
        where = "%s (%s)" % (f["path"], f.get("span", "").split(": ")[0])
        def no(key, text):
            run.bad("C19/" + key, "%s uses %s" % (where, text))
        for g in fn_refs(b):
            run.rep.count("references to functions")
            p = g.get("resolved") or g["path"]
            name = p.rsplit("::", 1)[-1]
            kr = p.split("::")[0]
            if kr == "std":
                if not STD_OK.search(p):
                    no("std", "%s, which reaches outside the arguments" % p)
                elif "collections::hash" in p and name in STD_ITER and hash_iteration(b, g):
                    no("hash-order", "%s, whose order depends on a random seed" % p)
                continue
            if kr not in CRATES_OK:
                no("crate", "%s of another crate" % p)
                continue
            if kr in ("core", "alloc"):
                for rx, what in CORE_DENY:
                    if rx.search(p) or rx.search(g["path"]):
                        no("core", "%s (%s)" % (p, what))
                # iteration of a hash table through a core adaptor or trait
                tp = list(type_paths(g.get("args", [])))
                if name in STD_ITER and any(x.startswith("std::collections::hash") and not x.endswith("RandomState") for x in tp[:1]):
                    no("hash-order", "%s over %s, whose order depends on a random seed" % (p, tp[0]))
                if name == "new_debug" and any(x.startswith(("proc_macro", "syn::", "std::collections::hash")) for x in tp):
                    no("debug", "Debug output of %s, which shows positions or addresses" % [x for x in tp if x.startswith(("proc_macro", "syn::", "std::"))][0])
                if name == "new_pointer":
                    no("address", "an address as text")
            if kr in ("proc_macro", "proc_macro2"):
                if name in SPAN_DENY or "tracked" in p:
                    no("span", "%s, which depends on where the tokens stand" % p)
            if kr == "pin_project_internal":
                it = items.get(p)
                if it and it.get("kind") == "Fn" and p not in bodies:
                    no("foreign", "the foreign function %s" % p)
        for c in consts(b):
            st = c.get("static")
            if st:
                run.rep.count("references to statics")
                s = [x for x in fx["statics"] if x["path"] == st]
                if not s or s[0]["mut"] or not s[0]["freeze"]:
                    no("static", "the static %s, which is state kept between expansions" % st)
        for blk in [k for x in [b] + b.get("promoted", []) for k in x["blocks"]]:
            if blk["t"]["k"] == "other":
                no("other", blk["t"]["s"][:80])
            for s in blk["s"]:
                rv = s.get("rv", {})
                if "tls" in rv:
                    no("tls", "thread-local state")
                if "cast" in rv and re.search(r"PointerExpose|PointerWithExposed|Transmute", str(rv.get("kind", rv.get("cast")))) and "PointerExpose" in str(rv):
                    no("address", "an address as a number")
        run.rep.sample({"function": f["path"], "references": sorted({(g.get("resolved") or g["path"]) for g in fn_refs(b)})[:6], "rule": "no reference reaches state outside the arguments"}, 6)
    for s in fx["statics"]:
        run.rep.count("statics")
        if s["path"].endswith("::_DECLS"):
            continue  # the compiler's table of the crate's macros
        if s["mut"] or not s["freeze"]:
            run.bad("C19/static", "the macro crate declares the mutable static %s (%s)" % (s["path"], s["span"]))
    # values fixed when the macro crate is built from its environment
    for p in build.repo_sources():
        if "/pin-project-internal/src/" not in p or not p.endswith(".rs"):
            continue
        run.rep.count("source files")
        t = code_only(p)
        for m in re.finditer(r"\b(env|option_env|include|include_str|include_bytes|asm)\s*!|\bcfg\s*!?\s*\(\s*(?:not\s*\(\s*)?(debug_assertions|overflow_checks|panic|target_\w+|windows|unix)\b|#\s*\[\s*(no_mangle|link|thread_local)\b|\bextern\s+\"", t):
            run.bad("C19/build-input", "%s:%d: the expansion depends on `%s`" % (p, t[:m.start()].count("\n") + 1, m.group(0).strip()))
    if any(i["kind"] == "ForeignMod" for i in fx["items"]):
        run.bad("C19/foreign", "the macro crate declares foreign items")


def code_only(p):
    """Source with comments and the contents of string literals blanked."""
    with open(p) as f:
        s = f.read()
    def blank(m):
        t = m.group(0)
        return re.sub(r"[^\n]", " ", t) if t.startswith("/") else '"' + re.sub(r"[^\n]", " ", t[1:-1]) + '"'
    return re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:[^\"\\]|\\.)*\"", blank, s, flags=re.S)


# ---------------------------------------------------------------- C21
def hostile_items():
    """[(key, items for the scope of an annotated type)]"""
    words, _ = corpus.harvest()
    base = ["Pin", "PhantomData", "PhantomPinned", "Unpin", "Drop", "Sized", "Option", "Box", "Copy", "Clone", "Send", "Sync", "UnsafeUnpin", "PinnedDrop", "Wrapper", "PinnedFieldsOf", "AlwaysUnpin", "UnsafeDropInPlaceGuard", "UnsafeOverwriteGuard", "ManuallyDrop", "Deref", "DerefMut", "Fn", "From", "Into", "ToString", "AsRef", "Some", "None", "Ok", "Err", "drop", "read", "write", "drop_in_place", "new_unchecked", "get_unchecked_mut", "as_mut", "as_ref", "get_ref", "get_mut", "u8", "usize", "bool", "str", "core", "std", "alloc", "ptr", "pin", "marker", "mem", "ops", "pin_project_internal", "pin_project", "derive", "cfg", "allow", "doc", "unsafe_", "Result", "Self_", "Iterator", "Debug", "Default", "Eq", "Hash", "static_", "self_", "this", "__private", "_pin_project", "value", "inner", "__Origin", "ProjectionOwned", "FooProjection", "panic", "assert", "unreachable", "concat", "stringify", "todo", "matches", "a", "b", "T", "U", "Pm", "Pr", "Po", "Foo"]
    out = []
    for w in dict.fromkeys(base + sorted(words)):
        if w in corpus.KEYWORDS or w in ("Pm", "Pr", "Po", "Foo"):
            continue
        evil = "pub struct Pin<P>(pub P); pub struct PhantomData; pub struct PhantomPinned; pub struct AlwaysUnpin; pub struct Wrapper; pub mod pin { pub use super::Pin; } pub mod marker { pub trait Unpin {} impl<T: ?::core::marker::Sized> Unpin for T {} pub struct PhantomPinned; pub use super::PhantomData; } pub mod ptr { pub unsafe fn read<T>(_: *const T) -> T { loop {} } pub unsafe fn write<T>(_: *mut T, _: T) {} } pub trait Unpin {} impl<T: ?::core::marker::Sized> Unpin for T {} pub trait Drop { fn drop(&mut self); } pub trait PinnedDrop { unsafe fn drop(self: ::core::pin::Pin<&mut Self>); } pub trait UnsafeUnpin {} impl<T: ?::core::marker::Sized> UnsafeUnpin for T {} pub type PinnedFieldsOf<T> = ::core::marker::PhantomData<T>; pub use self::ptr as mem;"
        out.append(("struct " + w, "pub struct %s;\n" % w))
        out.append(("generic " + w, "pub struct %s<X__ = ()>(pub ::core::marker::PhantomData<X__>);\n" % w))
        out.append(("alias " + w, "pub type %s<X__> = ::core::marker::PhantomData<X__>;\n" % w))
        out.append(("transparent alias " + w, "pub type %s<X__> = X__;\n" % w))
        out.append(("trait " + w, "pub trait %s {} impl<X__: ?::core::marker::Sized> %s for X__ {}\n" % (w, w)))
        out.append(("mod " + w, "pub mod %s { %s pub mod __private { pub use super::*; } pub mod outer { pub use super::*; } }\n" % (w, evil)))
        out.append(("const " + w, "pub const %s: u8 = 1;\n" % w))
        out.append(("static " + w, "pub static %s: u8 = 1;\n" % w))
        out.append(("fn " + w, "pub fn %s<X__>(_: X__) {}\n" % w))
        out.append(("macro " + w, "macro_rules! %s { ($($t:tt)*) => { } }\n" % w))
        out.append(("method " + w, "pub trait Evil__ { fn %s(&self) -> u8 { 1 } } impl<X__: ?::core::marker::Sized> Evil__ for X__ {}\n" % w))
        out.append(("method by value " + w, "pub trait Evil__: ::core::marker::Sized { fn %s(self) -> u8 { 1 } } impl<X__> Evil__ for X__ {}\n" % w))
        out.append(("method by mut " + w, "pub trait Evil__ { fn %s(&mut self) -> &mut Self { self } } impl<X__: ?::core::marker::Sized> Evil__ for X__ {}\n" % w))
        out.append(("assoc fn " + w, "pub trait Evil__ { fn %s(_: *const u8) -> u8 { 1 } } impl<X__: ?::core::marker::Sized> Evil__ for X__ {}\n" % w))
        out.append(("own method " + w, "impl<T, U> Foo<T, U> { fn %s(&self) -> u8 { 1 } }\n" % w))
        out.append(("own assoc const " + w, "impl<T, U> Foo<T, U> { const %s: u8 = 1; }\n" % w))
    for n in ("Unpin", "Drop", "Deref"):
        pass
    out.append(("glob", "pub mod g__ { pub struct Pin; pub struct PhantomData; pub trait Unpin {} pub trait Drop {} pub struct Option; pub mod core {} } #[allow(unused_imports)] use self::g__::*;\n"))
    out.append(("deref", "impl<T, U> ::core::ops::Deref for Foo<T, U> { type Target = u8; fn deref(&self) -> &u8 { &7 } }\nimpl<T, U> ::core::ops::DerefMut for Foo<T, U> { fn deref_mut(&mut self) -> &mut u8 { loop {} } }\n"))
    out.append(("asmut", "impl<T, U> ::core::convert::AsMut<u8> for Foo<T, U> { fn as_mut(&mut self) -> &mut u8 { loop {} } }\n"))
    return out


def hostile_decls():
    A = corpus.ALL
    pr = corpus.params(["T", "U"])
    s = lambda **kw: corpus.st("Foo", [F("T", True, name="a"), F("U", False, name="b")], "named", params=corpus.params(["T", "U"]), tag="hostile", soft=True, **kw)
    t = lambda **kw: corpus.st("Foo", [F("U", False), F("T", True)], "tuple", params=corpus.params(["T", "U"]), tag="hostile", soft=True, **kw)
    e = lambda **kw: D("Foo", "enum", [corpus.variant("V", [F("T", True, name="a"), F("U", name="b")], "named"), corpus.variant("W", [F("U", True), F("T")], "tuple"), corpus.variant("X", [], "unit")], params=corpus.params(["T", "U"]), tag="hostile", soft=True, **kw)
    dr = s(project="Pm", pinned_drop=True)
    dr.pre, dr.drop_body = "", "sink(::core::pin::Pin::as_ref(&self).get_ref() as *const _ as *const ());"
    dr.pin_path = "::core::pin::Pin"
    return [s(**A), t(project_replace=""), e(**A), dr]


def c21(run):
    ds = []
    base = hostile_decls()
    for i, (key, items) in enumerate(hostile_items()):
        for j, b in enumerate(base):
            if not run.thorough and (i + i // len(base)) % len(base) != j:
                continue
            d = b.copy()
            d.pre = items + (corpus.BODY_PRE if d.pinned_drop else "")
            d.attr_path = "::pin_project::"
            d.tag = "hostile"
            d.collide = key.replace(" ", "-")
            ds.append(d)
    n = apply21(run, ds, "declarations in hostile scopes", uses="")
    if n < len(ds) // 2:
        run.bad("C21/floor", "only %d of %d declarations in hostile scopes could be analysed" % (n, len(ds)))
    # the user's own items named like the helper items
    apply21(run, collisions(), "declarations with colliding names")
    run.cases(c21_cases())
    run.cases(c21_guards(run.thorough), "guards in hostile scopes")
    ed = [d for i, d in enumerate(ds) if i % (1 if run.thorough else 5) == 0]
    n = apply21(run, ed, "declarations in hostile scopes (2015)", uses="", edition="2015", prelude="extern crate core; extern crate pin_project;\n")
    if n < len(ed) // 3:
        run.bad("C21/floor2015", "only %d of %d declarations in hostile scopes could be analysed in edition 2015" % (n, len(ed)))


def apply21(run, ds, what, **kw):
    """In batches, for the facts of thousands of modules do not fit in memory."""
    R, n = "C21", 0
    for i in range(0, len(ds), 480):
        ws = run.witnesses(ds[i:i + 480], what, queries=rules.unpin_queries, twins=True, **kw)
        n += len(ws)
        for fn, args in ((rules.projection_identity, (R,)), (rules.pin_iff_marked, (R,)), (rules.unpin_exact, (R,)), (rules.replace_accounting, (R, False)), (rules.replace_accounting, (R, True)), (rules.pinned_drop_once, (R,)), (rules2.visibility, (R,)), (rules2.signatures, (R,)), (rules2.bounds_carried, (R,))):
            for w in ws:
                k = len(run.rep.viol)
                run.apply(fn, [w], *args)
                if len(run.rep.viol) > k:
                    tag = w[0].collide
                    helpers = {x.get("name") for x in w[1].items + w[1].adts + w[1].fns if re.search(r"::(_|\{const#\d+\})::", x["path"] + "::")}
                    # items are not hygienic: a user item in the reserved `_..` name space can carry a helper's name
                    if tag.startswith("_") and tag.split("/")[0] in helpers:
                        tag = "helper-name"
                    run.rep.viol[k:] = [(key + "/" + tag, text) for key, text in run.rep.viol[k:]]
    return n


def collisions():
    """User items that carry the name of an item the macro generates in its private scope, used as
    field types, where a mix-up would show in the facts."""
    words, _ = corpus.harvest()
    names = [w for w in words if w.startswith("_") or w.endswith("MustNotImplDrop") or "Projection" in w]
    out = []
    for n in names:
        for k, (ty, pre) in enumerate((
            ("%s" % n, "pub struct %s(pub ::core::marker::PhantomPinned);\n" % n),
            ("W__<%s<'static>>" % n, "pub struct %s<'a>(pub ::core::marker::PhantomData<&'a ()>, pub ::core::marker::PhantomPinned); pub struct W__<X>(pub ::core::marker::PhantomData<X>);\n" % n),
            ("%s<T>" % n, "pub struct %s<X>(pub X, pub ::core::marker::PhantomPinned);\n" % n),
            ("W__<%s<'static, T>>" % n, "pub struct %s<'a, X>(pub ::core::marker::PhantomData<&'a X>, pub ::core::marker::PhantomPinned); pub struct W__<X>(pub ::core::marker::PhantomData<X>);\n" % n),
            ("%s::Inner" % n, "pub mod %s { pub struct Inner(pub ::core::marker::PhantomPinned); }\n" % n),
            ("%s::__private::PhantomPinned" % n, "pub mod %s { pub mod __private { pub struct PhantomPinned; } }\n" % n),
            ("<u8 as %s>::Ty" % n, "pub trait %s { type Ty; } impl %s for u8 { type Ty = ::core::marker::PhantomPinned; }\n" % (n, n)),
        )):
            for gen in (["T"], []):
                if "T" in re.findall(r"\bT\b", ty) and not gen:
                    continue
                for kind in ("struct", "enum"):
                    fs = [F(ty, True), F("u8"), F("PhantomData<T>" if gen else "u16")]
                    if kind == "struct":
                        d = corpus.st("Foo", fs, "named", params=corpus.params(gen), tag="collision", soft=True, pre=pre, **corpus.ALL)
                    else:
                        d = D("Foo", "enum", [corpus.variant("A", fs, "named"), corpus.variant("B", [F(ty), F("u8", True)], "tuple")], params=corpus.params(gen), tag="collision", soft=True, pre=pre, **corpus.ALL)
                    if k % 2:
                        d.project_replace = None
                    d.collide = "%s/%s/%d%s" % (n, kind, k, "T" if gen else "")
                    out.append(d)
    return out


def c21_guards(thorough):
    """The compile-time guards (no Drop impl, no Unpin impl, no stray UnsafeUnpin or pinned_drop impl,
    a pinned field that is not Unpin) hold whatever names are in scope."""
    words, _ = corpus.harvest()
    base = ["Pin", "PhantomData", "PhantomPinned", "Unpin", "Drop", "Sized", "UnsafeUnpin", "PinnedDrop", "Wrapper", "PinnedFieldsOf", "AlwaysUnpin", "Copy", "Clone", "Send", "core", "std", "alloc", "ptr", "pin", "marker", "mem", "ops", "pin_project", "pin_project_internal", "__private", "_pin_project", "Option", "ManuallyDrop", "Deref"]
    kinds = [
        ("trait", "pub trait %(w)s {}\n"),
        ("blanket", "pub trait %(w)s {} impl<X__: ?::core::marker::Sized> %(w)s for X__ {}\n"),
        ("method trait", "pub trait %(w)s { fn drop(&mut self) {} }\n"),
        ("struct", "pub struct %(w)s;\n"),
        ("alias", "pub type %(w)s<X__> = ::core::marker::PhantomData<*const X__>;\n"),
        ("alias2", "pub type %(w)s<'a__, X__> = ::core::marker::PhantomData<&'a__ X__>;\n"),
        ("mod", "pub mod %(w)s { pub use ::core::*; pub mod marker { pub use ::core::marker::*; pub trait Unpin {} pub struct PhantomPinned; } pub mod ops { pub use ::core::ops::*; pub trait Drop {} } pub mod __private { pub use ::pin_project::__private::*; pub trait Drop {} pub trait Unpin {} pub struct PhantomPinned; pub type PinnedFieldsOf<T> = ::core::marker::PhantomData<*const T>; pub trait PinnedDrop { unsafe fn drop(self: ::core::pin::Pin<&mut Self>); } } pub trait UnsafeUnpin {} impl<X__> UnsafeUnpin for X__ {} }\n"),
        ("glob trait", "pub mod g__ { pub trait %(w)s {} pub struct Dummy__; } #[allow(unused_imports)] use self::g__::*;\n"),
    ]
    pp = "#[::pin_project::pin_project%s] pub struct Foo<T, U> { #[pin] a: T, b: U }\n"
    en = "#[::pin_project::pin_project%s] pub enum Foo<T, U> { A { #[pin] a: T, b: U }, B }\n"
    un = "pub fn is_unpin<T: ?::core::marker::Sized + ::core::marker::Unpin>() {}\n"
    cur = "pub struct MyPP(::core::marker::PhantomPinned); impl ::core::marker::Unpin for MyPP where for<'cursed> str: ::core::marker::Sized {}\n"
    progs = [
        ("drop", pp % "" + "impl<T, U> ::core::ops::Drop for Foo<T, U> { fn drop(&mut self) {} }\n"),
        ("unpin", pp % "" + cur + "impl ::core::marker::Unpin for Foo<MyPP, u8> {}\n"),
        ("unpin-neg", pp % "(!Unpin)" + "impl<T, U> ::core::marker::Unpin for Foo<T, U> {}\n"),
        ("is-unpin", pp % "" + un + "pub fn f() { is_unpin::<Foo<::core::marker::PhantomPinned, u8>>() }\n"),
        ("is-unpin-neg", pp % "(!Unpin)" + un + "pub fn f() { is_unpin::<Foo<u8, u8>>() }\n"),
        ("is-unpin-unsafe", pp % "(UnsafeUnpin)" + un + "pub fn f() { is_unpin::<Foo<u8, u8>>() }\n"),
        ("stray-unsafe-unpin", pp % "" + "unsafe impl<T, U> ::pin_project::UnsafeUnpin for Foo<T, U> {}\n"),
        ("stray-pinned-drop", pp % "" + "#[::pin_project::pinned_drop] impl<T, U> PinnedDrop for Foo<T, U> { fn drop(self: ::core::pin::Pin<&mut Self>) {} }\n"),
        ("enum-drop", en % "(project = P__)" + "impl<T, U> ::core::ops::Drop for Foo<T, U> { fn drop(&mut self) {} }\n"),
        ("enum-unpin", en % "" + cur + "impl ::core::marker::Unpin for Foo<MyPP, u8> {}\n"),
        ("enum-is-unpin", en % "(project_replace = O__)" + un + "pub fn f() { is_unpin::<Foo<::core::marker::PhantomPinned, u8>>() }\n"),
    ]
    out, i = [], 0
    for w in dict.fromkeys(base + sorted(words)):
        if w in corpus.KEYWORDS or w in ("Foo", "str"):
            continue
        near = w in base
        for kind, items in kinds:
            for key, src in progs:
                i += 1
                if not thorough and i % (3 if near else 11):
                    continue
                out.append(rej("guard/%s/%s %s" % (key, kind, w), items % {"w": w} + src, raw=True, why="(the guard must hold whatever is in scope)"))
        if near and not thorough:  # the traits themselves, always
            for kind, items in kinds[:2]:
                for key, src in progs:
                    if w in ("Drop", "Unpin", "UnsafeUnpin", "PinnedDrop", "Sized"):
                        out.append(rej("guard/%s/%s %s" % (key, kind, w), items % {"w": w} + src, raw=True, why="(the guard must hold whatever is in scope)"))
    for key, src in progs:
        out.append(rej("guard/%s/nothing" % key, src, src.rsplit("\n", 2)[0] + "\n", raw=True))
    return out


def c21_cases():
    """A crate that calls itself pin_project, or has a module of that name, cannot put its own items in
    place of the runtime's."""
    out = []
    heads = {
        "self": "extern crate pin_project as orig;\nextern crate self as pin_project;\npub use ::orig::*;\n#[allow(hidden_glob_reexports)] pub mod __private { pub use ::orig::__private::*; %s }\n",
        "mod": "pub mod pin_project { pub use ::pin_project::*; #[allow(hidden_glob_reexports)] pub mod __private { pub use ::pin_project::__private::*; %s } }\nuse ::pin_project::{pin_project, pinned_drop, UnsafeUnpin};\n",
        "alias": "pub mod _pin_project { #[allow(hidden_glob_reexports)] pub mod __private { pub use ::pin_project::__private::*; %s } }\nuse ::pin_project::{pin_project, pinned_drop, UnsafeUnpin};\n",
    }
    items = {
        "Drop": "pub trait Drop {}",
        "Unpin": "pub trait Unpin {}",
        "UnpinAll": "pub trait Unpin {} impl<T: ?Sized> Unpin for T {}",
        "PinnedFieldsOf": "pub type PinnedFieldsOf<T> = ::core::marker::PhantomData<*const T>;",
        "PinnedFieldsOf2": "pub type PinnedFieldsOf<T> = [*const T; 0];",
        "Wrapper": "pub struct Wrapper<'a, T: ?Sized>(::core::marker::PhantomData<&'a T>); unsafe impl<T: ?Sized> super::UnsafeUnpin for Wrapper<'_, T> {}",
        "PhantomPinned": "pub struct PhantomPinned;",
        "PinnedDrop": "pub trait PinnedDrop { fn drop(self: ::core::pin::Pin<&mut Self>); }",
        "PinnedDropUnsafe": "pub trait PinnedDrop { unsafe fn drop(self: ::core::pin::Pin<&mut Self>); }",
        "none": "",
    }
    tail = "use core::{pin::Pin, marker::{PhantomData, PhantomPinned}};\npub fn is_unpin<T: ?Sized + Unpin>() {}\n"
    for h, head in heads.items():
        for n, it in items.items():
            for args in ("", "(!Unpin)", "(UnsafeUnpin)", "(project = P, project_ref = R, project_replace = O)"):
                s = head % it + tail + "#[pin_project%s] pub struct Foo<T, U> { #[pin] a: T, b: U }\n" % args
                k = "%s/%s/%s" % (h, n, args)
                out.append(rej("override-drop/" + k, s + "impl<T, U> Drop for Foo<T, U> { fn drop(&mut self) {} }\n", s if n == "none" else None, raw=True, why="(a Drop impl must be rejected whatever is in scope)"))
                out.append(rej("override-unpin/" + k, s + "pub fn f() { is_unpin::<Foo<PhantomPinned, u8>>() }\n", raw=True, why="(the pinned field is not Unpin)"))
                out.append(rej("override-impl/" + k, s + "impl<T, U> Unpin for Foo<T, U> {}\n", raw=True, why="(a user impl of Unpin must be rejected)"))
            sd = head % it + tail + "#[pin_project(PinnedDrop)] pub struct Foo<T> { #[pin] a: T }\n#[pinned_drop] impl<T> PinnedDrop for Foo<T> { fn drop(self: Pin<&mut Self>) {} }\n"
            for j, call in enumerate(("::pin_project::__private::PinnedDrop::drop(x);", "crate::pin_project::__private::PinnedDrop::drop(x);", "crate::__private::PinnedDrop::drop(x);", "x.drop();")):
                out.append(rej("override-call/%s/%s/%d" % (h, n, j), sd + "use ::pin_project::__private::PinnedDrop as _;\npub fn f(x: Pin<&mut Foo<u8>>) { %s }\n" % call, sd if n == "none" and j == 0 else None, raw=True, why="(the pinned destructor must not be callable by safe code)"))
    # a crate that calls itself core, std or alloc
    for c in ("core", "std", "alloc"):
        real = "real_%s" % ("core" if c == "core" else "std")
        head = "#![no_implicit_prelude]\nextern crate core as real_core; extern crate std as real_std; extern crate self as %s;\n" % c
        head += "pub mod ops { pub trait Drop {} pub use ::real_core::ops::Deref; } pub mod marker { pub trait Unpin {} impl<T: ?::real_core::marker::Sized> Unpin for T {} pub struct PhantomPinned; pub use ::real_core::marker::{PhantomData, Sized}; } pub mod pin { pub struct Pin<P>(pub P); } pub mod mem { pub use ::real_core::mem::*; } pub mod ptr { pub use ::real_core::ptr::*; } pub mod prelude { pub mod v1 { pub use ::real_core::prelude::v1::*; } pub use self::v1 as rust_2021; }\n"
        tail = "pub fn is_unpin<T: ?::real_core::marker::Sized + ::real_core::marker::Unpin>() {}\n"
        for kind in ("struct", "enum"):
            for args in ("", "(!Unpin)", "(UnsafeUnpin)", "(project = P, project_ref = R, project_replace = O)", "(PinnedDrop)"):
                s = head + tail + "#[::pin_project::pin_project%s] " % args + ("pub struct Foo<T, U> { #[pin] a: T, b: U }\n" if kind == "struct" else "pub enum Foo<T, U> { A { #[pin] a: T, b: U }, B(U), C }\n")
                if "PinnedDrop" in args:
                    s += "#[::pin_project::pinned_drop] impl<T, U> PinnedDrop for Foo<T, U> { fn drop(self: ::real_core::pin::Pin<&mut Self>) {} }\n" if c != "core" else "#[::pin_project::pinned_drop] impl<T, U> PinnedDrop for Foo<T, U> { fn drop(self: P_<&mut Self>) {} }\nuse ::real_core::pin::Pin as P_;\n"
                    s = s.replace("::real_core::pin::Pin<&mut", "Pin<&mut").replace("P_<&mut", "Pin<&mut").replace("use ::real_core::pin::Pin as P_;", "") + "use ::real_core::pin::Pin;\n"
                k = "%s/%s/%s" % (c, kind, args)
                out.append(rej("crate-name-drop/" + k, s + "impl<T, U> ::real_core::ops::Drop for Foo<T, U> { fn drop(&mut self) {} }\n", raw=True, why="(a Drop impl must be rejected whatever is in scope)"))
                out.append(rej("crate-name-unpin/" + k, s + "pub fn f() { is_unpin::<Foo<::real_core::marker::PhantomPinned, u8>>() }\n", raw=True, why="(the pinned field is not Unpin)"))
                out.append(rej("crate-name-impl/" + k, s + "pub struct My(::real_core::marker::PhantomPinned); impl ::real_core::marker::Unpin for My where for<'x> str: ::real_core::marker::Sized {} impl ::real_core::marker::Unpin for Foo<My, u8> {}\n", raw=True, why="(a user impl of Unpin must be rejected)"))
                if "PinnedDrop" not in args:
                    out.append(rej("crate-name-stray/" + k, s + "#[::pin_project::pinned_drop] impl<T, U> PinnedDrop for Foo<T, U> { fn drop(self: Pin<&mut Self>) {} }\nuse ::real_core::pin::Pin;\n", raw=True, why="(a stray destructor must be rejected)"))
                if kind == "struct" or "project" in args:
                    out.append(rej("crate-name-mut/" + k, s + "pub fn f<'a>(x: ::real_core::pin::Pin<&'a mut Foo<u8, u8>>) -> &'a mut u8 { %s }\n" % ("x.project().a" if kind == "struct" else "match x.project() { P::A { a, .. } => a, _ => loop {} }"), raw=True, why="(a pinned field is projected pinned)"))
                    out.append(K("crate-name-ok/" + k, s + "pub fn f<'a>(x: ::real_core::pin::Pin<&'a mut Foo<u8, u8>>) -> ::real_core::pin::Pin<&'a mut u8> { %s }\n" % ("x.project().a" if kind == "struct" else "match x.project() { P::A { a, .. } => a, _ => loop {} }"), True, soft=True))
    return out


# ---------------------------------------------------------------- C22
def raw_places(b):
    """Places of a body that go through a raw pointer."""
    tys = [l["ty"] for l in b["locals"]]
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) and x[1] and x[0] < len(tys):
                if x[1][0] == "*" and tys[x[0]].get("k") == "raw":
                    yield x
            for v in x:
                yield from go(v)
        elif isinstance(x, dict):
            for v in x.values():
                yield from go(v)
    for blk in b["blocks"]:
        yield from go(blk["s"])
        yield from go({k: v for k, v in blk["t"].items() if k not in ("t", "u", "targets", "otherwise")})


def mentions(t, path):
    return path in set(type_paths(t))


def unsafe_reasons(f, fns, seen=()):
    """Why a body needs unsafe: [(construct)], following calls of the crate's own safe functions."""
    bs = facts.bodies(f)
    for g in (g for b in bs for g in fn_refs(b)):
        if g.get("unsafe"):
            yield "calls the unsafe %s" % (g.get("resolved") or g["path"])
        p = g.get("resolved") or g["path"]
        h = fns.get(p)
        if h is not None and not h["unsafe"] and p not in seen and p != f["path"] and h.get("trait") != "core::ops::drop::Drop":
            for r in unsafe_reasons(h, fns, seen + (f["path"],)):
                yield "%s in %s" % (r, p)
    for pl in (x for b in bs for x in raw_places(b)):
        yield "goes through a raw pointer"
    for c in (c for b in bs for c in consts(b)):
        if c.get("static"):
            yield "uses the static %s" % c["static"]


def c22(run):
    cx = run.ctx()
    fx = cx.deps.facts("pin_project")
    fns = {f["path"]: f for f in fx["fns"]}
    adts = {a["path"]: a for a in fx["adts"]}
    items = {i["path"]: i for i in fx["items"]}
    rep = run.rep
    def where(f):
        return "%s (%s)" % (f["path"], f.get("span", "").split(": ")[0])
    drops = {d["self"]["path"]: d["fn"] for d in fx["drops"] if d["self"]["k"] == "adt"}
    # 1. types whose destructor goes through pointers they were given
    guards = []
    for path, fn in drops.items():
        f = fns.get(fn)
        if f is None or path not in adts:
            continue
        rep.count("destructors of the runtime crate")
        if not list(unsafe_reasons(f, fns)):
            continue
        guards.append(path)
        a = adts[path]
        rep.count("guard types")
        for v in a["variants"]:
            for x in v["fields"]:
                if x["vis"] == "pub":
                    run.bad("C22/guard-field", "field `%s` of the guard %s is public: safe code can set the pointer its destructor uses (%s)" % (x["name"], path, a["span"]))
    # 2. every way to make a guard is unsafe
    for f in fx["fns"]:
        b = f.get("body")
        if not b:
            continue
        rep.count("functions of the runtime crate")
        run.unit(f["path"])
        for blk in (k for x in facts.bodies(f) for k in x["blocks"]):
            for s in blk["s"]:
                k = (s.get("rv") or {}).get("agg")
                if isinstance(k, dict) and k.get("adt") in guards:
                    rep.count("guard constructions")
                    if not f["unsafe"] and reachable(f):
                        run.bad("C22/guard-new", "the safe function %s makes a guard %s" % (where(f), k["adt"]))
        # 3. no safe function does unsafe things
        if not f["unsafe"] and reachable(f):
            if f.get("trait") == "core::ops::drop::Drop" and (f.get("impl_self") or {}).get("path") in guards:
                continue
            for r in unsafe_reasons(f, fns):
                run.bad("C22/safe-fn", "the safe function %s %s" % (where(f), r))
        if not f["unsafe"] and reachable(f) and any(mentions(f["output"], g) for g in guards):
            run.bad("C22/guard-new", "the safe function %s returns a guard" % where(f))
    # 4. unsafe interfaces
    uu = items.get("pin_project::UnsafeUnpin")
    if uu is None or uu["kind"] != "Trait" or not uu["unsafe"]:
        run.bad("C22/unsafeunpin-safe", "UnsafeUnpin is not an unsafe trait")
    for f in fx["fns"]:
        if f["parent_kind"] == "Trait" and f["inputs"] and f["inputs"][0].get("path") == "core::pin::Pin" and mentions_self(f["inputs"][0]):
            rep.count("trait methods on a pinned receiver")
            if not f["unsafe"]:
                run.bad("C22/pinneddrop-safe", "the trait method %s on a pinned receiver is safe to call" % where(f))
    # 5. Unpin impls of the crate stand on nothing
    for i in fx["impls"]:
        if i.get("trait") == "core::marker::Unpin":
            rep.count("Unpin impls")
            a = adts.get(i["self"].get("path"))
            if a is None:
                run.bad("C22/unpin-impl", "the crate implements Unpin for %s (%s)" % (facts.show(i["self"]), i["span"]))
                continue
            for v in a["variants"]:
                for x in v["fields"]:
                    if not never_pinned(x["ty"]):
                        run.bad("C22/unpin-impl", "%s implements Unpin although it holds `%s: %s` (%s)" % (a["path"], x["name"], facts.show(x["ty"]), i["span"]))
        elif i.get("trait") in ("core::ops::deref::Deref", "core::ops::deref::DerefMut", "core::clone::Clone", "core::default::Default", "core::convert::From") and i["self"].get("path") in guards:
            run.bad("C22/guard-impl", "%s is implemented for the guard %s (%s)" % (i["trait"], i["self"]["path"], i["span"]))
    # 6. what the guards do, by interpretation of constructor and destructor
    prog = I.Program(fx)
    kinds = {}
    for path in guards:
        for f in fx["fns"]:
            if f["output"].get("path") == path and f.get("body"):
                guard_meaning(run, prog, f, path, drops[path], kinds, where)
    rep.count("guard meanings", sum(kinds.values()))
    # 7. type helpers and misuse, from a client's point of view
    run.cases(c22_cases(items))
    c22_queries(run, items)


def c08_runtime(run):
    """No safe function of the runtime crate leads to the pinned destructor."""
    fx = run.ctx().deps.facts("pin_project")
    by = {f["path"]: f for f in fx["fns"]}
    goal = {f["path"] for f in fx["fns"] if f["parent_kind"] == "Trait" and not f.get("body") and f["inputs"] and f["inputs"][0].get("path") == "core::pin::Pin" and mentions_self(f["inputs"][0])}
    if not goal:
        run.bad("C08/no-trait", "the runtime crate declares no trait method on a pinned receiver")
    edges = {p: rules.callees(f) for p, f in by.items()}
    reach, ch = set(goal), True
    while ch:
        ch = False
        for p, c in edges.items():
            if p not in reach and c & reach:
                reach.add(p)
                ch = True
    run.rep.count("functions of the runtime crate", len(by))
    for p in sorted(reach):
        f = by[p]
        if not f["unsafe"] and reachable(f) and f.get("trait") != "core::ops::drop::Drop" or not f["unsafe"] and p in goal:
            run.bad("C08/runtime", "the safe function %s (%s) of the runtime crate runs a pinned destructor" % (p, f.get("span", "").split(": ")[0]))


def reachable(f):
    return f["vis"] == "pub" or f.get("trait")


def mentions_self(t):
    if isinstance(t, dict):
        if t.get("k") == "param" and t.get("name") == "Self":
            return True
        return any(mentions_self(v) for v in t.values())
    if isinstance(t, list):
        return any(mentions_self(v) for v in t)
    return False


PRIM = {"bool", "char", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}


def never_pinned(t):
    """Unpin whatever its parameters are."""
    k = t.get("k")
    if k in ("ref", "raw"):
        return True
    if k == "adt":
        return t["path"] == "core::marker::PhantomData" or t["path"] == "core::ptr::non_null::NonNull"
    if k == "tuple":
        return all(never_pinned(x) for x in t["args"])
    return t.get("s") in PRIM or t.get("name") in PRIM and k != "param"


def guard_meaning(run, prog, f, path, dropfn, kinds, where):
    """new(target[, value]) followed by the guard's destructor, on every path."""
    sig = [x["k"] for x in f["inputs"]]
    if sig == ["raw"]:
        kind = "drop"
    elif sig == ["raw", "param"]:
        kind = "overwrite"
    else:
        return
    for panics in (False, True):
        ip = I.Interp(prog, panics=panics)
        st = I.State({"TARGET": (I.TOK, "old")})
        args = [(I.REF, "TARGET", ())] + ([(I.TOK, "new")] if kind == "overwrite" else [])
        try:
            outs = ip.call_fn(st, f["path"], args)
            ends = []
            for s, o, val in outs:
                if o != "ret" or [e for e in s.log if e[0] != "read"] or s.mem.get("TARGET") != (I.TOK, "old"):
                    run.bad("C22/guard-constructor", "making the guard does something: %s %s" % (where(f), s.log))
                    return
                s.mem["GUARD"] = val
                ends += ip.glue(s, ("GUARD", ()), 0)
        except I.Give as e:
            run.bad("C22/undecided", "analysis gave up (%s) on the guard %s" % (e, path))
            return
        kinds[path] = 1
        run.rep.count("guard exits", len(ends))
        for s, o in ends:
            dr = [e for e in s.log if e[0] == "drop"]
            odd = [e for e in s.log if e[0] in ("unk", "forget", "diverge", "user")]
            if odd:
                run.bad("C22/guard-unknown", "the destructor of %s does something unexpected: %s" % (path, odd[0]))
            if kind == "drop":
                if [(e[1], e[2]) for e in dr] != [("old", "TARGET")]:
                    run.bad("C22/drop-guard", "the drop guard %s drops %s instead of its target exactly once in place (exit: %s)" % (path, [e[1:] for e in dr], o))
                if [e for e in s.log if e[0] == "write"]:
                    run.bad("C22/drop-guard", "the drop guard %s writes to its target" % path)
            else:
                if dr:
                    run.bad("C22/overwrite-guard", "the overwrite guard %s drops %s" % (path, [e[1:] for e in dr]))
                w = [e for e in s.log if e[0] == "write" and e[1] == "TARGET"]
                if s.mem.get("TARGET") != (I.TOK, "new") or len(w) != 1:
                    run.bad("C22/overwrite-guard", "the overwrite guard %s leaves %s in its target after %d writes" % (path, I.show(s.mem.get("TARGET")), len(w)))
    run.rep.sample({"guard": path, "constructor": f["path"], "kind": kind, "rule": "constructor then destructor: target dropped exactly once in place / overwritten exactly once, nothing dropped"}, 4)


def c22_cases(items):
    """Client programs without unsafe. Names of hidden items are used only if the crate has them."""
    P = "pin_project::__private::"
    have = lambda n: (P + n) in items
    U = "#![forbid(unsafe_code)]\n"
    use = "use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use std::{pin::Pin, marker::{PhantomData, PhantomPinned}};\npub fn is_unpin<T: ?Sized + Unpin>() {}\npub fn is_uu<T: ?Sized + UnsafeUnpin>() {}\n"
    out = []
    def r(key, src, twin=None, forbid=True):
        out.append(rej(key, use + src, use + twin if twin is not None else None, raw=True, attrs=(U if forbid else ""), why="(client without unsafe code)"))
    for g, args, lits in (("UnsafeDropInPlaceGuard", ("p",), ("(p)", " { 0: p }")), ("UnsafeOverwriteGuard", ("p", "1"), (" { target: p, value: ::std::mem::ManuallyDrop::new(1) }",))):
        if not have(g):
            continue
        twin = "pub fn f(_p: *mut u8) -> Option<%s%s<u8>> { None }\n" % (P, g)
        r("guard/%s/new" % g, "pub fn f(p: *mut u8) { let _ = %s%s::new(%s); }\n" % (P, g, ", ".join(args)), twin, False)
        for l in lits:
            r("guard/%s/literal%s" % (g, l[:2].strip()), "pub fn f(p: *mut u8) { let _ = %s%s%s; }\n" % (P, g, l), twin, False)
        r("guard/%s/default" % g, "pub fn f() { let _: %s%s<u8> = Default::default(); }\n" % (P, g))
        r("guard/%s/from" % g, "pub fn f(p: *mut u8) { let _: %s%s<u8> = p.into(); }\n" % (P, g))
        r("guard/%s/clone" % g, "pub fn f(p: &%s%s<u8>) -> %s%s<u8> { p.clone() }\n" % (P, g, P, g))
        r("guard/%s/field" % g, "pub fn f(p: &mut %s%s<u8>) { p.0 = ::std::ptr::null_mut(); }\n" % (P, g))
        r("guard/%s/field2" % g, "pub fn f(p: &mut %s%s<u8>) { p.target = ::std::ptr::null_mut(); }\n" % (P, g))
        r("guard/%s/deref" % g, "pub fn f(p: &%s%s<u8>) -> u8 { **p }\n" % (P, g))
        r("guard/%s/send" % g, "pub fn s<T: Send>() {} pub fn f() { s::<%s%s<u8>>() }\n" % (P, g))
    # asserting UnsafeUnpin
    for k, head in enumerate(("impl UnsafeUnpin for Foo {}", "impl pin_project::UnsafeUnpin for Foo {}", "impl<'a> UnsafeUnpin for &'a Foo {}", "impl UnsafeUnpin for Box<Foo> {}", "#[derive(UnsafeUnpin)] pub struct Bar;")):
        r("assert-unsafeunpin/%d" % k, "pub struct Foo;\n%s\n" % head, "pub struct Foo;\n", False)
    r("forbid-unsafeunpin", "pub struct Foo;\nunsafe impl UnsafeUnpin for Foo {}\n", "pub struct Foo;\n")
    for k, t in enumerate(("u8", "()", "PhantomPinned", "Box<u8>", "&'static u8", "Pin<Box<u8>>", "PhantomData<u8>", "str", "[u8]", "dyn Send", "fn()", "Option<u8>", "*const u8")):
        r("no-unsafeunpin/%d" % k, "pub fn f() { is_uu::<%s>() }\n" % t, "pub fn f() { let _ = ::std::mem::size_of::<*const %s>(); }\n" % ("(%s)" % t if t == "dyn Send" else t))
    r("no-unsafeunpin/param", "pub fn f<T>() { is_uu::<T>() }\n", "pub fn f<T: UnsafeUnpin>() { is_uu::<T>() }\n")
    r("no-unsafeunpin/unpin", "pub fn f<T: Unpin>() { is_uu::<T>() }\n")
    if have("Wrapper"):
        W = P + "Wrapper"
        r("wrapper/without", "pub fn f<T>() { is_uu::<%s<'static, T>>() }\n" % W, "pub fn f<T: UnsafeUnpin>() { is_uu::<%s<'static, T>>() }\n" % W)
        r("wrapper/unpin", "pub fn f<T: Unpin>() { is_uu::<%s<'static, T>>() }\n" % W)
        r("wrapper/dyn", "pub fn f() { is_uu::<%s<'static, dyn Send>>() }\n" % W)
        r("wrapper/lifetime", "pub fn f<'a, T: UnsafeUnpin + ?Sized>() { is_unpin::<%s<'a, T>>() }\n" % W, "pub fn f<'a, T: UnsafeUnpin + ?Sized>() { is_uu::<%s<'a, T>>() }\n" % W)
        r("wrapper/unpin2", "pub fn f() { is_unpin::<%s<'static, PhantomPinned>>() }\n" % W, "pub fn f() { is_unpin::<%s<'static, u8>>() }\n" % W)
        r("wrapper/make", "pub fn f<'a>() { let _ = %s(PhantomData::<&'a ()>, 1u8); }\n" % W, "pub fn f<'a>(_: &%s<'a, u8>) {}\n" % W)
        r("wrapper/into", "pub fn f<'a, T>(p: Pin<&'a mut %s<'a, T>>) -> Pin<&'a mut T> { p.0 }\n" % W, "pub fn f<'a, T>(_: Pin<&'a mut %s<'a, T>>) {}\n" % W)
    if have("AlwaysUnpin"):
        A = P + "AlwaysUnpin"
        out.append(acc("alwaysunpin", "pub fn is_unpin<T: ?Sized + Unpin>() {} pub fn f<'a, T>() { is_unpin::<%s<'a, T>>() }\n" % A))
        r("alwaysunpin/make", "pub fn f() { let _ = %s(PhantomData::<&()>, PhantomPinned); }\n" % A, "pub fn f<T>(_: &%s<'static, T>) {}\n" % A)
    if have("PinnedFieldsOf"):
        Q = P + "PinnedFieldsOf"
        r("pinnedfieldsof/not", "pub fn f<T>() { is_unpin::<%s<T>>() }\n" % Q, "pub fn f<T: Unpin>() { is_unpin::<%s<T>>() }\n" % Q)
        r("pinnedfieldsof/pp", "pub fn f() { is_unpin::<%s<PhantomPinned>>() }\n" % Q, "pub fn f() { is_unpin::<%s<u8>>() }\n" % Q)
    if have("PinnedDrop"):
        D_ = P + "PinnedDrop"
        base = "#[pin_project(PinnedDrop)] pub struct Foo<T> { #[pin] a: T }\n#[pinned_drop] impl<T> PinnedDrop for Foo<T> { fn drop(self: Pin<&mut Self>) {} }\n"
        r("pinneddrop/ufcs", base + "pub fn f(x: Pin<&mut Foo<u8>>) { %s::drop(x) }\n" % D_, base, False)
        r("pinneddrop/method", base + "use %s as _;\npub fn f(x: Pin<&mut Foo<u8>>) { x.drop() }\n" % D_, base + "use %s as _;\n" % D_, False)
        r("pinneddrop/generic", base + "pub fn f<T: %s>(x: Pin<&mut T>) { x.drop() }\n" % D_, base + "pub fn f<T: %s>(_: Pin<&mut T>) {}\n" % D_, False)
        r("pinneddrop/dyn", base + "pub fn f(x: Pin<&mut dyn %s>) { x.drop() }\n" % D_, base + "pub fn f(_: Pin<&mut dyn %s>) {}\n" % D_, False)
        r("pinneddrop/pointer", base + "pub fn f() -> fn(Pin<&mut Foo<u8>>) { <Foo<u8> as %s>::drop }\n" % D_, base + "pub fn f() -> unsafe fn(Pin<&mut Foo<u8>>) { <Foo<u8> as %s>::drop }\n" % D_, False)
    # the hidden derive, used directly, gives nothing the attribute does not
    der = "#[derive(pin_project::__private::__PinProjectInternalDerive)]\n"
    for k, a in enumerate(("", "#[pin(__private())]\n", "#[pin(__private(UnsafeUnpin))]\n", "#[pin(__private(!Unpin))]\n", "#[pin(__private(project = P, project_ref = R))]\n")):
        st = "pub struct Foo<T, U> { #[pin] a: T, b: U }\n"
        r("derive/drop/%d" % k, der + a + st + "impl<T, U> Drop for Foo<T, U> { fn drop(&mut self) {} }\n") if a else None
        r("derive/unpin/%d" % k, der + a + st + "pub fn f() { is_unpin::<Foo<PhantomPinned, u8>>() }\npub fn g(x: Pin<&mut Foo<PhantomPinned, u8>>) { let _ = x.project(); }\n")
        r("derive/impl/%d" % k, der + a + st + "impl<T, U> Unpin for Foo<T, U> {}\npub fn g(x: Pin<&mut Foo<PhantomPinned, u8>>) { let _ = x.project(); }\n")
        for j, pk in enumerate(("#[repr(packed)]", "#[repr(C, packed(2))]", "#[repr(packed(1))]")):
            r("derive/packed/%d/%d" % (k, j), der + a + pk + st + "pub fn g(x: Pin<&mut Foo<u8, u16>>) { let _ = x.project(); }\n")
            r("derive/packed-before/%d/%d" % (k, j), pk + der + a + st + "pub fn g(x: Pin<&mut Foo<u8, u16>>) { let _ = x.project(); }\n")
    return out


def c22_queries(run, items):
    """PinnedFieldsOf<T> is T itself."""
    P = "pin_project::__private::"
    if P + "PinnedFieldsOf" in items:
        run.cases([
            acc("pinnedfieldsof/same", "pub fn f<T: ?Sized>(x: *const %sPinnedFieldsOf<T>) -> *const T { x }\npub fn g<T: ?Sized>(x: *const T) -> *const %sPinnedFieldsOf<T> { x }\n" % (P, P)),
        ])


# ---------------------------------------------------------------- C23 (runtime crate)
def c23(run):
    cx = run.ctx()
    fx = cx.deps.facts("pin_project")
    n = 0
    for f in fx["fns"]:
        if not f.get("body"):
            continue
        n += 1
        run.rep.count("runtime functions")
        for kind, text in rules2.body_faults(f, lambda c, q: False, ("core", "pin_project")):
            run.bad("C23/runtime-" + kind, "the runtime crate contains %s: %s (%s)" % (text, f["path"], f["span"]))
    for s in fx["statics"]:
        run.bad("C23/runtime-static", "the runtime crate declares the static %s (%s)" % (s["path"], s["span"]))
    for i in fx["items"]:
        if i["kind"] == "ExternCrate" and i["name"] not in ("core", "pin_project_internal") and not i["path"].endswith("::_"):
            run.bad("C23/runtime-crate", "the runtime crate links %s" % i["path"])
        if i["kind"] == "ForeignMod":
            run.bad("C23/runtime-foreign", "the runtime crate declares foreign items (%s)" % i["path"])
    # the whole corpus in a crate without std: nothing but core and the runtime crate may be named
    ds = [d for d in corpus.core(run.seed, run.thorough) if not d.soft and d.raw_decl is None and not re.search(r"\b(std|alloc|String|Vec|Box)\b", d.item_src() + d.pre + d.post + d.drop_body)]
    ds = ds if run.thorough else ds[::3]
    no_std(run, cx, [("m%d" % i, decl.module("m%d" % i, d)) for i, d in enumerate(ds)])


def no_std(run, cx, mods):
    """Compiles modules in `#![no_std]` crates with no access to std or alloc."""
    k = build.JOBS
    def one(g, attr="#![no_std]\n"):
        return C.rustc(cx, attr + "#![allow(warnings)]\npub mod outer {\n" + "".join(s for _, s in g) + "}\n", stem="ns")
    groups = [g for g in (mods[i::k] for i in range(k)) if g]
    for g, r in zip(groups, C.pool(one, groups)):
        run.rep.count("declarations in no_std crates", len(g))
        if r.ok:
            continue
        # which ones? only those that compile where std is
        for m, r1 in zip(g, C.pool(lambda m: one([m]), g)):
            if not r1.ok and one([m], "").ok:
                run.bad("C23/no-std", "does not compile in a crate without std (%s): %s" % (r1.text(1), " ".join(m[1].split())[:300]), m[1])
