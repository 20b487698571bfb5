"""A model of annotated declarations, from which witnesses and their expected facts are derived."""
from dataclasses import dataclass, field, replace as dc_replace
from typing import List, Optional


@dataclass
class F:
    ty: str
    pin: bool = False
    name: Optional[str] = None
    vis: str = ""
    before: str = ""  # attributes before the pin marker
    after: str = ""  # attributes after it
    marker: str = "#[pin]"
    on: bool = True  # False: configured out (attributes in `before` say so)


@dataclass
class V:
    name: Optional[str]
    style: str  # named | tuple | unit
    fields: List[F] = field(default_factory=list)
    attrs: str = ""
    on: bool = True


@dataclass
class P:
    """generic parameter"""
    kind: str  # lt | ty | const
    name: str
    bounds: str = ""
    default: str = ""


@dataclass
class D:
    name: str
    kind: str  # struct | enum
    variants: List[V]
    params: List[P] = field(default_factory=list)
    where: List[str] = field(default_factory=list)
    vis: str = "pub"
    attrs: str = ""  # other attributes, placed after #[pin_project]
    attrs_before: str = ""
    project: Optional[str] = None
    project_ref: Optional[str] = None
    project_replace: Optional[str] = None  # "" = unnamed
    unpin: Optional[str] = None  # "!Unpin" | "UnsafeUnpin"
    pinned_drop: bool = False
    order: Optional[List[int]] = None
    trailing: bool = False
    pre: str = ""  # auxiliary items
    post: str = ""
    unsafe_unpin_impls: str = ""
    drop_body: str = ""
    inst: List[dict] = field(default_factory=list)
    tag: str = ""
    inner_path: str = ""
    wrap_open: str = ""
    wrap_close: str = ""
    raw_decl: Optional[str] = None  # overrides the rendered declaration (macro tests)
    soft: bool = False  # may be rejected; if accepted it must be right
    sized: bool = True
    attr_path: str = ""  # prefix of the attribute paths
    pin_path: str = "Pin"
    frag: str = ""  # parts handed to a macro_rules macro as fragments: t(ypes) f(ields) v(isibilities) n(ames)

    # ---------------------------------------------------------------- rendering
    def args(self):
        a = []
        if self.project is not None:
            a.append("project = " + self.project)
        if self.project_ref is not None:
            a.append("project_ref = " + self.project_ref)
        if self.project_replace is not None:
            a.append("project_replace" + (" = " + self.project_replace if self.project_replace else ""))
        if self.unpin:
            a.append(self.unpin)
        if self.pinned_drop:
            a.append("PinnedDrop")
        if self.order:
            a = [a[i] for i in self.order]
        return ", ".join(a) + ("," if self.trailing and a else "")

    def generics_decl(self):
        if not self.params:
            return ""
        out = []
        for p in self.params:
            if p.kind == "const":
                out.append("const %s: %s%s" % (p.name, p.bounds, " = " + p.default if p.default else ""))
            else:
                out.append(p.name + (": " + p.bounds if p.bounds else "") + (" = " + p.default if p.default else ""))
        return "<" + ", ".join(out) + ">"

    def generics_impl(self, extra=()):
        out = list(extra)
        for p in self.params:
            if p.kind == "const":
                out.append("const %s: %s" % (p.name, p.bounds))
            else:
                out.append(p.name + (": " + p.bounds if p.bounds else ""))
        return "<" + ", ".join(out) + ">" if out else ""

    def generics_use(self):
        return "<" + ", ".join(p.name for p in self.params) + ">" if self.params else ""

    def where_clause(self, extra=()):
        w = list(self.where) + list(extra)
        return " where " + ", ".join(w) if w else ""

    def field_src(self, f, annotate):
        m = f.marker if (f.pin and annotate) else ""
        if f.pin and not annotate and "allow(dead_code), pin" in f.marker:
            m = f.marker.replace(", pin", "")
        nm = f.name + ": " if f.name is not None else ""
        return " ".join(x for x in (f.before, m, f.after, f.vis, nm + f.ty) if x)

    def fields_src(self, v, annotate):
        fs = ", ".join(self.field_src(f, annotate) for f in v.fields)
        if v.style == "named":
            return " { " + fs + " }"
        if v.style == "tuple":
            return "(" + fs + ")"
        return ""

    def item_src(self, annotate=True):
        a = ""
        if annotate:
            args = self.args()
            a = "#[%spin_project%s]\n" % (self.attr_path, "(" + args + ")" if args else "")
        head = "%s%s%s\n%s " % (self.attrs_before + "\n" if self.attrs_before else "", a, self.attrs, self.vis)
        if self.kind == "struct":
            v = self.variants[0]
            if v.style == "named":
                return head + "struct %s%s%s%s" % (self.name, self.generics_decl(), self.where_clause(), self.fields_src(v, annotate))
            return head + "struct %s%s%s%s;" % (self.name, self.generics_decl(), self.fields_src(v, annotate), self.where_clause())
        vs = ", ".join((v.attrs + " " if v.attrs else "") + v.name + self.fields_src(v, annotate) for v in self.variants)
        return head + "enum %s%s%s { %s }" % (self.name, self.generics_decl(), self.where_clause(), vs)

    def frag_src(self, annotate):
        """The declaration as the output of a macro_rules macro that is given its parts."""
        e, par, arg = self.copy(), [], []

        def sub(kind, text):
            v = "$x%d" % len(par)
            par.append(v + ":" + kind)
            arg.append(text)
            return v

        if "n" in self.frag:
            e.name = sub("ident", e.name)
        if "v" in self.frag:
            e.vis = sub("vis", e.vis)
        for v in e.variants:
            if "n" in self.frag and v.name is not None and e.kind == "enum":
                v.name = sub("ident", v.name)
            for f in v.fields:
                if "v" in self.frag and e.kind == "struct":
                    f.vis = sub("vis", f.vis)
                if "f" in self.frag and f.name is not None:
                    f.name = sub("ident", f.name)
                if "t" in self.frag:
                    f.ty = sub("ty", f.ty)
        return "macro_rules! mk__ { (%s , end) => { %s } }\nmk__! { %s , end }" % (" , ".join(par), e.item_src(annotate), " , ".join(arg))

    def self_ty(self):
        return self.name + self.generics_use()

    def decl_src(self, annotate=True):
        s = self.raw_decl if self.raw_decl is not None else self.frag_src(annotate) if self.frag else self.item_src(annotate)
        if annotate and self.pinned_drop:
            s += "\n#[%spinned_drop]\nimpl%s PinnedDrop for %s%s { fn drop(self: %s<&mut Self>) { %s } }" % (self.attr_path, self.generics_impl(), self.self_ty(), self.where_clause(), self.pin_path, self.drop_body)
        return s

    # ---------------------------------------------------------------- expectations
    def live_variants(self):
        return [v for v in self.variants if v.on]

    def live_fields(self, v):
        return [f for f in v.fields if f.on]

    def field_names(self, v):
        return [strip_raw(f.name) if f.name is not None else str(i) for i, f in enumerate(self.live_fields(v))]

    def pinned_types(self):
        return [f.ty for v in self.live_variants() for f in self.live_fields(v) if f.pin]

    def methods(self):
        if self.kind == "struct":
            m = ["project", "project_ref"]
            if self.project_replace is not None:
                m.append("project_replace")
            return m
        m = []
        if self.project is not None:
            m.append("project")
        if self.project_ref is not None:
            m.append("project_ref")
        if self.project_replace:
            m.append("project_replace")
        return m

    def copy(self, **kw):
        import copy
        d = copy.deepcopy(self)
        for k, v in kw.items():
            setattr(d, k, v)
        return d


def strip_raw(n):
    return n[2:] if n is not None and n.startswith("r#") else n


USES = "#[allow(unused_imports)] use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; #[allow(unused_imports)] use core::{pin::Pin, marker::{PhantomData, PhantomPinned}};\n"


def module(name, d, annotate=True, queries=(), uses=USES, extra=""):
    """The source of a witness module for a declaration. `queries`: functions q_* appended."""
    q = "\n".join(queries)
    body = "%s%s\n%s%s%s\n%s\n%s\n%s\n%s" % (uses, d.pre, d.wrap_open, d.decl_src(annotate), d.wrap_close, d.unsafe_unpin_impls if annotate else "", d.post, extra, q)
    return "pub mod %s {\n%s\n}\n" % (name, body)
