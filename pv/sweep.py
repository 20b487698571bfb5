"""Forbidden additions to every declaration of the corpus: each must make the program fail, although the
declaration alone compiles and, where the addition is an ordinary impl or attribute, so does the addition
to the plain declaration."""
from . import build, compile as C, corpus, decl
from .rules import describe


def always_unsized(d):
    if d.sized:
        return False
    ps = {p.name for p in d.params}
    fs = [f for v in d.live_variants() for f in d.live_fields(v)]
    return not (fs and fs[-1].ty in ps)


def sweep(run, what, ds, form, plain_control=True):
    """form(d) -> None | (declaration to annotate, extra source). What comes back must be rejected."""
    cx = run.ctx()
    items = []
    for d in ds:
        if d.raw_decl is not None or d.soft:
            continue
        x = form(d)
        if x is not None:
            items.append((d, x[0], x[1]))

    def mods(annot, extra=True):
        out = []
        for i, (d, e, x) in enumerate(items):
            e = e if extra else d
            e = e.copy(wrap_close=(x if extra else "") + "\n" + e.wrap_close)
            out.append(("m%d" % i, decl.module("m%d" % i, e, annot)))
        return out

    bad = C.compile_modules(cx, mods(True), facts=False, stem="s", flags=corpus.CFG_FLAGS).failed
    if "(whole crate)" in bad:
        raise build.BuildError("sweep: " + bad["(whole crate)"])
    vac = {}
    if plain_control:
        vac = C.compile_modules(cx, mods(False), facts=False, stem="p", flags=corpus.CFG_FLAGS).failed
    src = dict(mods(True))
    for i, (d, e, x) in enumerate(items):
        k = "m%d" % i
        if k in vac:
            run.rep.count(what + ": not applicable")
            continue
        if k in bad:
            run.rep.count(what + ": rejected")
            run.unit(what + src[k].replace(k, "m"))
            continue
        alone = C.rustc(cx, C.HEAD + C.OPEN + src[k] + C.CLOSE, flags=list(corpus.CFG_FLAGS))
        if alone.ok:
            run.bad("%s/sweep/%s" % (run.prop, what.replace(" ", "-")), "a forbidden addition (%s) is accepted: %s %s" % (what, describe(e), " ".join(x.split())), src[k])
    return len(items)


def every(run):
    n = 1 if run.thorough else 2
    ds = corpus.core(run.seed, run.thorough)
    return [d for d in ds if d.tag != "covering"][::n] + [d for d in ds if d.tag == "covering"] + corpus.drops()[::n]


def half(ds):
    return [d for i, d in enumerate(ds) if i % 2 == 0 or d.tag == "covering"]


def head(d):
    return d.generics_impl(), d.self_ty(), d.where_clause()


def c05(run):
    ds = every(run)

    def unpin(d):
        g, t, w = head(d)
        return d, "impl%s ::core::marker::Unpin for %s%s {}" % (g, t, w)

    def uu(d):
        if d.unpin == "UnsafeUnpin":
            return None
        g, t, w = head(d)
        return d, "unsafe impl%s ::pin_project::UnsafeUnpin for %s%s {}" % (g, t, w)

    def instance(d):
        # one instantiation, for which the generated bound may be known not to hold
        if not d.params or d.where or any(p.bounds.replace("?Sized", "") for p in d.params if p.kind == "ty"):
            return None
        v = {"lt": "'static", "const": "3", "ty": "::core::marker::PhantomPinned"}
        if any(p.kind == "const" and p.bounds != "usize" for p in d.params):
            return None
        return d, "impl ::core::marker::Unpin for %s<%s> {}" % (d.name, ", ".join(v[p.kind] for p in d.params))

    sweep(run, "impl Unpin", ds, unpin)
    sweep(run, "impl UnsafeUnpin", half(ds), uu)
    sweep(run, "impl Unpin for one instance", ds, instance)


def c06(run):
    ds = every(run)

    def drop(d):
        if always_unsized(d):
            return None  # recorded finding
        g, t, w = head(d)
        return d, "impl%s ::core::ops::Drop for %s%s { fn drop(&mut self) {} }" % (g, t, w)

    def stray(d):
        if d.pinned_drop:
            return None
        g, t, w = head(d)
        return d, "#[::pin_project::pinned_drop] impl%s PinnedDrop for %s%s { fn drop(self: ::core::pin::Pin<&mut Self>) {} }" % (g, t, w)

    def missing(d):
        return (d.copy(raw_decl=d.frag_src(True) if d.frag else d.item_src(True), pinned_drop=False), "") if d.pinned_drop else None

    sweep(run, "impl Drop", ds, drop)
    sweep(run, "pinned_drop without the argument", half(ds), stray, plain_control=False)
    sweep(run, "argument without pinned_drop", ds + [x for x in corpus.drops_more(run.seed, False)], missing, plain_control=False)


def c12(run):
    ds = [d for d in every(run) if d.kind == "struct"]
    forms = ["#[repr(packed)]", "#[repr(C, packed(1))]", "#[cfg_attr(all(), repr(packed))]", "#[repr(packed, C)]", "#[repr(packed(2))]"]

    def mk(i, after):
        def f(d):
            if "repr" in d.attrs + d.attrs_before and d.tag != "covering":
                return None
            a = forms[(len(d.name) + len(d.params) + i + sum(len(f.ty) for v in d.variants for f in v.fields)) % len(forms)]
            return (d.copy(attrs=d.attrs + " " + a) if after else d.copy(attrs=a + " " + d.attrs)), ""
        return f

    for i in range(2):
        sweep(run, "packed %d" % i, ds, mk(i, bool(i)))


def c14(run):
    ds = every(run)

    def arg(extra, first):
        def f(d):
            e = d.copy()
            a = d.args().rstrip(",").rstrip()
            e.args = lambda: (extra + (", " + a if a else "")) if first else ((a + ", " if a else "") + extra)
            return e, ""
        return f

    def dup(d):
        a = d.args().rstrip(",").rstrip()
        if not a:
            return None
        parts = a.split(", ")
        e = d.copy()
        e.args = lambda: a + ", " + parts[len(d.name + d.vis) % len(parts)]
        return e, ""

    def on_type(d):
        return d.copy(attrs=d.attrs + " #[pin]"), ""

    def on_variant(d):
        if d.kind != "enum":
            return None
        e = d.copy()
        on = e.live_variants()
        v = on[len(on) * 2 // 3]
        v.attrs = v.attrs + " #[pin]"
        return e, ""

    def field(marker, pick):
        def f(d):
            e = d.copy()
            fs = [x for v in e.live_variants() for x in e.live_fields(v) if x.pin == pick]
            if not fs:
                return None
            x = fs[len(fs) // 2]
            x.pin, x.marker = True, (x.marker + " " + marker if pick else marker)
            return e, ""
        return f

    def pd_replace(d):
        if d.project_replace is None or d.pinned_drop:
            return None
        e = d.copy()
        a = d.args().rstrip(",").rstrip()
        e.args = lambda: a + ", PinnedDrop"
        return e, ""

    for what, f in (("unknown argument", arg("foo", False)), ("unknown argument first", arg("Unpin", True)), ("repeated argument", dup), ("pin on the type", on_type), ("pin on a variant", on_variant), ("pin twice", field("#[pin]", True)), ("pin with arguments", field("#[pin(x)]", False)), ("pin with a value", field("#[pin = 1]", False)), ("PinnedDrop with project_replace", pd_replace)):
        sweep(run, what, half(ds) if "unknown" in what else ds, f, plain_control=False)


def c08(run):
    ds = [d for d in corpus.drops() + corpus.drops_more(run.seed, run.thorough) if d.pinned_drop]

    def call(expr, mutable="mut "):
        def f(d):
            g, t, w = head(d)
            g = "<'call_, " + g[1:] if g else "<'call_>"
            return d, "fn call_%s(x: ::core::pin::Pin<&'call_ mut %s>)%s { %s }" % (g, t, w, expr)
        return f

    for what, ex in (("call by trait path", "::pin_project::__private::PinnedDrop::drop(x)"), ("method call", "{ use ::pin_project::__private::PinnedDrop; x.drop() }"), ("function pointer", "{ let f: fn(_) = ::pin_project::__private::PinnedDrop::drop; f(x) }"), ("call of the generated function", "__drop_inner(x)")):
        sweep(run, what, ds, call(ex), plain_control=False)
