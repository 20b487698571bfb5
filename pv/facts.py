"""Indexing of the facts of a corpus crate by witness module."""
import json
import re
from collections import defaultdict

from .decl import strip_raw
from .interp import Program


class Mod:
    def __init__(self, name):
        self.name = name
        self.fns, self.impls, self.adts, self.items, self.queries, self.statics, self.closures = [], [], [], [], [], [], []
        self.prog = None

    def adt(self, name):
        """The user's declaration of that name (not an item of an anonymous const)."""
        c = [a for a in self.adts if strip_raw(a["name"]) == strip_raw(name) and a["parent_kind"] in ("Mod", "Fn")]
        return c[0] if c else None

    def methods(self, adt):
        return [f for f in self.fns if f.get("parent_kind", "").startswith("Impl { of_trait: false") and (f.get("impl_self") or {}).get("path") == adt["path"]]

    def method(self, adt, name):
        m = [f for f in self.methods(adt) if f["name"] == name]
        return m[0] if m else None

    def impls_of(self, adt):
        return [i for i in self.impls if i["self"].get("path") == adt["path"]]

    def trait_fn(self, adt, trait, name):
        for f in self.fns:
            if f["name"] == name and (f.get("impl_self") or {}).get("path") == adt["path"] and f.get("trait") == trait:
                return f
        return None


def load(f):
    """Reads the facts of a crate; each function gets the bodies of the closures written in it."""
    fx = json.load(f)
    by = {x["path"]: x for x in fx["fns"]}
    for c in fx["closures"]:
        f = by.get(re.split(r"::\{closure#\d+\}", c["path"])[0])
        if f is not None and c.get("body"):
            f.setdefault("closures", []).append(c["body"])
    return fx


def bodies(f):
    return ([f["body"]] if f.get("body") else []) + f.get("closures", [])


def index(chunks):
    """chunks: [(facts, names)] -> {module name: Mod}"""
    out = {}
    for fx, names in chunks:
        prog = Program(fx)
        mods = {}
        for n in names:
            m = Mod(n)
            m.prog = prog
            m.crate = fx["crate"]
            mods[n] = m
        def of(path):
            seg = path.split("::")
            # an impl may be placed anywhere; modules are crate::outer::mN
            return mods.get(seg[2]) if len(seg) > 2 else None
        for kind in ("fns", "impls", "adts", "items", "queries", "statics", "closures"):
            for x in fx[kind]:
                m = of(x["path"])
                if m is not None:
                    getattr(m, kind).append(x)
        out.update(mods)
    return out


# ---------------------------------------------------------------- types
def ty_norm(t, crate=None):
    """A type without the parts that have no meaning here: lifetime defaults of trait objects,
    identities of anonymous constants."""
    if isinstance(t, list):
        return [ty_norm(x, crate) for x in t]
    if isinstance(t, dict):
        if t.get("k") == "other":
            s = t["s"]
            s = re.sub(r"DefId\([^()]*\)", "DefId", s)
            s = re.sub(r"\] \+ '(?:static|\^\d+\.Named\(DefId\)|[\w^.{}#/]+)", "]", s)
            s = re.sub(r"'\^(\d+)\.\w+(?:\(DefId\))?", r"'^\1", s)
            s = re.sub(r"\(?dyn ([^()]*(?:\([^()]*\))?[^()]*?) \+ '[\w{}#]+(?:/#\d+)?\)?", r"dyn \1", s)
            s = re.sub(r"'[\w]+/#\d+|'\{erased\}|'\?\d+", "'_", s)
            s = re.sub(r"DefId\([^)]*\)", "DefId", s)
            return {"k": "other", "s": s}
        r = {k: ty_norm(v, crate) for k, v in t.items()}
        if t.get("k") == "array" and ("{const" in t["n"] or "Unevaluated" in t["n"]):
            r["n"] = "?"
        if t.get("k") == "const" and ("{const" in t["s"] or "Unevaluated" in t["s"]):
            r["s"] = "?"
        return r
    return t


def show(t):
    k = t.get("k")
    if k == "adt":
        n = t["path"].split("::")[-1]
        a = ", ".join(show(x) for x in t["args"])
        return n + ("<%s>" % a if a else "")
    if k == "ref":
        return "&%s %s%s" % (t["r"], "mut " if t["mut"] else "", show(t["ty"]))
    if k == "raw":
        return "*%s %s" % ("mut" if t["mut"] else "const", show(t["ty"]))
    if k == "tuple":
        return "(%s)" % ", ".join(show(x) for x in t["args"])
    if k == "param":
        return t["name"]
    if k == "region":
        return t["r"]
    if k == "array":
        return "[%s; %s]" % (show(t["ty"]), t["n"])
    if k == "slice":
        return "[%s]" % show(t["ty"])
    return t.get("s", str(k))
