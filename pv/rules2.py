"""Rules over the facts of witness modules: visibility, twins, signatures, generated-code discipline."""
import re

from . import facts
from .decl import strip_raw
from .facts import show, ty_norm
from .rules import PIN, describe, need

DROP = "core::ops::drop::Drop"


def rel(m, path):
    """Path relative to the witness module (so that a module and its plain twin compare)."""
    p = "%s::outer::%s" % (m.crate, m.name)
    return "~" + path[len(p):] if path == p or path.startswith(p + "::") else path


def norm(m, x):
    """Rewrites the module's own path inside any fact, so that twins compare."""
    if isinstance(x, list):
        return [norm(m, y) for y in x]
    if isinstance(x, dict):
        return {k: norm(m, v) for k, v in x.items()}
    if isinstance(x, str):
        s = x.replace("%s::outer::%s" % (m.crate, m.name), "~").replace("outer::%s" % m.name, "~")
        s = re.sub(r"DefId\([^()]*\)", "DefId", s)
        s = re.sub(r"(?<!\w)_?::?\{(?:impl|use)#\d+\}", "{}", s)
        return s
    return x


def attr_norm(m, attrs):
    out = []
    for a in attrs or []:
        if re.search(r'segments: \["pin"\]', a):
            continue  # the marker and the macro's own helper attribute, which have no meaning to the compiler
        if re.match(r"Parsed\(Cfg(Attr)?Trace", a):
            continue  # a note of the compiler about a condition that held
        a = norm(m, a)
        a = re.sub(r"\d+:\d+", "", a)
        a = re.sub(r"kind: (Sugared\(\w+\)|Raw\([^A-Za-z]*),? ?(?=span)", "kind: ", a)
        a = re.sub(r"AttrId\(\d+\)", "", a)
        a = re.sub(r"\s+", " ", a)
        out.append(a)
    return sorted(out)


def pred_norm(m, p):
    p = norm(m, p)
    p = re.sub(r"/#\d+", "", p)
    p = re.sub(r"\^(\d+)\.\w+(?:\(DefId\))?", r"^\1", p)
    p = re.sub(r"bound_vars: \[.*\] \}", "bound_vars: [] }", p)
    p = re.sub(r"UnevaluatedConst \{.*?\}|\{const#\d+\}", "?", p)
    return p


def preds(m, ps):
    return {pred_norm(m, p) for p in ps}


def proj_types(d, m, a):
    """{method: adt facts of the projection type}"""
    out = {}
    for name in d.methods():
        fn = m.method(a, name)
        if fn and "ret_inst" in fn:
            for x in m.adts:
                if x["path"] == fn["ret_inst"]["path"]:
                    out[name] = x
    return out


def named(d):
    return {n: strip_raw(v) for n, v in (("project", d.project), ("project_ref", d.project_ref), ("project_replace", d.project_replace)) if v and n in d.methods()}


# ---------------------------------------------------------------- C13
def visibility(d, m, rep, rule="C13"):
    a = need(d, m, rep, rule)
    if not a:
        return
    where = "`%s`" % describe(d)
    want = "in " + m.crate if a["vis"] == "pub" else a["vis"]
    for name in d.methods():
        fn = m.method(a, name)
        if fn is None or "ret_inst" not in fn:
            rep.bad("%s/%s/missing" % (rule, name), "no method %s: %s" % (name, where))
            continue
        rep.count("visibilities checked")
        if fn["vis"] != want:
            rep.bad("%s/method" % rule, "method %s is visible %s, expected %s: %s" % (name, fn["vis"], want, where))
        pt = [x for x in m.adts if x["path"] == fn["ret_inst"]["path"]]
        if len(pt) != 1:
            rep.bad("%s/type" % rule, "no projection type for %s: %s" % (name, where))
            continue
        pt = pt[0]
        rep.count("visibilities checked")
        if pt["vis"] != want:
            rep.bad("%s/type" % rule, "projection type %s is visible %s, expected %s: %s" % (pt["name"], pt["vis"], want, where))
        if len(pt["variants"]) != len(a["variants"]):
            rep.bad("%s/shape" % rule, "projection type of %s has another shape: %s" % (name, where))
            continue
        for v, w in zip(a["variants"], pt["variants"]):
            gv = {f["name"]: f["vis"] for f in w["fields"]}
            for f in v["fields"]:
                fw = want if d.kind == "enum" else f["vis"]
                rep.count("visibilities checked")
                if gv.get(f["name"]) != fw:
                    rep.bad("%s/field" % rule, "projected field `%s` (%s) is visible %s, expected %s: %s" % (f["name"], name, gv.get(f["name"]), fw, where))
        n = named(d).get(name)
        if n:
            if pt["name"] != n or pt["parent"] != a["parent"]:
                rep.bad("%s/named" % rule, "projection type %s of %s is not where the type is, or not called %s: %s" % (pt["path"], name, n, where))
        elif pt["parent_kind"] != "Const":
            rep.bad("%s/unnamed" % rule, "the unnamed projection type of %s can be named by the user (%s): %s" % (name, rel(m, pt["path"]), where))
    scope_names(d, m, rep, rule)
    rep.sample({"declaration": describe(d)[:300], "type": a["vis"], "generated": {n: m.method(a, n)["vis"] for n in d.methods() if m.method(a, n)}, "rule": "generated visibility == the type's, pub lowered to the crate; fields unchanged; names added to the scope == the named projections"})


def scope_items(m):
    """Names declared in the witness's own (nameable) scopes: not inside anonymous constants."""
    out = []
    for i in m.items:
        r = rel(m, i["path"])
        if "::_" in re.sub(r"::_\w", "::x", r) or i["name"] == "_" or "{impl" in r:
            continue
        out.append((r if i["name"] else re.sub(r"#\d+", "", r), i["kind"]))
    return sorted(out)


def scope_names(d, m, rep, rule):
    if m.twin is None:
        return
    got, base = scope_items(m), scope_items(m.twin)
    rest = list(got)
    for b in base:
        if b in rest:
            rest.remove(b)
        else:
            rep.bad("%s/lost-name" % rule, "the item %s disappears: `%s`" % (b, describe(d)))
    a = m.adt(d.name)
    prefix = rel(m, a["parent"]) if a else "~"
    allowed = [(prefix + "::" + n, "Struct" if d.kind == "struct" else "Enum") for n in named(d).values()]
    for x in rest:
        rep.count("added names")
        if x not in allowed:
            rep.bad("%s/added-name" % rule, "the attribute adds the name %s (%s) to the user's scope: `%s`" % (x[0], x[1], describe(d)))
    for x in allowed:
        if x not in rest:
            rep.bad("%s/no-name" % rule, "the named projection %s is not in the scope of the type: `%s`" % (x[0], describe(d)))


# ---------------------------------------------------------------- C15
MARKERS = ["Send", "Sync", "Copy", "Clone", "UnwindSafe", "RefUnwindSafe"]


def marker_queries(d):
    from .rules import no_self, type_params
    out = []
    tp = type_params(d)
    sets = [("", None)] + ([(t.split("::")[-1], t) for t in ("::core::marker::Send", "::core::marker::Sync", "::core::marker::Copy", "::core::panic::RefUnwindSafe", "::core::panic::UnwindSafe")] if tp else [])
    for k, (_, t) in enumerate(sets):
        w = [no_self(d, x) for x in d.where] + (["%s: %s" % (p, t) for p in tp] if t else [])
        out.append("#[allow(dead_code)] fn q_k%d%s(_: *const %s)%s {}" % (k, d.generics_impl(), d.self_ty(), " where " + ", ".join(w) if w else ""))
    if all(not p.bounds for p in d.params if p.kind != "const") and not d.where and all(p.bounds == "usize" for p in d.params if p.kind == "const"):
        for k, v in enumerate(["u8", "u64", "::core::cell::Cell<u16>", "*mut u8", "&'static mut [u32; 3]"] if tp else [""]):
            me = d.name + ("<" + ", ".join("'static" if p.kind == "lt" else v if p.kind == "ty" else "3" for p in d.params) + ">" if d.params else "")
            out.append("#[allow(dead_code)] fn q_l%d(_: *const %s) {}" % (k, me))
    return out


def unchanged(d, m, rep, rule="C15"):
    p = m.twin
    a = need(d, m, rep, rule)
    if not a or p is None:
        return
    b = p.adt(d.name)
    where = "`%s`" % describe(d)
    if b is None:
        return
    rep.count("types compared with their plain twin")
    for k in ("kind", "vis", "generics", "repr", "parent_kind"):
        if norm(m, a[k]) != norm(p, b[k]):
            rep.bad("%s/%s" % (rule, k), "%s of the annotated type is %s, without the attribute it is %s: %s" % (k, a[k], b[k], where))
    if preds(m, a["preds"]) != preds(p, b["preds"]):
        rep.bad("%s/bounds" % rule, "the bounds change: %s vs %s: %s" % (sorted(preds(m, a["preds"]) - preds(p, b["preds"])), sorted(preds(p, b["preds"]) - preds(m, a["preds"])), where))
    if attr_norm(m, a["attrs"]) != attr_norm(p, b["attrs"]):
        rep.bad("%s/attrs" % rule, "the attributes of the type change: %s vs %s: %s" % (attr_norm(m, a["attrs"]), attr_norm(p, b["attrs"]), where))
    if [v["name"] for v in a["variants"]] != [v["name"] for v in b["variants"]]:
        rep.bad("%s/variants" % rule, "the variants change: " + where)
    for v, w in zip(a["variants"], b["variants"]):
        for k in ("ctor", "discr"):
            if v[k] != w[k]:
                rep.bad("%s/variant" % rule, "%s of %s changes from %s to %s: %s" % (k, v["name"], w[k], v[k], where))
        if attr_norm(m, v["attrs"]) != attr_norm(p, w["attrs"]):
            rep.bad("%s/attrs" % rule, "the attributes of %s change: %s vs %s: %s" % (v["name"], attr_norm(m, v["attrs"]), attr_norm(p, w["attrs"]), where))
        if [f["name"] for f in v["fields"]] != [f["name"] for f in w["fields"]]:
            rep.bad("%s/fields" % rule, "the fields of %s are %s instead of %s: %s" % (v["name"], [f["name"] for f in v["fields"]], [f["name"] for f in w["fields"]], where))
            continue
        for f, g in zip(v["fields"], w["fields"]):
            rep.count("fields compared")
            if ty_norm(norm(m, f["ty"])) != ty_norm(norm(p, g["ty"])):
                rep.bad("%s/field-type" % rule, "field `%s` has type %s instead of %s: %s" % (f["name"], show(f["ty"]), show(g["ty"]), where))
            if norm(m, f["vis"]) != norm(p, g["vis"]):
                rep.bad("%s/field-vis" % rule, "field `%s` is visible %s instead of %s: %s" % (f["name"], f["vis"], g["vis"], where))
            if attr_norm(m, f["attrs"]) != attr_norm(p, g["attrs"]):
                rep.bad("%s/attrs" % rule, "the attributes of field `%s` change: %s vs %s: %s" % (f["name"], attr_norm(m, f["attrs"]), attr_norm(p, g["attrs"]), where))
    extra_impls(d, m, rep, rule, a)
    qa = {q["path"].rsplit("::", 1)[1]: q["res"] for q in m.queries}
    qb = {q["path"].rsplit("::", 1)[1]: q["res"] for q in p.queries}
    for n, r in qa.items():
        if not (n.startswith("q_k") or n.startswith("q_l")):
            continue
        s = qb[n]
        for x, y in zip(r, s):
            for t in MARKERS:
                rep.count("trait questions compared")
                if x[t] != y[t]:
                    rep.bad("%s/%s" % (rule, t), "%s: %s is answered %s, without the attribute %s: %s" % (show(x["ty"]), t, x[t], y[t], where))
            if not d.pinned_drop and x["needs_drop"] != y["needs_drop"]:
                rep.bad("%s/needs-drop" % rule, "%s needs drop: %s, without the attribute: %s: %s" % (show(x["ty"]), x["needs_drop"], y["needs_drop"], where))
            if lay(x["layout"]) != lay(y["layout"]):
                rep.bad("%s/layout" % rule, "%s has another layout: %s" % (show(x["ty"]), where))
    rep.sample({"declaration": describe(d)[:300], "compared": "name, visibility, generics, bounds, repr, attributes, fields, impls, auto traits, layout", "rule": "equal to the facts of the same item without #[pin_project]"})


def lay(s):
    return s and re.sub(r"randomization_seed: \d+|unadjusted_abi_align: [^,]*,?|DefId\([^)]*\)", "", s)


def extra_impls(d, m, rep, rule, a):
    p = m.twin
    where = "`%s`" % describe(d)
    def key(mm, i):
        return (i.get("trait") and norm(mm, i["trait"]), str(ty_norm(norm(mm, i["self"]))), tuple(sorted(preds(mm, i["preds"]))), tuple(sorted(i["items"])), i.get("polarity"), i.get("unsafe"))
    mine = [(key(m, i), i) for i in m.impls]
    base = [key(p, i) for i in p.impls]
    for k in base:
        for j, (k2, _) in enumerate(mine):
            if k2 == k:
                del mine[j]
                break
        else:
            rep.bad("%s/lost-impl" % rule, "an impl of the user disappears or changes: %s for %s: %s" % (k[0], k[1][:200], where))
    user_types = {rel(p, x["path"]) for x in p.adts}
    for _, i in mine:
        rep.count("added impls")
        t = i.get("trait")
        me = i["self"].get("path") == a["path"]
        if me:
            if t is None:
                extra = [x for x in i["items"] if x not in d.methods()]
                if extra:
                    rep.bad("%s/extra-items" % rule, "the type gains inherent item(s) %s: %s" % (extra, where))
                continue
            if t in ("core::marker::Unpin", "pin_project::UnsafeUnpin") or t.startswith("pin_project::__private::"):
                continue
            if t == DROP and d.pinned_drop:
                continue
            if t.startswith(m.crate) and re.search(r"::_::", t):
                continue  # a trait nobody can name
            rep.bad("%s/extra-impl" % rule, "the type gains an impl of %s: %s" % (t, where))
        else:
            s = i["self"]
            if s.get("k") == "param" and t and t.startswith(m.crate) and "::_::" in t:
                continue
            if s.get("k") == "adt" and s["path"].startswith(m.crate) and rel(m, s["path"]) not in user_types:
                continue  # on a generated type (C20 looks at those)
            rep.bad("%s/foreign-impl" % rule, "the attribute adds an impl of %s for %s: %s" % (t, show(s), where))


# ---------------------------------------------------------------- C16 (signatures), C20
def self_args_identity(a, args):
    if len(args) != len(a["generics"]):
        return False
    for (k, n), x in zip(a["generics"], args):
        if k == "lifetime" and not (x.get("k") == "region" and x["r"] == n):
            return False
        if k == "type" and not (x.get("k") == "param" and x["name"] == n):
            return False
        if k == "const" and not (x.get("k") == "const" and re.match(r"(\w+: )?%s(/#\d+)?\b" % re.escape(n), x["s"])):
            return False
    return True


def pinned_self(ty, a):
    """(mutable, region) if ty is Pin<&['r] [mut] Self>"""
    if ty.get("path") == PIN and len(ty["args"]) >= 1 and ty["args"][0].get("k") == "ref":
        r = ty["args"][0]
        if r["ty"].get("path") == a["path"] and self_args_identity(a, r["ty"]["args"]):
            return r["mut"], r["r"]
    return None


def signatures(d, m, rep, rule="C20"):
    a = need(d, m, rep, rule)
    if not a:
        return
    where = "`%s`" % describe(d)
    ms = m.methods(a)
    twin_ms, twin_items = [], []
    if m.twin is not None:
        b = m.twin.adt(d.name)
        twin_ms = [f["name"] for f in m.twin.methods(b)] if b else []
        twin_items = [x for i in m.twin.impls_of(b) if not i.get("trait") for x in i["items"]] if b else []
    got = sorted(f["name"] for f in ms if f["name"] not in twin_ms)
    want = sorted(d.methods())
    rep.count("types")
    if got != want:
        rep.bad("%s/methods" % rule, "the methods are %s, documented are %s: %s" % (got, want, where))
    for i in m.impls_of(a):
        if not i.get("trait"):
            other = [x for x in i["items"] if x not in [f["name"] for f in ms] and x not in twin_items]
            if other:
                rep.bad("%s/assoc-items" % rule, "the type gains inherent items %s: %s" % (other, where))
    for f in ms:
        n = f["name"]
        if n not in d.methods():
            continue
        rep.count("method signatures")
        if f["unsafe"]:
            rep.bad("%s/unsafe" % rule, "%s is unsafe: %s" % (n, where))
        ps = pinned_self(f["inputs"][0], a)
        wm = n != "project_ref"
        if ps is None or ps[0] != wm:
            rep.bad("%s/receiver" % rule, "%s takes %s: %s" % (n, show(f["inputs"][0]), where))
            continue
        argn = 2 if n == "project_replace" else 1
        if len(f["inputs"]) != argn or (argn == 2 and not (f["inputs"][1].get("path") == a["path"] and self_args_identity(a, f["inputs"][1]["args"]))):
            rep.bad("%s/arguments" % rule, "%s takes %s: %s" % (n, [show(x) for x in f["inputs"]], where))
        own = [g for g in f["generics"] if g not in a["generics"]]
        if len(f["generics"]) != len(a["generics"]) or len(f["late"]) > 1:
            rep.bad("%s/method-generics" % rule, "%s has generics %s: %s" % (n, f["generics"], where))
        o = f["output"]
        if o.get("k") != "adt":
            rep.bad("%s/output" % rule, "%s returns %s: %s" % (n, show(o), where))
            continue
        args = o["args"]
        if n != "project_replace":
            if not args or args[0].get("k") != "region" or args[0]["r"] != ps[1]:
                rep.bad("%s/lifetime" % rule, "%s returns %s, whose first argument is not the lifetime of the borrow %s: %s" % (n, show(o), ps[1], where))
                continue
            args = args[1:]
        if not self_args_identity(a, args):
            rep.bad("%s/generic-args" % rule, "%s returns %s, whose arguments are not those of the type in order: %s" % (n, show(o), where))
        pt = [x for x in m.adts if x["path"] == o["path"]]
        if not pt:
            rep.bad("%s/output" % rule, "%s returns a type not generated here, %s: %s" % (n, show(o), where))
            continue
        pt = pt[0]
        nm = named(d).get(n)
        if nm and (pt["name"] != nm or pt["parent"] != a["parent"]):
            rep.bad("%s/name" % rule, "%s returns %s instead of %s: %s" % (n, rel(m, pt["path"]), nm, where))
        kinds = [k for k, _ in pt["generics"]]
        wk = (["lifetime"] if n != "project_replace" else []) + [k for k, _ in a["generics"]]
        names = [x for _, x in pt["generics"]][0 if n == "project_replace" else 1:]
        if kinds != wk or names != [x for _, x in a["generics"]]:
            rep.bad("%s/generics" % rule, "the projection type of %s has generics %s, the type %s: %s" % (n, pt["generics"], a["generics"], where))
        if pt["kind"] != a["kind"]:
            rep.bad("%s/kind" % rule, "the projection of %s is a %s: %s" % (n, pt["kind"], where))
        if [(v["name"] if d.kind == "enum" else "", v["ctor"], [f["name"] for f in v["fields"]]) for v in pt["variants"]] != [(v["name"] if d.kind == "enum" else "", v["ctor"], [f["name"] for f in v["fields"]]) for v in a["variants"]]:
            rep.bad("%s/shape" % rule, "the projection type of %s is not of the shape of the type: %s" % (n, where))
        for i in m.impls:
            if i["self"].get("path") == pt["path"] and i.get("trait"):
                rep.bad("%s/projection-impl" % rule, "the projection type of %s gets an impl of %s: %s" % (n, i["trait"], where))
    rep.sample({"declaration": describe(d)[:300], "methods": {f["name"]: "(%s) -> %s" % (", ".join(show(x) for x in f["inputs"]), show(f["output"])) for f in ms}, "rule": "method set, receivers, result types, generics and shapes as documented"})


def regions_in(t, out):
    if isinstance(t, list):
        for x in t:
            regions_in(x, out)
    elif isinstance(t, dict):
        if "r" in t:
            out.append(t["r"])
        for k, v in t.items():
            if k != "r":
                regions_in(v, out)
        if t.get("k") == "other":
            out += re.findall(r"'[A-Za-z_]\w*", t["s"])


def bounds_carried(d, m, rep, rule="C16"):
    a = need(d, m, rep, rule)
    if not a:
        return
    where = "`%s`" % describe(d)
    tl = [n for k, n in a["generics"] if k == "lifetime"]
    base = preds(m, a["preds"])
    for n in d.methods():
        f = m.method(a, n)
        if f is None or "ret_inst" not in f:
            rep.bad("%s/%s/missing" % (rule, n), "no method %s: %s" % (n, where))
            continue
        rep.count("method signatures")
        ps = pinned_self(f["inputs"][0], a)
        if ps is None:
            rep.bad("%s/receiver" % rule, "%s takes %s: %s" % (n, show(f["inputs"][0]), where))
            continue
        r = ps[1]
        if r in tl or r == "'static":
            rep.bad("%s/captured" % rule, "%s borrows for a lifetime of the type, %s: %s" % (n, r, where))
        pt = [x for x in m.adts if x["path"] == f["ret_inst"]["path"]]
        if not pt:
            continue
        pt = pt[0]
        fresh = [x for k, x in pt["generics"] if k == "lifetime" and x not in tl]
        if n == "project_replace":
            if fresh:
                rep.bad("%s/owned-lifetime" % rule, "the owned projection has a lifetime of its own: " + where)
            o = []
            regions_in(f["output"], o)
            if any(x not in tl and x != "'static" for x in o if x != "'_"):
                rep.bad("%s/owned-borrow" % rule, "the owned projection borrows %s: %s" % (o, where))
            pin = None
        else:
            if len(fresh) != 1 or pt["generics"][0][1] != fresh[0]:
                rep.bad("%s/fresh" % rule, "the projection type has lifetimes %s, the type %s: %s" % (pt["generics"], tl, where))
                continue
            pin = fresh[0]
            oa = f["output"]["args"]
            if oa[0].get("r") != r:
                rep.bad("%s/tied" % rule, "%s returns a projection for %s while borrowing for %s: %s" % (n, oa[0].get("r"), r, where))
            # every reference that a projection adds lives for that lifetime
            for v in pt["variants"]:
                for fl in v["fields"]:
                    t = fl["ty"]["args"][0] if fl["ty"].get("path") == PIN else fl["ty"]
                    if t.get("k") != "ref" or t["r"] != pin:
                        rep.bad("%s/field-lifetime" % rule, "field `%s` of the projection is %s, not a borrow for %s: %s" % (fl["name"], show(fl["ty"]), pin, where))
                    rep.count("borrows in projections")
        got = {re.sub(re.escape(pin) + r"(?!\w)", "'PIN", x) if pin else x for x in preds(m, pt["preds"])}
        for x in sorted(base - got):
            rep.bad("%s/bound-lost" % rule, "the projection type of %s lacks the bound %s: %s" % (n, x, where))
        for x in sorted(got - base):
            if not (re.search(r"OutlivesClause\(.*, 'PIN\)", x)):
                rep.bad("%s/bound-added" % rule, "the projection type of %s has the extra bound %s: %s" % (n, x, where))
        fp = preds(m, f["preds"])
        for x in sorted(fp - base):
            if "TraitClause(<~::%s" % strip_raw(d.name) in x and "Sized" in x:
                continue
            if m.twin is None or True:
                if re.search(r"OutlivesClause", x):
                    continue
                rep.bad("%s/method-bound" % rule, "%s needs the extra bound %s: %s" % (n, x, where))
        rep.count("bound sets compared")
    rep.sample({"declaration": describe(d)[:300], "rule": "result lifetime == borrow lifetime, fresh, used by every borrow in the projection; bounds of the projection == bounds of the type + outlives"})


# ---------------------------------------------------------------- C23
OK_UNSAFE = {
    "core::pin::{impl#12}::new_unchecked", }
UNSAFE_CORE = ("core::pin::", "core::ptr::", "core::mem::manually_drop::", "core::mem::maybe_uninit::")
UNSAFE_NAMES = {"new_unchecked", "get_unchecked_mut", "map_unchecked", "map_unchecked_mut", "into_inner_unchecked", "read", "write", "drop_in_place", "as_ref", "as_mut", "take", "drop", "replace", "swap", "copy", "copy_nonoverlapping", "copy_to", "copy_to_nonoverlapping", "copy_from", "copy_from_nonoverlapping", "assume_init", "assume_init_read", "assume_init_drop", "assume_init_ref", "assume_init_mut"}
PANIC = re.compile(r"^(core|std)::panicking|^core::option::(expect|unwrap)_failed|^core::result::unwrap_failed|::(unwrap|expect|panic\w*|unreachable_display)$|^core::intrinsics::abort|^std::process")


def body_faults(fn, local_ok, allow_crates=("core", "pin_project")):
    """Violations of the generated-code discipline in a function and its closures."""
    return [x for b in facts.bodies(fn) for x in mir_faults(b, local_ok, allow_crates)]


def mir_faults(b, local_ok, allow_crates):
    out = []
    # loops
    succ = []
    for blk in b["blocks"]:
        t = blk["t"]
        s = []
        if "t" in t and isinstance(t["t"], int):
            s.append(t["t"])
        if isinstance(t.get("u"), int):
            s.append(t["u"])
        if t["k"] == "switch":
            s += [x[1] for x in t["targets"]] + [t["otherwise"]]
        succ.append(s)
    color = [0] * len(succ)
    stack = [(0, iter(succ[0]))] if succ else []
    if succ:
        color[0] = 1
    while stack:
        n, it = stack[-1]
        for s in it:
            if color[s] == 1:
                out.append(("loop", "a loop"))
                break
            if color[s] == 0:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            color[n] = 2
            stack.pop()
            continue
        if color[s] == 1 and stack[-1][0] == n:
            break
    def ops(x):
        if isinstance(x, dict):
            if "fn" in x:
                yield x["fn"]
            for v in x.values():
                yield from ops(v)
        elif isinstance(x, list):
            for v in x:
                yield from ops(v)
    for bi, blk in enumerate(b["blocks"]):
        if not color[bi]:
            continue
        t = blk["t"]
        if t["k"] == "assert":
            out.append(("panic", "a run-time check that can panic (%s)" % t["msg"][:60]))
        if t["k"] == "other":
            out.append(("other", t["s"][:80]))
        for s in blk["s"]:
            if "tls" in s.get("rv", {}):
                out.append(("static", "thread-local state"))
        for f in list(ops(blk["s"])) + list(ops({k: v for k, v in t.items() if k != "sp"})):
            p = f.get("resolved") or f["path"]
            kr = p.split("::")[0]
            if PANIC.search(p) or PANIC.search(f["path"]):
                out.append(("panic", "a call of %s" % p))
            if kr in allow_crates:
                if f.get("unsafe") and kr == "core" and not (p.startswith(UNSAFE_CORE) and f["name"] in UNSAFE_NAMES):
                    out.append(("unsafe", "the unsafe operation %s" % p))
                continue
            if local_ok(f, p):
                continue
            out.append(("callee", "a call of %s" % p))
    return out


def generated_discipline(d, m, rep, rule="C23"):
    a = need(d, m, rep, rule)
    if not a:
        return
    where = "`%s`" % describe(d)
    p = m.twin
    user = {rel(p, f["path"]) for f in p.fns} if p else set()
    prefix = "%s::outer::%s" % (m.crate, m.name)
    for f in m.fns:
        if rel(m, f["path"]) in user or f["name"].startswith("q_"):
            continue
        # derives of the user's and the user's own destructor body are not ours
        if f.get("trait") and not (f["trait"].startswith("pin_project") or f["trait"] == DROP):
            continue
        if d.pinned_drop and f.get("trait") != DROP and is_user_body(f):
            continue
        rep.count("generated functions")
        for kind, text in body_faults(f, lambda c, q: q.startswith(prefix) or c.get("trait", "").startswith("pin_project")):
            rep.bad("%s/%s" % (rule, kind), "generated code contains %s: %s of %s" % (text, rel(m, f["path"]), where))
    if p is not None:
        st = [x for x in m.statics if rel(m, x["path"]) not in {rel(p, y["path"]) for y in p.statics}]
        for x in st:
            rep.bad("%s/static" % rule, "generated code declares the static %s: %s" % (rel(m, x["path"]), where))
        ec = [i for i in m.items if i["kind"] == "ExternCrate" and i.get("name") not in ("_pin_project", "pin_project", "core") and not i["path"].endswith("}")]
        rep.count("modules checked for global state")
    rep.sample({"declaration": describe(d)[:300], "functions": [rel(m, f["path"]) for f in m.fns if "::_::" in rel(m, f["path"]) + "::"][:6], "rule": "no loop, no assert, callees only in core, pin_project or the module itself, unsafe callees only the pin and project_replace primitives, no statics"})


def is_user_body(f):
    """Does the function contain the user's destructor statements (a call of the marker `sink`)?"""
    for blk in (k for b in facts.bodies(f) for k in b["blocks"]):
        t = blk["t"]
        if t["k"] == "call" and (t["f"].get("fn") or {}).get("name") == "sink":
            return True
    return False
