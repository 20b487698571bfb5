"""The rules. Each takes a declaration, the facts of its witness module, and a Report."""
from . import facts, interp as I
from .decl import strip_raw
from .facts import show, ty_norm

PIN, PHANTOM = "core::pin::Pin", "core::marker::PhantomData"


class Report:
    def __init__(self):
        self.viol = []  # (key, text)
        self.n = {}  # counters
        self.samples = []

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def bad(self, key, text):
        self.viol.append((key, text))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)


def describe(d):
    return " ".join(d.decl_src().split())


def need(d, m, rep, rule):
    """The annotated type in the facts (its absence is a violation of whatever is being checked)."""
    a = m.adt(d.name)
    if a is None:
        rep.bad("%s/no-type" % rule, "the annotated type %s is missing from the expanded program: %s" % (d.name, describe(d)))
    return a


def variants_by_name(inst):
    return {v["name"]: v for v in inst["variants"]}


def expected_variants(d, inst):
    """[(variant json of the type itself, decl variant)] in order; None if they disagree."""
    vs = d.live_variants()
    if len(inst["variants"]) != len(vs):
        return None
    out = []
    for j, v in zip(inst["variants"], vs):
        if d.kind == "enum" and j["name"] != strip_raw(v.name):
            return None
        if [f["name"] for f in j["fields"]] != d.field_names(v):
            return None
        out.append((j, v))
    return out


# ---------------------------------------------------------------- C01
def projection_identity(d, m, rep, rule="C01"):
    a = need(d, m, rep, rule)
    if not a:
        return
    for name in d.methods():
        if name == "project_replace":
            continue
        fn = m.method(a, name)
        where = "%s::%s of `%s`" % (d.name, name, describe(d))
        if fn is None or "ret_inst" not in fn or "self_inst" not in fn:
            rep.bad("%s/%s/missing" % (rule, name), "no method %s returning a projection type: %s" % (name, where))
            continue
        ev = expected_variants(d, fn["self_inst"])
        if ev is None:
            rep.bad("%s/%s/type-changed" % (rule, name), "the type's own fields are not the declared ones: " + where)
            continue
        ret = fn["ret_inst"]
        rv = variants_by_name(ret)
        for vi, (j, v) in enumerate(ev):
            fields = d.live_fields(v)
            selfval = (I.ADT, a["path"], vi, tuple((I.TOK, "%s.%s" % (j["name"], f["name"])) for f in j["fields"]))
            st = I.State({"SELF": selfval})
            ip = I.Interp(m.prog)
            try:
                outs = ip.call_fn(st, fn["path"], [(I.ADT, PIN, 0, ((I.REF, "SELF", ()),))])
            except I.Give as e:
                rep.bad("%s/%s/undecided" % (rule, name), "analysis gave up (%s) on %s" % (e, where))
                continue
            rep.count("paths", len(outs))
            rep.count("projection bodies x variants")
            pv = "variant %s" % j["name"] if d.kind == "enum" else "struct"
            for s, o, val in outs:
                if o != "ret":
                    rep.bad("%s/%s/no-return" % (rule, name), "a path of %s does not return normally (%s) [%s]" % (where, o, pv))
                    continue
                for e in s.log:
                    if e[0] in ("drop", "write", "unk", "forget", "user", "diverge", "read"):
                        rep.bad("%s/%s/effect" % (rule, name), "projecting has an effect: %s in %s [%s]" % (" ".join(str(x) for x in e), where, pv))
                if s.mem.get("SELF") != selfval:
                    rep.bad("%s/%s/self-changed" % (rule, name), "projecting changes the value: %s [%s]" % (where, pv))
                if val[0] != I.ADT or val[1] != ret["path"]:
                    rep.bad("%s/%s/result" % (rule, name), "result is not a projection: %s in %s [%s]" % (I.show(val), where, pv))
                    continue
                rvj = ret["variants"][val[2]]
                if d.kind == "enum" and rvj["name"] != j["name"]:
                    rep.bad("%s/%s/variant" % (rule, name), "variant %s is projected as %s in %s" % (j["name"], rvj["name"], where))
                    continue
                got = {f["name"]: x for f, x in zip(rvj["fields"], val[3])}
                if len(rvj["fields"]) != len(val[3]) or set(got) != {f["name"] for f in j["fields"]} or len(rvj["fields"]) != len(j["fields"]):
                    rep.bad("%s/%s/fields" % (rule, name), "projection has fields %s, the value has %s in %s [%s]" % (sorted(got), [f["name"] for f in j["fields"]], where, pv))
                    continue
                for k, f in enumerate(j["fields"]):
                    x = got[f["name"]]
                    if x[0] == I.ADT and x[1] == PIN:
                        x = x[3][0]
                    if x != (I.REF, "SELF", (k,)):
                        rep.bad("%s/%s/field" % (rule, name), "field `%s` of the projection is %s, not a reference to that field of the value, in %s [%s]" % (f["name"], I.show(x), where, pv))
                    rep.count("projected fields")
        rep.sample({"declaration": describe(d)[:300], "function": fn["path"], "rule": "each field k of the result is (Pin of) &SELF.k, same variant; no write, drop, read-out or unknown call on any path"})


# ---------------------------------------------------------------- C02
def pin_iff_marked(d, m, rep, rule="C02"):
    a = need(d, m, rep, rule)
    if not a:
        return
    for name in d.methods():
        fn = m.method(a, name)
        where = "%s::%s of `%s`" % (d.name, name, describe(d))
        if fn is None or "ret_inst" not in fn or "self_inst" not in fn:
            rep.bad("%s/%s/missing" % (rule, name), "no method %s returning a projection type: %s" % (name, where))
            continue
        ev = expected_variants(d, fn["self_inst"])
        if ev is None:
            rep.bad("%s/%s/type-changed" % (rule, name), "the type's own fields are not the declared ones: " + where)
            continue
        inp = fn["inputs"][0]
        r = None
        if inp.get("path") == PIN and inp["args"][0].get("k") == "ref":
            r = inp["args"][0]["r"]
        rv = variants_by_name(fn["ret_inst"])
        for j, v in ev:
            w = rv.get(j["name"]) if d.kind == "enum" else fn["ret_inst"]["variants"][0]
            if w is None:
                rep.bad("%s/%s/variant" % (rule, name), "no variant %s in the projection: %s" % (j["name"], where))
                continue
            byname = {f["name"]: f for f in w["fields"]}
            for f, df in zip(j["fields"], d.live_fields(v)):
                g = byname.get(f["name"])
                if g is None:
                    rep.bad("%s/%s/field" % (rule, name), "no field `%s` in the projection: %s" % (f["name"], where))
                    continue
                F = f["ty"]
                if name == "project_replace":
                    want = {"k": "adt", "path": PHANTOM, "args": [F]} if df.pin else F
                else:
                    want = {"k": "ref", "mut": name == "project", "r": r, "ty": F}
                    if df.pin:
                        want = {"k": "adt", "path": PIN, "args": [want]}
                if ty_norm(g["ty"]) != ty_norm(want):
                    rep.bad("%s/%s/%s" % (rule, name, "pinned" if df.pin else "unpinned"), "field `%s` (%s) is projected as `%s`, expected `%s`, in %s" % (f["name"], "marked #[pin]" if df.pin else "not marked", show(g["ty"]), show(want), where))
                rep.count("projected field types")
        rep.sample({"declaration": describe(d)[:300], "function": fn["path"], "result": [[(f["name"], show(f["ty"])) for f in v["fields"]] for v in fn["ret_inst"]["variants"]][:3], "rule": "marked: Pin<&mut F> / Pin<&F> / PhantomData<F>; else &mut F / &F / F; F the declared type"})


# ---------------------------------------------------------------- C10, C11
def replace_accounting(d, m, rep, rule, unwind):
    if "project_replace" not in d.methods():
        return
    a = need(d, m, rep, rule)
    if not a:
        return
    fn = m.method(a, "project_replace")
    where = "%s::project_replace of `%s`" % (d.name, describe(d))
    if fn is None or "ret_inst" not in fn or "self_inst" not in fn:
        rep.bad("%s/missing" % rule, "no method project_replace: " + where)
        return
    ev = expected_variants(d, fn["self_inst"])
    if ev is None:
        rep.bad("%s/type-changed" % rule, "the type's own fields are not the declared ones: " + where)
        return
    ret = fn["ret_inst"]
    for vi, (j, v) in enumerate(ev):
        toks = ["%s.%s" % (j["name"], f["name"]) for f in j["fields"]]
        fields = d.live_fields(v)
        nodrop = {}
        for t, f in zip(toks, a["variants"][vi]["fields"]):
            nodrop[t] = not f["needs_drop"]
        selfval = (I.ADT, a["path"], vi, tuple((I.TOK, t) for t in toks))
        repl = (I.TOK, "replacement")
        st = I.State({"SELF": selfval})
        ip = I.Interp(m.prog, nodrop=nodrop, panics=unwind)
        try:
            outs = ip.call_fn(st, fn["path"], [(I.ADT, PIN, 0, ((I.REF, "SELF", ()),)), repl])
        except I.Give as e:
            rep.bad("%s/undecided" % rule, "analysis gave up (%s) on %s" % (e, where))
            continue
        pv = "variant %s" % j["name"] if d.kind == "enum" else "struct"
        rep.count("project_replace bodies x variants")
        rep.count("paths", len(outs))
        pinned = [t for t, f in zip(toks, fields) if f.pin and not nodrop[t]]
        unpinned = [t for t, f in zip(toks, fields) if not f.pin]
        panicked = set()
        for s, o, val in outs:
            drops = [e for e in s.log if e[0] == "drop"]
            dt = [e[1] for e in drops]
            P = [e[1] for e in s.log if e[0] == "panic"]
            path = "when the drop of %s panics" % (P[0],) if P else "on the normal path"
            if o == "unw":
                panicked |= set(P[:1])
            if o == "abort":
                continue  # a second panic while unwinding: the process aborts
            if (o == "unw") != unwind and o in ("ret", "unw"):
                continue
            rep.count("exits checked")
            def bad(kind, text):
                rep.bad("%s/%s" % (rule, kind), "%s %s, in %s [%s]" % (text, path, where, pv))
            for e in s.log:
                if e[0] in ("unk", "user", "forget", "diverge"):
                    bad("unknown", "unexpected operation: %s" % " ".join(str(x) for x in e))
            if o not in ("ret", "unw"):
                bad("exit", "a path ends with %s" % o)
                continue
            for t in pinned:
                n = dt.count(t)
                if n != 1:
                    bad("pinned-drop-count", "pinned field %s is dropped %d times" % (t, n))
                for e in drops:
                    if e[1] == t and (e[2] != "SELF" or e[3] != (toks.index(t),)):
                        bad("pinned-moved", "pinned field %s is not dropped in place" % t)
            if s.mem.get("SELF") != repl:
                bad("replacement", "the pinned place ends up holding %s instead of the replacement" % I.show(s.mem.get("SELF")))
            if "replacement" in [t if isinstance(t, str) else t[0] for t in dt]:
                bad("replacement-dropped", "the replacement is dropped")
            if o == "ret":
                order = [t for t in dt if t in pinned]
                if order != pinned and sorted(order) == sorted(pinned):
                    bad("order", "pinned fields are dropped in the order %s" % order)
                for t in unpinned:
                    if t in dt:
                        bad("unpinned-dropped", "field %s is dropped although it is handed to the caller" % t)
                if val[0] != I.ADT or val[1] != ret["path"]:
                    bad("result", "result is not a projection: %s" % I.show(val))
                    continue
                w = ret["variants"][val[2]]
                if d.kind == "enum" and w["name"] != j["name"]:
                    bad("variant", "the result is variant %s" % w["name"])
                    continue
                got = {f["name"]: x for f, x in zip(w["fields"], val[3])}
                for t, jf, df in zip(toks, j["fields"], fields):
                    x = got.get(jf["name"])
                    if df.pin:
                        if x is None or I.tokens(x):
                            bad("pinned-given", "result field `%s` is %s although the field is pinned" % (jf["name"], x and I.show(x)))
                    elif x != (I.TOK, t):
                        bad("field", "result field `%s` is %s" % (jf["name"], x and I.show(x)))
                    rep.count("fields accounted")
            else:
                for t in unpinned:
                    if nodrop[t]:
                        continue
                    n = dt.count(t)
                    if n != 1:
                        bad("unpinned-drop-count", "moved-out field %s is dropped %d times" % (t, n))
                    rep.count("fields accounted")
        if unwind:
            if not set(pinned) <= panicked:
                rep.bad("%s/unreached" % rule, "no unwinding path was found for a panic in the drop of %s, in %s" % (sorted(set(pinned) - panicked), where))
            rep.count("panic points", len(pinned))
    rep.sample({"declaration": describe(d)[:300], "function": fn["path"], "rule": "linear accounting of every field token and of the replacement on every %s exit" % ("unwinding" if unwind else "normal")})


# ---------------------------------------------------------------- C07
def pinned_drop_once(d, m, rep, rule="C07"):
    a = need(d, m, rep, rule)
    if not a:
        return
    where = "`%s`" % describe(d)
    impls = [i for i in m.impls_of(a) if i.get("trait") == "core::ops::drop::Drop"]
    if not d.pinned_drop:
        if impls:
            rep.bad("%s/extra-drop" % rule, "a Drop impl is generated for a type without the PinnedDrop argument: " + where)
        rep.count("types without a destructor")
        return
    if len(impls) != 1:
        rep.bad("%s/drop-impls" % rule, "%d Drop impls for a type with the PinnedDrop argument: %s" % (len(impls), where))
        return
    fn = m.trait_fn(a, "core::ops::drop::Drop", "drop")
    if fn is None:
        rep.bad("%s/no-drop-fn" % rule, "no Drop::drop: " + where)
        return
    ip = I.Interp(m.prog, user_fns=("sink",))
    selfval = (I.TOK, "self")
    st = I.State({"SELF": selfval})
    try:
        outs = ip.call_fn(st, fn["path"], [(I.REF, "SELF", ())])
    except I.Give as e:
        rep.bad("%s/undecided" % rule, "analysis gave up (%s) on %s" % (e, where))
        return
    rep.count("Drop impls")
    rep.count("paths", len(outs))
    for s, o, val in outs:
        us = [e for e in s.log if e[0] == "user"]
        if len(us) != 1:
            rep.bad("%s/count" % rule, "the user's pinned destructor is entered %d times on a path (%s) of Drop::drop of %s" % (len(us), o, where))
        for e in us:
            if e[2] != (I.REF, "SELF", ()):
                rep.bad("%s/receiver" % rule, "the user's pinned destructor gets %s instead of the value being dropped, in %s" % (e[2] and I.show(e[2]), where))
        for e in s.log:
            if e[0] in ("drop", "write", "unk", "forget", "diverge"):
                rep.bad("%s/effect" % rule, "Drop::drop does something else: %s in %s" % (" ".join(str(x) for x in e), where))
        if s.mem.get("SELF") != selfval:
            rep.bad("%s/self" % rule, "Drop::drop changes the value before the fields are dropped: " + where)
    if not outs:
        rep.bad("%s/no-path" % rule, "no path through Drop::drop: " + where)
    rep.sample({"declaration": describe(d)[:300], "function": fn["path"], "rule": "on every path exactly one call of the user's body with &mut SELF, nothing else"})


# ---------------------------------------------------------------- C03, C04
import itertools
import re


def type_params(d):
    return [p.name for p in d.params if p.kind == "ty"]


def no_self(d, s):
    return re.sub(r"\bSelf\b", d.self_ty(), s)


def mentions_param(d, ty):
    names = [re.escape(p.name.lstrip("'")) for p in d.params]
    return bool(names) and re.search(r"\b(%s)\b|\bSelf\b" % "|".join(names), ty) is not None


def envs(d, thorough=False):
    """Sets of assumptions (where clauses) under which the trait questions are asked."""
    tp = type_params(d)
    out = [("none", [])]
    if tp:
        out.append(("all", ["%s: ::core::marker::Unpin" % t for t in tp]))
        if len(tp) > 1:
            lim = tp if len(tp) <= 6 or thorough else tp[:3] + tp[-3:]
            for t in lim:
                out.append(("only " + t, ["%s: ::core::marker::Unpin" % t]))
                out.append(("all but " + t, ["%s: ::core::marker::Unpin" % u for u in tp if u != t]))
    pins = []
    for t in d.pinned_types():
        if mentions_param(d, t) and t not in pins:
            pins.append(t)
    if pins and len(pins) <= 12:
        out.append(("pinned types", ["%s: ::core::marker::Unpin" % no_self(d, t) for t in pins]))
        if len(pins) > 1:
            for i, t in enumerate(pins):
                if i < 6:
                    out.append(("pinned types but " + t, ["%s: ::core::marker::Unpin" % no_self(d, u) for u in pins if u != t]))
    return out


def unpin_queries(d, extra_types=()):
    """q_* functions: argument 0 is the annotated type, the others are its pinned field types."""
    out = []
    types = ["*const " + d.self_ty()] + ["*const %s" % par(no_self(d, t)) for t in list(dict.fromkeys(d.pinned_types()))] + ["*const %s" % par(t) for t in extra_types]
    for k, (_, w) in enumerate(envs(d)):
        w2 = [no_self(d, x) for x in d.where] + w
        out.append("#[allow(dead_code)] fn q_e%d%s(%s)%s {}" % (k, d.generics_impl(), ", ".join("_: " + t for t in types), " where " + ", ".join(w2) if w2 else ""))
    if all(not p.bounds for p in d.params if p.kind != "const") and not d.where and all(p.bounds == "usize" for p in d.params if p.kind == "const"):
        tp = type_params(d)
        combos = [{}]
        if tp:
            PP = "::core::marker::PhantomPinned"
            vals = ["u8", PP]
            combos = [{t: v for t in tp} for v in vals]
            for t in tp[:4]:
                combos.append({u: (PP if u == t else "u8") for u in tp})
                combos.append({u: ("u8" if u == t else PP) for u in tp})
        for k, c in enumerate(combos):
            sub = lambda s: re.sub(r"'(\w+)|\b(\w+)\b", lambda m: "'static" if m.group(1) and any(p.kind == "lt" and p.name == "'" + m.group(1) for p in d.params) else (c.get(m.group(2)) or ("3" if any(p.kind == "const" and p.name == m.group(2) for p in d.params) else m.group(0))) if m.group(2) else m.group(0), s)
            me = d.name + ("<" + ", ".join("'static" if p.kind == "lt" else c[p.name] if p.kind == "ty" else "3" for p in d.params) + ">" if d.params else "")
            ts = [me] + [sub(re.sub(r"\bSelf\b", "@@", t)).replace("@@", me) for t in list(dict.fromkeys(d.pinned_types()))] + [sub(t) for t in extra_types]
            out.append("#[allow(dead_code)] fn q_c%d(%s) {}" % (k, ", ".join("_: *const " + par(t) for t in ts)))
    return out


def par(t):
    return "(%s)" % t if "+" in t or t.startswith("dyn") else t


def unpin_exact(d, m, rep, rule="C03"):
    where = "`%s`" % describe(d)
    a = need(d, m, rep, rule)
    if not a:
        return
    es = envs(d)
    qs = [q for q in m.queries if q["path"].rsplit("::", 1)[1].startswith("q_")]
    if len(qs) < len(es):
        rep.bad("%s/no-query" % rule, "trait questions missing for " + where)
        return
    for q in qs:
        n = q["path"].rsplit("::", 1)[1]
        envname = "assuming [%s]" % ", ".join(es[int(n[3:])][1]) if n.startswith("q_e") else "for %s" % show(q["res"][0]["ty"])
        me, pins = q["res"][0], q["res"][1:]
        want = all(p["Unpin"] == "yes" for p in pins)
        got = me["Unpin"] == "yes"
        rep.count("Unpin questions decided")
        if want and not got:
            rep.bad("%s/not-unpin" % rule, "the type is not Unpin %s although every #[pin] field type is: %s" % (envname, where))
        if got and not want:
            culprit = [show(p["ty"]) for p in pins if p["Unpin"] != "yes"]
            rep.bad("%s/unpin" % rule, "the type is Unpin %s although the #[pin] field type(s) %s are not: %s" % (envname, culprit, where))
        if not want and not got and all(p["Unpin"] != "maybe" for p in pins) and me["Unpin"] == "maybe":
            rep.count("undetermined (generic)")
    rep.sample({"declaration": describe(d)[:300], "questions": [[show(r["ty"]) + ": Unpin? " + r["Unpin"] for r in q["res"]] for q in qs[:4]], "rule": "answer for the type == conjunction of the answers for its #[pin] field types, for every set of assumptions"})


def unpin_regions(d):
    """A must-compile function: for all lifetimes the type is Unpin if its pinned field types are."""
    if d.unpin or not any(p.kind == "lt" for p in d.params) or d.soft or d.tag == "size":
        return ""
    pins = list(dict.fromkeys(d.pinned_types()))
    if any(re.search(r"PhantomPinned|AliasP|Dflt|mac!|dynm!|dyn |\bK<|\[T; \{", t) for t in pins):
        return ""
    w = [no_self(d, x) for x in d.where] + ["%s: ::core::marker::Unpin" % no_self(d, t) for t in pins if mentions_param(d, t)]
    return "pub fn y_ok%s(_: &%s)%s { fn is_unpin<X__: ?::core::marker::Sized + ::core::marker::Unpin>() {} is_unpin::<%s>() }" % (d.generics_impl(), d.self_ty(), " where " + ", ".join(w) if w else "", d.self_ty())


def unpin_modes(d, m, rep, rule="C04"):
    where = "`%s %s`" % (describe(d), d.unsafe_unpin_impls)
    a = need(d, m, rep, rule)
    if not a:
        return
    es = envs(d)
    qs = [q for q in m.queries if q["path"].rsplit("::", 1)[1].startswith("q_")]
    if len(qs) < len(es):
        rep.bad("%s/no-query" % rule, "trait questions missing for " + where)
        return
    for q in qs:
        n = q["path"].rsplit("::", 1)[1]
        envname = "assuming [%s]" % ", ".join(es[int(n[3:])][1]) if n.startswith("q_e") else "for %s" % show(q["res"][0]["ty"])
        me = q["res"][0]
        rep.count("Unpin questions decided")
        if d.unpin == "!Unpin" or d.tag == "uu-none":
            if me["Unpin"] == "yes" or (n.startswith("q_c") and me["Unpin"] != "no"):
                rep.bad("%s/%s" % (rule, "not-unpin" if d.unpin == "!Unpin" else "no-impl"), "the type is Unpin (%s) %s: %s" % (me["Unpin"], envname, where))
            if d.tag == "uu-none" and me["UnsafeUnpin"] == "yes":
                rep.bad("%s/unsafe-unpin-added" % rule, "the type is UnsafeUnpin without an impl %s: %s" % (envname, where))
            continue
        if (me["Unpin"] == "yes") != (me["UnsafeUnpin"] == "yes"):
            rep.bad("%s/differs" % rule, "Unpin is answered %s and UnsafeUnpin %s %s: %s" % (me["Unpin"], me["UnsafeUnpin"], envname, where))
        if d.tag == "uu-all" and me["UnsafeUnpin"] != "yes":
            rep.bad("%s/impl-lost" % rule, "the user's UnsafeUnpin impl does not apply %s: %s" % (envname, where))
        if d.tag == "uu-inst" and n.startswith("q_c"):
            want = all(x == {"k": "other", "s": "u8"} or x.get("s") == "u8" for x in me["ty"]["args"] if x.get("k") not in ("region", "const"))
            if (me["Unpin"] == "yes") != want:
                rep.bad("%s/instance" % rule, "Unpin is answered %s %s: %s" % (me["Unpin"], envname, where))
    rep.sample({"declaration": describe(d)[:300], "impl": d.unsafe_unpin_impls[:200], "questions": [[show(r["ty"]) + ": Unpin? " + r["Unpin"] + ", UnsafeUnpin? " + r["UnsafeUnpin"] for r in q["res"][:1]] for q in qs[:4]], "rule": "!Unpin and no impl: never; otherwise the two answers agree"})


# ---------------------------------------------------------------- C08
def callees(f):
    def ops(x):
        if isinstance(x, dict):
            if "fn" in x:
                yield x["fn"].get("resolved") or x["fn"]["path"]
            if "closure" in x:
                yield x["closure"]
            for v in x.values():
                yield from ops(v)
        elif isinstance(x, list):
            for v in x:
                yield from ops(v)
    return {x for b in facts.bodies(f) for x in ops(b["blocks"])}


def body_guarded(d, m, rep, rule="C08"):
    a = need(d, m, rep, rule)
    if not a or not d.pinned_drop:
        return
    where = "`%s`" % describe(d)
    by = {f["path"]: f for f in m.fns}
    sink = [p for p in by if p.endswith("::sink")]
    reach = set(sink)
    ch = True
    edges = {p: callees(f) for p, f in by.items()}
    while ch:
        ch = False
        for p, c in edges.items():
            if p not in reach and c & reach:
                reach.add(p)
                ch = True
    reach -= set(sink)
    if not reach:
        rep.bad("%s/no-body" % rule, "no function contains the user's statements: " + where)
    for p in sorted(reach):
        f = by[p]
        rep.count("functions that reach the user's destructor")
        if f.get("unsafe") or f.get("trait") == "core::ops::drop::Drop" or f.get("parent_kind") in ("Fn", "AssocFn", "Const") or f.get("parent_kind") is None:
            continue
        rep.bad("%s/reachable" % rule, "safe function %s (in %s) runs the user's pinned destructor: %s" % (p.split("::outer::")[-1], f.get("parent_kind"), where))
    rep.sample({"declaration": describe(d)[:300], "reaching functions": [p.split("::outer::")[-1] for p in sorted(reach)], "rule": "each is unsafe, Drop::drop, or nested where it cannot be named"})
