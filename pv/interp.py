"""Abstract interpretation of MIR.

Values are symbolic: the value behind the pinned reference is a tree of tokens (one per field), moves
and bitwise copies carry tokens around, drops are logged. Every path is followed, including the unwind
edges of every operation that may run a user's destructor. Helper functions (of the crate under
analysis, of pin_project, and small ones of core) are followed into; a few primitives of core have
summaries. Nothing is executed.
"""
import re

TOK, REF, ADT, TUP, CONST, ZST, FN, CLO, UNINIT, UNK = "tok ref adt tup const zst fn clo uninit unk".split()
PIN = "core::pin::Pin"
MD = "core::mem::manually_drop::ManuallyDrop"
MU = "core::mem::maybe_uninit::MaybeUninit"
UN = (UNINIT,)


def unk(why):
    return (UNK, why)


class Give(Exception):
    pass


class State:
    __slots__ = ("mem", "log", "nf", "panicking")

    def __init__(self, mem=None, log=(), nf=0, panicking=False):
        self.mem, self.log, self.nf, self.panicking = mem or {}, log, nf, panicking

    def copy(self):
        return State(dict(self.mem), self.log, self.nf, self.panicking)

    def ev(self, *e):
        self.log = self.log + (e,)


class Program:
    """Functions by path, from the facts of one crate (plus its external callees)."""

    def __init__(self, fx):
        self.fx = fx
        self.fns = {}
        for f in fx["ext"]:
            self.fns[f["path"]] = f
        for f in fx["fns"] + fx["closures"]:
            self.fns[f["path"]] = f
        self.drops = {}
        for d in fx["drops"]:
            if d["self"]["k"] == "adt":
                self.drops[d["self"]["path"]] = d["fn"]


def norm(path):
    return re.sub(r"\{impl#\d+\}", "*", path)


def get(v, path):
    for e in path:
        if v[0] == ADT or v[0] == CLO:
            if e >= len(v[3]):
                return unk("field out of range")
            v = v[3][e]
        elif v[0] == TUP:
            if e >= len(v[1]):
                return unk("field out of range")
            v = v[1][e]
        elif v[0] == UNINIT:
            return UN
        elif v[0] == TOK:
            v = (TOK, (v[1], e))
        else:
            return unk("projection of %s" % (v[0],))
    return v


def put(v, path, x):
    if not path:
        return x
    e = path[0]
    if v[0] in (ADT, CLO):
        if e >= len(v[3]):
            return unk("field out of range")
        fs = list(v[3])
        fs[e] = put(fs[e], path[1:], x)
        return (v[0], v[1], v[2], tuple(fs))
    if v[0] == TUP:
        fs = list(v[1])
        while len(fs) <= e:
            fs.append(UN)
        fs[e] = put(fs[e], path[1:], x)
        return (TUP, tuple(fs))
    if v[0] == UNINIT:
        return put((TUP, (UN,) * (e + 1)), path, x)
    return unk("assignment into %s" % (v[0],))


class Interp:
    def __init__(self, prog, user_fns=(), nodrop=(), maxsteps=200000, maxdepth=24, panics=True):
        self.p = prog
        self.panics = panics  # follow the unwind edges of drops
        self.user = set(user_fns)  # functions that stand for user code: logged, not followed
        self.nodrop = nodrop  # token -> bool: type has no drop glue
        self.steps = 0
        self.maxsteps = maxsteps
        self.maxdepth = maxdepth
        self.followed = set()
        self.summarised = set()

    # -------------------------------------------------------------- places
    def addr(self, st, fr, place):
        """place -> (obj, path) or None"""
        local, proj = place
        obj, path = (fr, local), ()
        for e in proj:
            if e == "*":
                v = get(st.mem.get(obj, UN), path)
                if v[0] == ADT and v[1].startswith("core::ptr::unique::Unique"):
                    v = v[3][0]
                while v[0] == ADT and v[1] == "core::ptr::non_null::NonNull":
                    v = v[3][0]
                if v[0] != REF:
                    return None
                obj, path = v[1], v[2]
            elif "f" in e:
                path = path + (e["f"],)
            elif "v" in e:
                v = get(st.mem.get(obj, UN), path)
                if v[0] == ADT and v[2] != e["v"]:
                    return None
            elif "noop" in e:
                pass
            else:
                return None
        return obj, path

    def read(self, st, fr, place):
        a = self.addr(st, fr, place)
        if a is None:
            return unk("place")
        return get(st.mem.get(a[0], UN), a[1])

    def write(self, st, a, v):
        if a is None:
            st.ev("unk", "write through an unknown pointer")
            return
        obj, path = a
        st.mem[obj] = put(st.mem.get(obj, UN), path, v)
        if not isinstance(obj, tuple):
            st.ev("write", obj, path, v)

    def operand(self, st, fr, o):
        if "copy" in o:
            return self.read(st, fr, o["copy"])
        if "move" in o:
            return self.read(st, fr, o["move"])
        if "fn" in o:
            return (FN, o["fn"])
        if "rtcheck" in o:
            return (CONST, 0, "check")
        if "const" in o:
            if o["bits"] is not None:
                return (CONST, o["bits"], o["const"])
            t = o["ty"]
            if t["k"] == "tuple" and not t["args"]:
                return (TUP, ())
            if t["k"] == "adt" and t["path"] == "core::marker::PhantomData":
                return (ADT, t["path"], 0, ())
            return (ZST, o["const"])
        return unk("operand")

    def rvalue(self, st, fr, rv):
        if "use" in rv:
            return self.operand(st, fr, rv["use"])
        if "ref" in rv:
            a = self.addr(st, fr, rv["ref"])
            if a is None:
                l, proj = rv["ref"]
                if proj and proj[-1] == "*":
                    # reborrow of a reference that is itself an opaque value: the same reference
                    v = self.read(st, fr, [l, proj[:-1]])
                    if v[0] == TOK:
                        return v
                return unk("reference to an unknown place")
            return (REF, a[0], a[1])
        if "reborrow" in rv:
            return self.read(st, fr, rv["reborrow"])
        if "cast" in rv:
            v = self.operand(st, fr, rv["cast"])
            k = rv["kind"]
            if v[0] == REF and (k.startswith("PtrToPtr") or k.startswith("PointerCoercion") or k.startswith("Transmute") or k.startswith("Subtype")):
                return v
            if v[0] in (REF,) and "Expose" in k:
                return unk("address as integer")
            if v[0] in (ADT, TOK) and (k.startswith("Subtype") or k.startswith("PointerCoercion")):
                return v
            if v[0] == CONST:
                return v
            if k.startswith("Transmute") and v[0] in (ADT, TOK):
                return unk("transmute")
            return v if v[0] in (FN, CLO, ZST) else unk("cast " + k)
        if "discr" in rv:
            v = self.read(st, fr, rv["discr"])
            if v[0] == ADT:
                return (CONST, v[2], "discriminant")
            return unk("discriminant")
        if "agg" in rv:
            ops = tuple(self.operand(st, fr, o) for o in rv["ops"])
            k = rv["agg"]
            if k in ("tuple", "array"):
                return (TUP, ops)
            if isinstance(k, dict) and "adt" in k:
                if k.get("union_field") is not None:
                    return unk("union")
                return (ADT, k["adt"], k["variant"], ops)
            if isinstance(k, dict) and "closure" in k:
                return (CLO, k["closure"], 0, ops)
            if isinstance(k, str) and k.startswith("RawPtr") and ops:
                return ops[0]
            return unk("aggregate")
        if "bin" in rv:
            a, b = (self.operand(st, fr, o) for o in rv["ops"])
            if a[0] == CONST and b[0] == CONST:
                f = {"Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y, "Lt": lambda x, y: x < y, "Gt": lambda x, y: x > y, "Le": lambda x, y: x <= y, "Ge": lambda x, y: x >= y, "BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y}.get(rv["bin"])
                if f:
                    return (CONST, int(f(a[1], b[1])), "")
            return unk("arithmetic")
        if "un" in rv:
            a = self.operand(st, fr, rv["ops"][0])
            if rv["un"] == "Not" and a[0] == CONST and a[1] in (0, 1):
                return (CONST, 1 - a[1], "")
            return unk("arithmetic")
        return unk("rvalue")

    # -------------------------------------------------------------- drop glue
    def glue(self, st, a, depth):
        """Drops the value at address a. Yields (state, 'ok' | 'unw' | 'abort')."""
        obj, path = a
        v = get(st.mem.get(obj, UN), path)
        k = v[0]
        if k in (REF, CONST, ZST, FN, UNINIT):
            return [(st, "ok")]
        if k == TOK:
            if self.nodrop and self.nodrop.get(v[1]):
                return [(st, "ok")]
            st.ev("drop", v[1], obj if not isinstance(obj, tuple) else "local", path)
            # a destructor that panics while another panic unwinds aborts the process: not followed
            if not self.panics or st.panicking:
                return [(st, "ok")]
            s2 = st.copy()
            s2.ev("panic", v[1])
            s2.panicking = True
            return [(st, "ok"), (s2, "unw")]
        if k == UNK:
            st.ev("unk", "drop of an unknown value (%s)" % v[1])
            return [(st, "ok")]
        if k == ADT:
            if v[1] == MD or v[1].endswith("MaybeDangling") or v[1].startswith("core::marker::Phantom") or v[1].endswith("MaybeUninit"):
                return [(st, "ok")]
            outs = [(st, "ok")]
            d = self.p.drops.get(v[1])
            if d is not None:
                outs = []
                for s1, o, _ in self.call_fn(st, d, [(REF, obj, path)], depth + 1):
                    outs.append((s1, "ok" if o == "ret" else o))
            n = len(v[3])
        elif k == TUP:
            outs, n = [(st, "ok")], len(v[1])
        elif k == CLO:
            outs, n = [(st, "ok")], len(v[3])
        else:
            return [(st, "ok")]
        for i in range(n):
            nxt = []
            for s1, o in outs:
                if o == "abort":
                    nxt.append((s1, o))
                    continue
                for s2, o2 in self.glue(s1, (obj, path + (i,)), depth):
                    if o == "unw" and o2 == "unw":
                        nxt.append((s2, "abort"))
                    elif o == "unw" or o2 == "unw":
                        nxt.append((s2, "unw"))
                    else:
                        nxt.append((s2, o2))
            outs = nxt
        return outs

    # -------------------------------------------------------------- calls
    def temp(self, st, v):
        st.nf += 1
        o = ("t", st.nf)
        st.mem[o] = v
        return o

    def target(self, v):
        """Address denoted by a pointer-like value."""
        while v[0] == ADT and v[1] in (PIN, "core::ptr::non_null::NonNull") and v[3]:
            v = v[3][0]
        if v[0] == REF:
            return v[1], v[2]
        return None

    def deref_chain(self, st, v):
        """Value of *v for deref()/as_ref()-like calls: v is a reference to a pointer-like value."""
        a = self.target(v)
        if a is None:
            return None
        return get(st.mem.get(a[0], UN), a[1])

    def summary(self, st, callee, args, depth):
        """Returns a list of (state, outcome, value), or None if there is no summary."""
        path = norm(callee.get("resolved") or callee["path"])
        base = norm(callee["path"])
        name = callee["name"]
        ret = lambda v: [(st, "ret", v)]
        unit = (TUP, ())

        def rd(p):
            a = self.target(p)
            return unk("read") if a is None else get(st.mem.get(a[0], UN), a[1])

        def bad(what):
            st.ev("unk", "%s of an unknown pointer" % what)
            return ret(unk(what))

        mod = base.rsplit("::", 1)[0]
        if mod.startswith("core::pin"):
            if name in ("new_unchecked", "new"):
                return ret((ADT, PIN, 0, (args[0],)))
            if name in ("get_unchecked_mut", "get_mut", "get_ref", "into_inner_unchecked", "into_inner", "static_ref", "static_mut"):
                if args[0][0] == ADT and args[0][1] == PIN:
                    return ret(args[0][3][0])
                return ret(unk("pin"))
            if name in ("into_ref",):
                return ret(args[0])
            if name in ("as_mut", "as_ref"):
                v = self.deref_chain(st, args[0])
                if v and v[0] == ADT and v[1] == PIN and v[3][0][0] == REF:
                    return ret(v)
                return ret(unk("pin"))
            if name in ("as_deref_mut",):
                v = args[0]
                a = self.target(v)
                x = get(st.mem.get(a[0], UN), a[1]) if a else None
                return ret(x if x and x[0] == ADT and x[1] == PIN else unk("pin"))
            if name in ("map_unchecked", "map_unchecked_mut"):
                out = []
                for s1, o, v in self.call_value(st, args[1], [args[0][3][0] if args[0][0] == ADT else unk("pin")], depth):
                    out.append((s1, o, (ADT, PIN, 0, (v,)) if o == "ret" else v))
                return out
        if name in ("deref", "deref_mut") and (callee.get("trait") or "").startswith("core::ops::deref"):
            v = self.deref_chain(st, args[0])
            a = self.target(args[0]) if args[0][0] == REF else None
            if v is not None:
                if v[0] == ADT and v[1] == MD:
                    return ret((REF, a[0], a[1] + (0,)))
                if v[0] == ADT and v[1] == PIN and v[3][0][0] == REF:
                    return ret(v[3][0])
                if v[0] == REF:
                    return ret(v)
            return None
        if "core::mem::manually_drop" in base:
            if name == "new":
                return ret((ADT, MD, 0, (args[0],)))
            if name == "into_inner":
                return ret(args[0][3][0] if args[0][0] == ADT else unk("md"))
            if name == "take":
                v = rd(args[0])
                return ret(v[3][0] if v[0] == ADT and v[1] == MD else unk("md"))
            if name == "drop":
                a = self.target(args[0])
                if a is None:
                    return bad("drop")
                return [(s, "ret" if o == "ok" else o, unit) for s, o in self.glue(st, (a[0], a[1] + (0,)), depth)]
        if "core::mem::maybe_uninit" in base:
            if name == "new":
                return ret((ADT, MU, 0, (args[0],)))
            if name in ("uninit", "zeroed"):
                return ret((ADT, MU, 0, (UN,)))
            if name == "assume_init":
                return ret(args[0][3][0] if args[0][0] == ADT and args[0][1] == MU else unk("mu"))
            v = rd(args[0]) if args else UN
            a = self.target(args[0]) if args else None
            if a is not None and v[0] == ADT and v[1] == MU:
                inner = (a[0], a[1] + (0,))
                if name == "assume_init_read":
                    return ret(v[3][0])
                if name in ("assume_init_ref", "assume_init_mut", "as_ptr", "as_mut_ptr"):
                    return ret((REF,) + inner)
                if name == "write":
                    self.write(st, inner, args[1])
                    return ret((REF,) + inner)
                if name == "assume_init_drop":
                    return [(s, "ret" if o == "ok" else o, unit) for s, o in self.glue(st, inner, depth)]
        isptr = mod in ("core::ptr", "core::ptr::mut_ptr::*", "core::ptr::const_ptr::*", "core::intrinsics", "core::ptr::non_null::*")
        if isptr:
            if name in ("read", "read_unaligned", "read_volatile"):
                a = self.target(args[0])
                if a is None:
                    return bad("read")
                st.ev("read", a[0] if not isinstance(a[0], tuple) else "local", a[1])
                return ret(rd(args[0]))
            if name in ("write", "write_unaligned", "write_volatile"):
                a = self.target(args[0])
                if a is None:
                    return bad("write")
                self.write(st, a, args[1])
                return ret(unit)
            if name == "replace":
                a = self.target(args[0])
                if a is None:
                    return bad("replace")
                v = rd(args[0])
                self.write(st, a, args[1])
                return ret(v)
            if name == "swap":
                a, b = self.target(args[0]), self.target(args[1])
                if a is None or b is None:
                    return bad("swap")
                x, y = rd(args[0]), rd(args[1])
                self.write(st, a, y)
                self.write(st, b, x)
                return ret(unit)
            if name in ("drop_in_place", "drop_glue"):
                a = self.target(args[0])
                if a is None:
                    return bad("drop")
                return [(s, "ret" if o == "ok" else o, unit) for s, o in self.glue(st, a, depth)]
            if name in ("copy_nonoverlapping", "copy", "copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping"):
                s_, d_ = (args[1], args[0]) if "from" in name else (args[0], args[1])
                a, b = self.target(s_), self.target(d_)
                if a is None or b is None or args[2][0] != CONST or args[2][1] != 1:
                    return bad("copy")
                self.write(st, b, rd(s_))
                return ret(unit)
            if name in ("cast", "cast_mut", "cast_const", "as_ptr", "from_mut", "from_ref", "as_mut", "as_ref", "new_unchecked", "addr_of_mut") and args:
                if name in ("as_mut", "as_ref") and mod != "core::ptr::non_null::*":
                    return None
                if name in ("as_mut", "as_ref"):
                    v = rd(args[0])
                    t = self.target(v) if v[0] in (ADT, REF) else None
                    return ret((REF,) + t) if t else ret(unk("ptr"))
                t = self.target(args[0])
                return ret((REF,) + t) if t else ret(unk("ptr"))
        if mod == "core::mem":
            if name == "forget":
                st.ev("forget", args[0])
                return ret(unit)
            if name == "drop":
                o = self.temp(st, args[0])
                return [(s, "ret" if oo == "ok" else oo, unit) for s, oo in self.glue(st, (o, ()), depth)]
            if name in ("replace",):
                a = self.target(args[0])
                if a is None:
                    return bad("replace")
                v = rd(args[0])
                self.write(st, a, args[1])
                return ret(v)
            if name == "swap":
                a, b = self.target(args[0]), self.target(args[1])
                if a is None or b is None:
                    return bad("swap")
                x, y = rd(args[0]), rd(args[1])
                self.write(st, a, y)
                self.write(st, b, x)
                return ret(unit)
            if name == "needs_drop":
                return ret((CONST, 1, "needs_drop"))
        if name in ("call_once", "call", "call_mut") and (callee.get("trait") or "").startswith("core::ops::function"):
            f = args[0]
            if f[0] == REF:
                f = get(st.mem.get(f[1], UN), f[2])
            a = args[1]
            if a[0] == TUP:
                return self.call_value(st, f, list(a[1]), depth)
            return None
        if name in ("borrow", "borrow_mut") and (callee.get("trait") or "").startswith("core::borrow"):
            return None
        if name in ("from", "into") and args and args[0][0] == REF and path.startswith("core::"):
            return None
        return None

    def call_value(self, st, f, args, depth):
        if f[0] == FN:
            return self.call(st, f[1], args, depth)
        if f[0] == CLO:
            fn = self.p.fns.get(f[1])
            if fn and fn["body"]:
                # closure body takes its environment by value, & or &mut
                ty = fn["body"]["locals"][1]["ty"]
                env = f
                if ty["k"] == "ref":
                    env = (REF, self.temp(st, f), ())
                # arguments are spread
                if fn["body"]["argc"] == 1 + len(args):
                    return self.call_fn(st, f[1], [env] + args, depth + 1)
                if fn["body"]["argc"] == 2:
                    return self.call_fn(st, f[1], [env, (TUP, tuple(args))], depth + 1)
        st.ev("unk", "call of an unknown function value")
        return [(st, "ret", unk("call"))]

    def call(self, st, callee, args, depth):
        tgt = callee.get("resolved") or callee["path"]
        if callee["name"] in self.user and callee["crate"] == self.p.fx["crate"]:
            st.ev("user", callee["name"], args[0] if args else None)
            s2 = st.copy()
            s2.ev("panic", callee["name"])
            s2.panicking = True
            return [(st, "ret", (TUP, ())), (s2, "unw", None)]
        r = self.summary(st, callee, args, depth)
        if r is not None:
            self.summarised.add(norm(callee["path"]))
            return r
        fn = self.p.fns.get(tgt)
        # a trait method that is not resolved to an impl has no body of its own to follow
        if fn and fn.get("body") and not (callee.get("trait") and not callee.get("resolved") and "impl_self" not in callee and fn["path"] == callee["path"]):
            return self.call_fn(st, tgt, args, depth + 1)
        st.ev("unk", "call of %s" % norm(tgt))
        s2 = st.copy()
        s2.panicking = True
        return [(st, "ret", unk("call")), (s2, "unw", None)]

    def call_fn(self, st, path, args, depth=0):
        fn = self.p.fns.get(path)
        if fn is None or not fn.get("body"):
            st.ev("unk", "no body for %s" % path)
            return [(st, "ret", unk("call"))]
        if depth > self.maxdepth:
            raise Give("call depth")
        self.followed.add(path)
        body = fn["body"]
        st.nf += 1
        fr = st.nf
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        outs = []
        work = [(st, 0, {})]
        while work:
            s, bb, seen = work.pop()
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Give("too many steps")
            if seen.get(bb, 0) > 2:
                s.ev("unk", "loop in %s" % path)
                continue
            seen = dict(seen)
            seen[bb] = seen.get(bb, 0) + 1
            b = body["blocks"][bb]
            for x in b["s"]:
                if "assign" in x:
                    v = self.rvalue(s, fr, x["rv"])
                    a = self.addr(s, fr, x["assign"])
                    self.write(s, a, v)
                    # a moved-from place keeps its bits; it no longer owns them
                    self.unown(s, fr, x["rv"])
                elif "setdiscr" in x:
                    s.ev("unk", "set discriminant")
                elif "copynonoverlapping" in x:
                    a, d, n = (self.operand(s, fr, o) for o in x["copynonoverlapping"])
                    ta, td = self.target(a), self.target(d)
                    if ta is None or td is None or n[0] != CONST or n[1] != 1:
                        s.ev("unk", "copy")
                    else:
                        self.write(s, td, get(s.mem.get(ta[0], UN), ta[1]))
            t = b["t"]
            k = t["k"]
            if k == "goto":
                work.append((s, t["t"], seen))
            elif k == "return":
                v = s.mem.get((fr, 0), (TUP, ()))
                outs.append((s, "ret", v if v != UN else (TUP, ())))
            elif k == "resume":
                outs.append((s, "unw", None))
            elif k == "terminate":
                outs.append((s, "abort", None))
            elif k == "unreachable":
                s.ev("unreachable", path)
                outs.append((s, "unreachable", None))
            elif k == "switch":
                d = self.operand(s, fr, t["d"])
                if d[0] == CONST:
                    to = t["otherwise"]
                    for v, bb2 in t["targets"]:
                        if v == d[1]:
                            to = bb2
                    work.append((s, to, seen))
                else:
                    for bb2 in {x[1] for x in t["targets"]} | {t["otherwise"]}:
                        work.append((s.copy(), bb2, seen))
            elif k == "drop":
                a = self.addr(s, fr, t["p"])
                if a is None:
                    s.ev("unk", "drop of an unknown place")
                    work.append((s, t["t"], seen))
                else:
                    for s1, o in self.glue(s, a, depth):
                        self.cont(s1, o, t, fr, work, outs, seen)
            elif k == "call":
                args2 = [self.operand(s, fr, o) for o in t["a"]]
                f = self.operand(s, fr, t["f"])
                if f[0] == FN:
                    rs = self.call(s, f[1], args2, depth)
                else:
                    rs = self.call_value(s, f, args2, depth)
                for s1, o, v in rs:
                    if o == "ret":
                        for ao in t["a"]:
                            self.unown(s1, fr, {"use": ao})
                        if t["t"] is None:
                            s1.ev("diverge")
                            outs.append((s1, "unw", None))
                            continue
                        self.write(s1, self.addr(s1, fr, t["dest"]), v)
                        work.append((s1, t["t"], seen))
                    else:
                        self.cont(s1, o, t, fr, work, outs, seen)
            elif k == "assert":
                c = self.operand(s, fr, t["c"])
                if c[0] == CONST and bool(c[1]) == t["expected"]:
                    work.append((s, t["t"], seen))
                else:
                    s2 = s.copy()
                    s2.ev("unk", "assertion may fail: %s" % t["msg"])
                    work.append((s, t["t"], seen))
                    self.cont(s2, "unw", t, fr, work, outs, seen)
            else:
                s.ev("unk", "terminator " + k)
                outs.append((s, "ret", unk("terminator")))
        return outs

    def unown(self, s, fr, rv):
        """After `move x` the local x no longer owns its value (only whole-local moves matter: drops of
        partially moved locals are elaborated by the compiler)."""
        o = rv.get("use")
        if o and "move" in o:
            l, proj = o["move"]
            if not proj:
                s.mem[(fr, l)] = UN
            elif "*" not in [p for p in proj if isinstance(p, str)]:
                a = self.addr(s, fr, o["move"])
                if a:
                    s.mem[a[0]] = put(s.mem.get(a[0], UN), a[1], UN)
        for o in rv.get("ops", []) if "agg" in rv else []:
            self.unown(s, fr, {"use": o})

    def cont(self, s, o, t, fr, work, outs, seen):
        if o == "ok":
            work.append((s, t["t"], seen))
        elif o == "abort" or o == "unreachable":
            outs.append((s, o, None))
        else:
            u = t["u"]
            if u == "continue":
                outs.append((s, "unw", None))
            elif u == "terminate":
                outs.append((s, "abort", None))
            elif u == "unreachable":
                outs.append((s, "abort", None))
            else:
                work.append((s, u, seen))


def tokens(v):
    """All tokens in a value."""
    if v is None:
        return []
    if v[0] == TOK:
        return [v[1]]
    if v[0] in (ADT, CLO):
        return [t for x in v[3] for t in tokens(x)]
    if v[0] == TUP:
        return [t for x in v[1] for t in tokens(x)]
    return []


def show(v):
    k = v[0]
    if k == TOK:
        return str(v[1])
    if k == REF:
        return "&%s%s" % (v[1] if not isinstance(v[1], tuple) else "local", "".join("." + str(p) for p in v[2]))
    if k == ADT:
        return "%s#%d(%s)" % (v[1].rsplit("::", 1)[-1], v[2], ", ".join(show(x) for x in v[3]))
    if k == TUP:
        return "(%s)" % ", ".join(show(x) for x in v[1])
    if k == UNK:
        return "?(%s)" % v[1]
    return "/".join(str(x) for x in v[:2])
