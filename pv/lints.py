"""C25: what the compiler's and Clippy's lints say about a declaration with the attribute and without."""
import collections
import json
import os
import re
import subprocess

from . import build, compile as C

# lints that are about the crate or the command line, not about an item
SKIP = {"unused-crate-dependencies", "unstable-features", "unknown-lints", "missing-fragment-specifier"}
# restriction lints that pin-project's documentation of changes or lint tests name
RESTRICTION = ["absolute_paths", "min_ident_chars", "pattern_type_mismatch", "pub_with_shorthand", "single_char_lifetime_names", "single_call_fn", "missing_docs_in_private_items", "missing_inline_in_public_items", "implicit_return", "question_mark_used", "undocumented_unsafe_blocks", "unwrap_used", "panic", "pub_use", "exhaustive_structs", "exhaustive_enums", "field_scoped_visibility_modifiers", "partial_pub_fields", "shadow_same", "shadow_reuse", "shadow_unrelated", "multiple_inherent_impl", "mem_forget", "as_conversions", "std_instead_of_core", "mod_module_files", "impl_trait_in_params"]


def tools():
    r = subprocess.run(["rustup", "+nightly", "which", "clippy-driver"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    exe = r.stdout.strip()
    if r.returncode or not os.path.exists(exe):
        raise build.BuildError("clippy-driver of the nightly toolchain is not installed")
    root = os.path.dirname(os.path.dirname(exe))
    h = subprocess.run(["rustc", "+nightly", "-W", "help"], stdout=subprocess.PIPE, text=True).stdout
    names = sorted({n for n, _ in re.findall(r"^\s+([a-z][a-z0-9-]+)\s+(allow|warn)\s", h, re.M)} - SKIP)
    if len(names) < 100:
        raise build.BuildError("the compiler does not list its lints")
    return exe, root, ["-W" + n for n in names] + ["-Wclippy::all", "-Wclippy::pedantic", "-Wclippy::nursery"] + ["-Wclippy::" + n for n in RESTRICTION]


TYPES = [
    ("plain", "", ["Elem", "Other"]),
    ("mut-ref", "'long", ["&'long mut Elem", "&'long mut Other"]),
    ("opt-ref", "'long", ["Option<&'long Elem>", "&'long Option<&'long Other>"]),
    ("opt-ref-only", "'long", ["Option<&'long Elem>", "Option<&'long Other>"]),
    ("large", "", ["[u8; 2048]", "Elem", "Other"]),
    ("pinned", "'long", ["Pin<&'long mut Elem>", "Pin<&'long Other>"]),
    ("ptr", "", ["*const Elem", "*mut Option<Other>"]),
    ("nested", "'long", ["Vec<Option<&'long mut Elem>>", "Result<(Elem, Other), [Elem; 3]>"]),
    ("self", "", ["Option<Box<Example<@>>>", "Elem", "Other"]),
    ("concrete", "", ["u8", "String", "Vec<u8>", "-"]),
    ("dyn", "", ["Box<dyn Send>", "Box<dyn Fn(&u8) -> &u8>", "-"]),
    ("deprecated", "", ["Deprecated", "Elem", "Other"]),
    ("unsized", "", ["Elem", "Other"]),
]
ARGS = ["", "project = Proj, project_ref = ProjRef, project_replace = ProjOwn", "project = Proj", "project_ref = ProjRef", "project_replace = ProjOwn", "project_replace", "!Unpin", "!Unpin, project = Proj", "UnsafeUnpin", "UnsafeUnpin, project_ref = ProjRef, project_replace = ProjOwn", "PinnedDrop", "PinnedDrop, project = Proj, project_ref = ProjRef", "PinnedDrop, !Unpin"]
BOUNDS = [("", "", ""), ("Clone", "", ""), ("", "", "Elem: Clone, Other: Default"), ("Clone", "Copy", "Elem: Default, Option<Other>: Clone"), ("", "", "Elem: Clone + Send, Elem: Sync, Other: Copy"), ("Unpin", "?Sized", "")]
USER = ["", "", "", "#[must_use]", "#[deprecated]", "#[non_exhaustive]", "#[repr(C)]", "#[allow(non_snake_case)]", "#[doc(hidden)]", "#[allow(clippy::all)]", "#[allow(non_camel_case_types)]"]
NAMES = {"#[allow(non_snake_case)]": ["firstValue", "secondValue", "thirdValue", "fourthValue"], "": ["first", "another_one", "inner_data", "tail"], "value": ["first_value", "second_value", "third_value", "fourth_value"], "_": ["_first", "__second", "_third", "_fourth"]}


def programs(thorough):
    """[(edition, key, annotated module, plain module, oddities)] with the module's name written %s."""
    out = []
    n = 0
    step = 1 if thorough else 2
    for kind in ("named", "tuple", "enum", "enum1"):
        for ti, (tn, lt, tys) in enumerate(TYPES):
            for ai, args in enumerate(ARGS):
                en = kind.startswith("enum")
                if en and args == "project_replace" or tn == "unsized" and "replace" in args:
                    continue
                for j in range(6):
                    n += 1
                    if (n * 7 + ti + ai) % step:
                        continue
                    vis = ["pub", "", "pub(crate)", "pub", "pub(super)", ""][(n + j) % 6]
                    fvis = "" if en else ["", "pub", "pub(crate)", "pub(super)"][(n // 2 + ti) % 4]
                    b1, b2, wh = BOUNDS[(n + ai) % len(BOUNDS)]
                    user = USER[(n // 3 + j) % len(USER)]
                    if user == "#[repr(C)]" and en:
                        user = ""
                    names = NAMES["_" if n % 11 == 0 else user if user in NAMES else "value" if n % 13 == 0 else ""]
                    conc = "-" in tys
                    if tn == "unsized":
                        b2 = "?Sized"
                    elif b2 == "?Sized":
                        b2 = ""
                    if tn in ("unsized",) and en:
                        continue
                    if tn == "unsized":
                        wh = ""
                    if lt and n % 4 == 0:
                        b1, b2 = ("'long" + (" + " + b1 if b1 else "")), ("'long" + (" + " + b2 if b2 else ""))
                    if conc:
                        wh = ""
                    gp = [] if conc else ([lt] if lt else []) + ["Elem" + (": " + b1 if b1 else ""), "Other" + (": " + b2 if b2 else "")]
                    gu = [] if conc else ([lt] if lt else []) + ["Elem", "Other"]
                    gi, gt = ("<" + ", ".join(gp) + ">", "<" + ", ".join(gu) + ">") if gp else ("", "")
                    w = " where " + wh if wh else ""
                    ts = [t.replace("@", ", ".join(gu)) for t in tys if t != "-"]
                    mask = [(n >> k) & 1 for k in range(len(ts))]
                    if not any(mask) and n % 5:
                        mask[0] = 1

                    vn = ["started", "in_progress", "DONE"] if "camel" in user else ["FirstCase", "SecondCase", "ThirdCase"] if n % 13 == 0 else ["Started", "InProgress", "Done"]

                    def body(ann):
                        def fld(k, named):
                            return "/// Documented.\n%s%s%s%s" % ("#[pin] " if ann and mask[k] else "", (fvis + " ") if fvis else "", (names[k] + ": ") if named else "", ts[k])
                        ks = range(len(ts))
                        if kind == "named":
                            return "struct Example%s%s {\n%s\n}" % (gi, w, ",\n".join(fld(k, True) for k in ks))
                        if kind == "tuple":
                            return "struct Example%s(\n%s\n)%s;" % (gi, ",\n".join(fld(k, False) for k in ks), w)
                        if kind == "enum1":
                            return "enum Example%s%s {\n/// Documented.\nOnlyOne {\n%s\n} }" % (gi, w, ",\n".join(fld(k, True) for k in ks))
                        return "enum Example%s%s {\n/// Documented.\n%s {\n%s\n},\n/// Documented.\n%s(\n%s\n),\n/// Documented.\n%s,\n}" % (gi, w, vn[0], ",\n".join(fld(k, True) for k in ks), vn[1], ",\n".join(fld(k, False) for k in reversed(ks)), vn[2])

                    uses = "".join(u + "\n" for u, c in (("use core::pin::Pin;", any("Pin<" in t for t in ts) or "PinnedDrop" in args), ("use core::hint::black_box;", "PinnedDrop" in args)) if c)
                    pre = "/// Documented.\n#[deprecated]\n#[derive(Debug)]\npub struct Deprecated(/** Documented. */ pub String);\n" if tn == "deprecated" else ""
                    dep = "#[allow(deprecated)]\n" if tn == "deprecated" else ""
                    dead = "#[allow(dead_code)]\n" if vis != "pub" or n % 2 else ""
                    dead += "#[derive(Debug)]\n" if tn not in ("dyn", "unsized") and n % 3 else ""

                    def mod(ann):
                        s = "/// Documented.\npub mod %s {\n" + uses + pre
                        s += "/// Documented.\n%s%s%s%s%s %s\n" % ("#[pin_project::pin_project%s]\n" % ("(" + args + ")" if args else "") if ann else "", dep, dead, user + "\n" if user else "", vis, body(ann))
                        if "PinnedDrop" in args:
                            dp = "#[allow(deprecated)]\n" if user == "#[deprecated]" else ""
                            if ann:
                                s += "%s#[pin_project::pinned_drop]\nimpl%s PinnedDrop for Example%s%s {\nfn drop(self: Pin<&mut Self>) { let _ = black_box(&raw const *self); }\n}\n" % (dp, gi, gt, w)
                            else:
                                s += "%simpl%s Example%s%s {\n#[allow(dead_code)]\nfn dropped(self: Pin<&mut Self>) { let _ = black_box(&raw const *self); }\n}\n" % (dp, gi, gt, w)
                        return s + "}\n"
                    ed = ("2021", "2018", "2024")[n % 3]
                    # what the user wrote that a lint would object to, were it not allowed on the item or the item exported
                    odd = {"non_snake_case": "allowed-on-item" if "snake" in user else "", "non_camel_case_types": "allowed-on-item" if "camel" in user else "", "clippy::enum_variant_names": "common-affix" if n % 13 == 0 and kind == "enum" else "", "clippy::struct_field_names": "common-affix" if names[0].endswith(("_value", "Value")) else "", "clippy::multiple_bound_locations": "inline-and-where" if b1 and "Elem: " in wh or b2 and "Other: " in wh else ""}
                    out.append((ed, "%s/%s/%s" % (kind, tn, args.replace(" ", "") or "none"), mod(True), mod(False), odd))
    return out


def c25(run):
    cx = run.ctx()
    exe, root, flags = tools()
    ps = programs(run.thorough)
    env = build.base_env()
    env["LD_LIBRARY_PATH"] = root + "/lib"
    env.pop("CLIPPY_CONF_DIR", None)
    env["CLIPPY_CONF_DIR"] = cx.dir

    def lint(job):
        edition, mods = job
        src, lines = "//! Documented.\n", []
        for k, s in mods:
            a = src.count("\n") + 1
            src += s
            lines.append((k, a, src.count("\n")))
        p = cx.path("l")
        with open(p, "w") as f:
            f.write(src)
        x = subprocess.run([exe, "--crate-name", "w", "--edition", edition, "--crate-type", "lib", "--emit=metadata", "--error-format=json", "--out-dir", cx.dir, "--cap-lints=warn"] + flags + cx.deps.flags() + [p], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        got, errs, other = collections.defaultdict(dict), {}, {}
        for l in x.stderr.splitlines():
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            sp = [s for s in d.get("spans") or [] if s["is_primary"]]
            c = (d.get("code") or {}).get("code")
            if not sp:
                if d["level"] == "error" and not d["message"].startswith("aborting"):
                    other[d["message"]] = 1
                continue
            q = sp[0]
            while q.get("expansion"):
                q = q["expansion"]["span"]
            k = [k for k, a, b in lines if a <= q["line_start"] <= b and q["file_name"] == p]
            if d["level"] == "error":
                errs[k[0] if k else "?"] = d["message"]
            elif k and c:
                got[k[0]].setdefault(c, d["message"])
        if other and not errs:
            raise build.BuildError("clippy: " + str(other)[:300])
        if errs:
            if len(mods) == 1:
                return {}, {mods[0][0]: list(errs.values())[0]}
            bad = [m for m in mods if m[0] in errs]
            good = [m for m in mods if m[0] not in errs]
            if not bad:
                raise build.BuildError("clippy: " + str(errs)[:300])
            g, e = lint((edition, good)) if good else ({}, {})
            for m in bad:
                e[m[0]] = errs[m[0]]
            return g, e
        if x.returncode:
            raise build.BuildError("clippy: " + x.stderr[-300:])
        return got, {}

    jobs = []
    for w in (2, 3):
        for ed in ("2018", "2021", "2024"):
            ms = [("m%d" % i, p[w] % ("m%d" % i)) for i, p in enumerate(ps) if p[0] == ed]
            jobs += [(ed, ms[j::4]) for j in range(4)]
    n = len(jobs) // 2
    res = C.pool(lint, jobs)
    ga, gb, ea, eb = {}, {}, {}, {}
    for g, e in res[:n]:
        ga.update(g)
        ea.update(e)
    for g, e in res[n:]:
        gb.update(g)
        eb.update(e)
    seen = collections.Counter()
    ok = 0
    for i, (ed, key, a, b, odd) in enumerate(ps):
        k = "m%d" % i
        if k in eb:
            run.rep.count("not a declaration of its own")
            continue
        if k in ea:
            run.bad("C25/rejected/" + key, "a supported declaration does not compile (%s)" % ea[k], a % k)
            continue
        ok += 1
        run.rep.count("declarations")
        run.unit(a)
        pl = gb.get(k, {})
        run.rep.count("lints silent on the plain declaration", len(flags) - len(pl))
        for c, msg in sorted(ga.get(k, {}).items()):
            if c not in pl:
                kc = "C25/" + c + ("/" + odd[c] if odd.get(c) else "")
                seen[kc] += 1
                if seen[kc] <= 3:
                    run.bad(kc, "the lint `%s` is raised by annotating a declaration (%s): %s" % (c, msg, " ".join((a % k).split())[:700]), a % k)
        run.rep.sample({"program": " ".join(a.split())[:300], "verdict": "no lint beyond the plain declaration's: %s" % sorted(pl), "rule": "lints(annotated) subset of lints(plain)"}, 4)
    if ok < (900 if run.thorough else 300):
        run.bad("C25/floor", "only %d declarations could be analysed" % ok)
    return seen
