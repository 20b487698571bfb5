"""Compiling witnesses: programs that use the macros, checked (never run) by the compiler.

A witness is compiled for metadata only; in `facts` mode the fact extractor also writes the resolved
types, impls, visibilities and MIR of the witness crate."""
import itertools
import json
import os
import re
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build, facts as facts_mod

HEAD = "#![allow(warnings)]\n"
# all witness modules live in crate::outer, so that restricted visibilities can be written
OPEN = "pub mod outer {\n"
CLOSE = "}\n"


class Ctx:
    """The built crates plus a scratch directory."""

    def __init__(self, tc="nightly"):
        with build.Lock():
            self.tc = tc
            self.deps = build.deps(tc)
            self.exe = build.driver() if tc == "nightly" else None
        base = os.path.join(build.OUT, "scratch")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="w", dir=base)
        self.n = itertools.count(1)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, stem, ext=".rs"):
        return os.path.join(self.dir, "%s_%d%s" % (stem, next(self.n), ext))


class Result:
    def __init__(self, ok, diags, raw, facts=None, src=None):
        self.ok, self.diags, self.raw, self.facts, self.src = ok, diags, raw, facts, src

    def errors(self):
        return [d for d in self.diags if d.get("level") == "error"]

    def text(self, n=3):
        out = []
        for d in self.errors()[:n]:
            c = (d.get("code") or {}).get("code") or ""
            out.append(("error%s: %s" % ("[%s]" % c if c else "", d["message"])).strip())
        return "; ".join(out) or self.raw[-300:]

    def codes(self):
        return sorted({(d.get("code") or {}).get("code") or "-" for d in self.errors() if not d["message"].startswith("aborting")})


def _lines_of(span):
    while span.get("expansion"):
        span = span["expansion"]["span"]
    return span["file_name"], span["line_start"]


def rustc(cx, src, stem="w", facts=False, edition="2021", flags=(), crate_type="lib", externs=True, emit="metadata"):
    p = cx.path(stem)
    with open(p, "w") as f:
        f.write(src)
    name = "w_" + re.sub(r"\W", "_", os.path.basename(p)[:-3])
    env = build.base_env()
    if "#![feature" not in src:
        env["RUSTC_BOOTSTRAP"] = "-1"
    exe = [cx.exe] if cx.exe else ["rustc", "+" + cx.tc]
    if facts:
        if not cx.exe:
            raise build.BuildError("facts need the nightly toolchain")
        env["PPF_CRATES"], env["PPF_OUT"], env["PPF_FULL"] = name, cx.dir, "1"
        env.pop("RUSTC_BOOTSTRAP", None)
    cmd = exe + ["--crate-name", name, "--edition", edition, "--crate-type", crate_type, "--emit=" + emit, "--error-format=json", "-Cdebuginfo=0", "-Cdebug-assertions=no", "-Cpanic=unwind", "--out-dir", cx.dir] + list(flags)
    if externs:
        cmd += cx.deps.flags()
    r = build.run(cmd + [p], env=env)
    diags = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    ok = r.returncode == 0
    fx = None
    if ok and facts:
        fp = os.path.join(cx.dir, name + ".json")
        with open(fp) as f:
            fx = facts_mod.load(f)
        os.remove(fp)
    for e in (".rmeta",):
        try:
            os.remove(os.path.join(cx.dir, "lib" + name + e))
        except OSError:
            pass
    return Result(ok, diags, r.stderr, fx, src)


def pool(fn, items, jobs=None):
    with ThreadPoolExecutor(jobs or build.JOBS) as ex:
        return list(ex.map(fn, items))


class Mods:
    """Result of compiling many modules: facts per chunk, and the modules that do not compile."""

    def __init__(self):
        self.chunks = []  # (facts, [module names])
        self.failed = {}  # name -> message
        self.srcs = {}


def _compile_chunk(cx, mods, prelude, edition, flags, facts, stem):
    """mods: [(name, src)] -> (facts or None, [names that compiled], {failed: msg})"""
    live = list(mods)
    failed = {}
    for _round in range(12):
        if not live:
            return None, [], failed
        src = HEAD + prelude + OPEN
        spans = []
        line = src.count("\n") + 1
        parts = [src]
        for name, body in live:
            s = body if body.endswith("\n") else body + "\n"
            n = s.count("\n")
            spans.append((line, line + n - 1, name))
            line += n
            parts.append(s)
        parts.append(CLOSE)
        r = rustc(cx, "".join(parts), stem=stem, facts=facts, edition=edition, flags=flags)
        if r.ok:
            return r.facts, [n for n, _ in live], failed
        bad = {}
        for d in r.errors():
            sps = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
            for s in sps:
                _, ln = _lines_of(s)
                for a, b, name in spans:
                    if a <= ln <= b:
                        bad.setdefault(name, d["message"])
        if not bad:
            # cannot attribute: try one by one
            if len(live) == 1:
                failed[live[0][0]] = r.text()
                return None, [], failed
            good = []
            for m in live:
                q = rustc(cx, HEAD + prelude + OPEN + m[1] + CLOSE, stem=stem, edition=edition, flags=flags)
                if q.ok:
                    good.append(m)
                else:
                    failed[m[0]] = q.text()
            if len(good) == len(live):
                failed["(whole crate)"] = r.text()
                return None, [], failed
            live = good
            continue
        failed.update(bad)
        live = [m for m in live if m[0] not in bad]
    failed["(whole crate)"] = "does not settle"
    return None, [], failed


def compile_groups(cx, groups, prelude="", edition="2021", flags=(), facts=True, stem="c"):
    groups = [g for g in groups if g]
    out = Mods()
    for g in groups:
        out.srcs.update(g)
    for fx, names, failed in pool(lambda g: _compile_chunk(cx, g, prelude, edition, flags, facts, stem), groups):
        if names:
            out.chunks.append((fx, names))
        out.failed.update(failed)
    return out


def compile_modules(cx, mods, prelude="", edition="2021", flags=(), facts=True, chunks=None, stem="c"):
    n = chunks or min(build.JOBS, max(1, len(mods) // 12))
    return compile_groups(cx, [mods[i::n] for i in range(n)], prelude, edition, flags, facts, stem)
