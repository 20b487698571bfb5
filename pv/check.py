"""Command line: python3 -m pv.check <property> [--thorough]

Exit 0: the property held on everything analysed. Exit 1: VIOLATION lines. Exit 2: no answer."""
import hashlib
import json
import os
import re
import sys
import time
import traceback

from . import build, compile as C, corpus, decl, facts
from .rules import Report, describe

KNOWN = os.path.join(build.VERIF, "known-findings.txt")
EVID = os.path.join(build.VERIF, "evidence")


def known_findings(prop):
    """{key: text} of the recorded (unfixed) findings of a property."""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


class Case:
    """A witness program. `accept`: it must compile; otherwise it must not, while its twin must."""

    def __init__(self, key, src, accept, twin=None, edition="2021", attrs="", flags=(), why="", soft=False, externs=()):
        self.key, self.src, self.accept, self.twin = key, src, accept, twin
        self.edition, self.attrs, self.flags, self.why, self.soft, self.externs = edition, attrs, flags, why, soft, tuple(externs)


class Run:
    def __init__(self, prop, thorough, seed):
        self.prop, self.thorough, self.seed = prop, thorough, seed
        self.rep = Report()
        self.cx = None
        self.rule = ""
        self.assumptions = []
        self.replays = {}  # key -> source
        self.evals, self.units = 0, set()  # programs, modules or functions analysed; the distinct ones
        self.t0 = time.time()

    def ctx(self):
        if self.cx is None:
            self.cx = C.Ctx("nightly")
        return self.cx

    def unit(self, text):
        """One analysed program, module or function."""
        self.evals += 1
        self.units.add(hashlib.sha1(text.encode()).digest())

    # ------------------------------------------------------------ corpora
    def witnesses(self, ds, what="declarations", annotate=True, queries=None, extra=None, twins=False, edition="2021", flags=(), prelude="", floor=0, stem="c", must=True, uses=decl.USES):
        """Compiles declarations as modules and returns [(d, Mod, twin Mod or None)]. A declaration
        that ought to compile and does not is itself reported."""
        cx = self.ctx()
        mods = []
        for i, d in enumerate(ds):
            q = queries(d) if queries else ()
            x = extra(d) if extra else ""
            mods.append(("m%d" % i, decl.module("m%d" % i, d, annotate, q, uses=uses, extra=x)))
            if twins:
                mods.append(("p%d" % i, decl.module("p%d" % i, d, False, q, uses=uses, extra=x) if d.raw_decl is None else "pub mod p%d {}\n" % i))
        # keep twins in the same chunk
        n = max(1, min(build.JOBS, len(ds) // 12))
        step = 2 if twins else 1
        groups = [[] for _ in range(n)]
        for i in range(len(ds)):
            groups[i % n] += mods[step * i: step * i + step]
        res = C.compile_groups(cx, groups, prelude=prelude, edition=edition, flags=flags, stem=stem)
        ix = facts.index(res.chunks)
        src = dict(mods)
        out = []
        nrej = 0
        # the plain declaration of each rejected one: only where that compiles is the rejection of interest
        sus = [i for i, d in enumerate(ds) if "m%d" % i in res.failed and not d.soft and annotate and not twins and must and d.raw_decl is None]
        alone = dict(zip(sus, C.pool(lambda i: C.rustc(cx, C.HEAD + prelude + C.OPEN + decl.module("m%d" % i, ds[i], False, queries(ds[i]) if queries else (), uses=uses) + C.CLOSE, edition=edition, flags=list(flags)), sus[:64])))
        for i, d in enumerate(ds):
            k = "m%d" % i
            if k in res.failed:
                if d.soft or twins and "p%d" % i in res.failed or i in alone and not alone[i].ok:
                    self.rep.count("rejected (allowed)")
                    continue
                nrej += 1
                if must:
                    self.bad("%s/rejected/%s" % (self.prop, d.tag), "a supported declaration does not compile (%s): %s" % (res.failed[k], describe(d)), src[k])
                continue
            m = ix.get(k)
            if m is None:
                raise build.BuildError("no facts for a witness module: " + str(res.failed)[:500])
            m.src = src[k]
            out.append((d, m, ix.get("p%d" % i) if d.raw_decl is None else None))
            self.rep.count(what)
            self.unit(re.sub(r"\b%s\b" % k, "m", m.src))
        if "(whole crate)" in res.failed:
            self.bad("%s/crate" % self.prop, "the witness crate does not compile as a whole: %s" % res.failed["(whole crate)"])
        if len(out) < floor:
            self.bad("%s/floor" % self.prop, "only %d %s could be analysed (at least %d expected)" % (len(out), what, floor))
        return out

    def apply(self, fn, ws, *args):
        """Runs a rule over witnesses, remembering the source of each violation."""
        for d, m, p in ws:
            n = len(self.rep.viol)
            m.twin = p
            fn(d, m, self.rep, *args)
            for key, text in self.rep.viol[n:]:
                self.replays.setdefault(text, m.src)

    # ------------------------------------------------------------ compile witnesses
    def cases(self, cs, what="programs"):
        cx = self.ctx()
        jobs = []
        for c in cs:
            jobs.append((c, c.src, False))
            if c.twin is not None:
                jobs.append((c, c.twin, True))

        def one(j):
            c, src, _ = j
            fl = list(c.flags)
            for e in c.externs:
                fl += self.extern(e)
            return C.rustc(cx, "#![allow(warnings)]\n" + c.attrs + "\n" + src if "allow(warnings)" not in c.attrs and "warnings" not in c.attrs else c.attrs + "\n" + src, edition=c.edition, flags=fl)

        res = C.pool(one, jobs)
        got = {}
        for (c, src, tw), r in zip(jobs, res):
            got[(id(c), tw)] = (r, src)
        for c in cs:
            r, src = got[(id(c), False)]
            self.rep.count(what)
            self.unit(src)
            if ice(r):
                raise build.BuildError("the compiler crashed on a witness: " + r.raw[-800:])
            t = got.get((id(c), True))
            twin_ok = True
            if t is not None:
                self.rep.count("twins")
                if not t[0].ok:
                    twin_ok = False
                    self.bad("%s/%s/twin" % (self.prop, c.key), "a correct program is rejected (%s) %s: %s" % (t[0].text(1), c.why, one_line(t[1])), t[1])
            if c.accept:
                if r.ok:
                    self.rep.count("accepted as required")
                elif not c.soft:
                    self.bad("%s/%s" % (self.prop, c.key), "a program that must be accepted is rejected (%s) %s: %s" % (r.text(1), c.why, one_line(src)), src)
            else:
                if not r.ok:
                    self.rep.count("rejected as required")
                    self.rep.sample({"program": one_line(src)[:400], "verdict": "rejected: " + r.text(1)[:200], "rule": c.why or c.key}, 4)
                elif not c.soft:
                    self.bad("%s/%s" % (self.prop, c.key), "a program that must be rejected is accepted %s: %s" % (c.why, one_line(src)), src)
        return {c.key: got[(id(c), False)][0] for c in cs}

    def extern(self, name):
        from . import aux
        return aux.extern(self.ctx(), name)

    # ------------------------------------------------------------ results
    def bad(self, key, text, src=None):
        self.rep.bad(key, text)
        if src is not None:
            self.replays.setdefault(text, src)

    def finish(self, level, technique):
        known = known_findings(self.prop)
        new, seen = [], {}
        for key, text in self.rep.viol:
            if key in known:
                seen.setdefault(key, text)
            else:
                new.append((key, text))
        os.makedirs(EVID, exist_ok=True)
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.prop + "-"):
                os.remove(os.path.join(rd, f))
        for key, text in sorted(seen.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, known[key]))
        printed = {}
        for i, (key, text) in enumerate(new):
            if printed.get(key, 0) >= 3 or len(printed) >= 25 and key not in printed:
                continue
            printed[key] = printed.get(key, 0) + 1
            p = os.path.join(rd, "%s-%d.txt" % (self.prop, sum(printed.values())))
            with open(p, "w") as f:
                f.write("property %s\nrule key: %s\n%s\n\nRe-run: cd /verif && python3 -m pv.check %s\n" % (self.prop, key, text, self.prop))
                if text in self.replays:
                    f.write("\n---- witness source (compile against /repo's pin-project; see pv/compile.py) ----\n%s\n" % self.replays[text])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  [%s] %s" % (key, text[:1500]))
        n = self.rep.n
        cov = {
            "explanation": technique,
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.units),
            "rule": self.rule + " (evaluations: annotated programs, modules or functions analysed in this run; distinct: by source text; all of them carry at least one obligation)",
            "counts": dict(sorted(n.items())),
            "samples": self.rep.samples[:8],
            "analysed_from": build.REPO,
            "repo_sources_sha256": build.tree_hash(build.repo_sources()),
            "known_findings_seen": sorted(seen),
        }
        ev = {"property": self.prop, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        print("%s: %s; %d violation(s), %d known finding(s); %.1f s" % (self.prop, ", ".join("%s=%d" % kv for kv in sorted(n.items())), len(new), len(seen), time.time() - self.t0))
        return 1 if new else 0


def one_line(s):
    return " ".join(s.split())[:900]


def ice(r):
    return "internal compiler error" in r.raw or "the compiler unexpectedly panicked" in r.raw


def main(argv):
    from . import props
    args = [a for a in argv if not a.startswith("--")]
    thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rc = 0
    ids = args if args != ["all"] else sorted(props.PROPS)
    for pid in ids:
        run = Run(pid, thorough, seed)
        try:
            p = props.PROPS[pid]
            run.rule, run.assumptions = p.rule, list(p.assumptions)
            p.fn(run)
            if thorough and p.deep:
                p.deep(run)
            rc = max(rc, run.finish(p.level, p.technique))
        except build.BuildError as e:
            print("NO ANSWER for %s: %s" % (pid, e))
            rc = 2
        except Exception:
            traceback.print_exc()
            print("NO ANSWER for %s" % pid)
            rc = 2
        finally:
            if run.cx is not None:
                run.cx.close()
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
