"""Builds the fact extractor and the crates under analysis, from /repo's current working tree.

Everything goes to /verif/.build (ignored by git). A content hash of the sources decides whether
anything must be rebuilt, so a change in /repo is always seen, whatever its time stamps are.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
OUT = os.environ.get("PV_BUILD", os.path.join(VERIF, ".build"))
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTC", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "PPF_CRATES", "PPF_OUT", "PPF_FULL"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    return env


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def repo_sources():
    """Source files of the two crates (what cargo compiles), plus their manifests."""
    out = []
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "pin-project-internal")):
        for d, ds, fs in os.walk(root):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            out += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml", ".md", ".lock"))]
    for f in ("Cargo.toml", "build.rs", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


_sysroot = {}


def sysroot(tc="nightly"):
    if tc not in _sysroot:
        r = run(["rustc", "+" + tc, "--print", "sysroot"], env=base_env())
        if r.returncode:
            raise BuildError("no %s toolchain: %s" % (tc, r.stderr))
        _sysroot[tc] = r.stdout.strip()
    return _sysroot[tc]


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return None


def _write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + ".tmp%d" % os.getpid(), "w") as f:
        f.write(s)
    os.replace(p + ".tmp%d" % os.getpid(), p)


def driver():
    """Path of the built fact extractor."""
    src = os.path.join(VERIF, "driver")
    files = [os.path.join(src, "Cargo.toml"), os.path.join(src, "Cargo.lock")] + glob.glob(os.path.join(src, "src", "*.rs"))
    key = tree_hash(files) + sysroot()
    exe = os.path.join(OUT, "driver", "debug", "ppfacts")
    stamp = os.path.join(OUT, "driver.stamp")
    if _read(stamp) == key and os.path.exists(exe):
        return exe
    env = base_env()
    env["PPF_SYSROOT"] = sysroot()
    env["RUSTFLAGS"] = "-Clink-arg=-Wl,-rpath,%s/lib" % sysroot()
    r = run(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path", os.path.join(src, "Cargo.toml"), "--target-dir", os.path.join(OUT, "driver")], env=env)
    if r.returncode:
        raise BuildError("building the fact extractor failed:\n" + r.stderr)
    _write(stamp, key)
    return exe


class Deps:
    def __init__(self, tc, dir_, facts):
        self.tc = tc
        self.dir = dir_
        self.facts_dir = facts
        r = glob.glob(os.path.join(dir_, "debug", "**", "libpin_project-*.rmeta"), recursive=True)
        so = glob.glob(os.path.join(dir_, "debug", "**", "libpin_project_internal-*.so"), recursive=True)
        if not r or not so:
            raise BuildError("pin_project was not built")
        self.rmeta = max(r, key=os.path.getmtime)
        self.so = max(so, key=os.path.getmtime)
        self.libdirs = sorted({os.path.dirname(self.rmeta), os.path.dirname(self.so)})

    def flags(self):
        out = []
        for d in self.libdirs:
            out += ["-L", "dependency=" + d]
        return out + ["--extern", "pin_project=" + self.rmeta]

    def facts(self, crate):
        p = os.path.join(self.facts_dir, crate + ".json")
        if not os.path.exists(p):
            raise BuildError("no facts for " + crate)
        with open(p) as f:
            from . import facts
            return facts.load(f)


def deps(tc="nightly"):
    """Builds pin-project and pin-project-internal with the given toolchain; on nightly through the
    fact extractor, which also writes the facts about both crates."""
    drv = driver() if tc == "nightly" else None
    tdir = os.path.join(OUT, "deps-" + tc)
    facts = os.path.join(OUT, "facts-" + tc)
    srcs = repo_sources()
    h = os.path.join(VERIF, "harness", "deps")
    key = tree_hash(srcs + [os.path.join(h, "Cargo.toml"), os.path.join(h, "Cargo.lock"), os.path.join(h, "src", "lib.rs")]) + sysroot(tc) + (_read(os.path.join(OUT, "driver.stamp")) or "")
    stamp = os.path.join(OUT, "deps-%s.stamp" % tc)
    if _read(stamp) == key:
        return Deps(tc, tdir, facts)
    if os.path.exists(stamp):
        os.remove(stamp)
    work = os.path.join(OUT, "harness-" + tc)
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(h, work)
    if REPO != "/repo":
        p = os.path.join(work, "Cargo.toml")
        s = _read(p).replace('"/repo"', '"%s"' % REPO)
        _write(p, s)
    d = os.path.join(tdir, "debug")
    for pat in ("deps/*pin_project*", "deps/*pv_deps*", "build/pin-project*", "build/pv-deps*", ".fingerprint/pin-project*", ".fingerprint/pv-deps*", "libpv_deps*"):
        for p in glob.glob(os.path.join(d, pat)):
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.remove(p)
    shutil.rmtree(facts, ignore_errors=True)
    os.makedirs(facts)
    env = base_env()
    if drv:
        env["RUSTC_WRAPPER"] = drv
        env["PPF_CRATES"] = "pin_project,pin_project_internal"
        env["PPF_OUT"] = facts
        env["PPF_FULL"] = "1"
    r = run(["cargo", "+" + tc, "build", "--offline", "--quiet", "--manifest-path", os.path.join(work, "Cargo.toml"), "--target-dir", tdir], env=env)
    if r.returncode:
        raise BuildError("building pin-project from %s failed (%s):\n%s" % (REPO, tc, r.stderr))
    _write(stamp, key)
    return Deps(tc, tdir, facts)


if __name__ == "__main__":
    with Lock():
        try:
            dd = deps("nightly")
            print(dd.rmeta)
        except BuildError as e:
            print(e)
            sys.exit(1)
