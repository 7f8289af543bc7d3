"""Shared plumbing of the checks: building /repo, compiling probes, evidence, findings."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")
TOOLCHAIN = "nightly-2026-02-27"
JOBS = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
DEADLINE = None


class CheckError(Exception):
    """the check could not give an answer (exit 2)"""


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, timeout=800, cwd=None, input=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(), timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", input=input)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -999, "", "timeout"


def repo_sources():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "target")]
        for f in files:
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(base, f))
    return sorted(out)


def repo_hash():
    h = hashlib.sha256()
    for p in repo_sources():
        h.update(p.encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


_REPO_BUILD = {}


def build_repo(key="default", pkg_args=("-p", "bitfields")):
    """cargo build of the crate from /repo's working tree; returns dict(rlib, deps)"""
    if key in _REPO_BUILD:
        return _REPO_BUILD[key]
    tdir = os.path.join(BUILD, "target_" + key)
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, "source.sha256")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        # do not trust mtimes: forget the workspace crates, keep third-party ones
        sh(["cargo", "clean", "--offline", "-p", "bitfields", "-p", "bitfields-impl", "--target-dir", tdir], cwd=REPO)
    if os.path.exists(stamp):
        os.remove(stamp)
    rc, out, err = sh(["cargo", "build", "--offline", *pkg_args, "--target-dir", tdir, "--message-format=json"], cwd=REPO)
    if rc != 0:
        raise CheckError("cargo build of /repo failed:\n" + err[-3000:])
    res = {"deps": os.path.join(tdir, "debug", "deps"), "artifacts": {}}
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m.get("filenames", []):
                if f.endswith((".rlib", ".so")):
                    res["artifacts"].setdefault(m["target"]["name"], f)
    res["rlib"] = res["artifacts"].get("bitfields")
    with open(stamp, "w") as fh:
        fh.write(h)
    _REPO_BUILD[key] = res
    return res


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def build_core(maxb=None):
    src = os.path.join(VERIF, "harness", "core.rs")
    d = os.path.join(BUILD, "core_" + file_hash(src) + (f"_{maxb}" if maxb else ""))
    rlib = os.path.join(d, "libmccore.rlib")
    if not os.path.exists(rlib):
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f"tmp{os.getpid()}")
        os.makedirs(tmp, exist_ok=True)
        rc, _, err = sh([*(["env", f"MCMAXB={maxb}"] if maxb else []), "rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "mccore", "-C", "opt-level=2",
                         "-A", "warnings", "--out-dir", tmp, src])
        if rc != 0:
            raise CheckError("model core does not build:\n" + err[-3000:])
        os.replace(os.path.join(tmp, "libmccore.rlib"), rlib)
        shutil.rmtree(tmp, ignore_errors=True)
    return rlib


def rustc_args(rb, extra=()):
    return ["rustc", "--edition", "2021", "--extern", "bitfields=" + rb["rlib"], "-L", "dependency=" + rb["deps"], *extra]


def parse_diags(stderr):
    """rustc --error-format=json -> list of (message, code, [(file, line, col)...], rendered)"""
    out = []
    for line in stderr.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        spans = []

        def walk(s):
            spans.append((s["file_name"], s["line_start"], s["column_start"], s.get("is_primary")))
            e = s.get("expansion")
            if e:
                walk(e["span"])
        for s in m.get("spans", []):
            walk(s)
        out.append((m.get("message", ""), (m.get("code") or {}).get("code"), spans, m.get("rendered") or m.get("message", "")))
    return out


def pmap(fn, items, jobs=JOBS):
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def balance(items, cost, n):
    """greedy bin packing into n bins"""
    bins = [[0, []] for _ in range(n)]
    for it in sorted(items, key=cost, reverse=True):
        b = min(bins, key=lambda x: x[0])
        b[0] += cost(it)
        b[1].append(it)
    return [b[1] for b in bins if b[1]]


# --------------------------------------------------------------------------- results
class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = []       # (key, text)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.notes = {}

    def violate(self, key, text):
        self.violations.append((key, text))

    def known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = {}
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self):
        known = self.known()
        hit, fresh = set(), []
        for k, t in self.violations:
            if k in known:
                hit.add(k)
            else:
                fresh.append((k, t))
        for k in sorted(hit):
            print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
        cov = dict(self.cov)
        cov["samples"] = cov["samples"][:12]
        cov.update(self.notes)
        if not cov["samples"]:
            cov["samples"] = ["none"]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if fresh:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{self.prop}.txt")
            with open(path, "w") as fh:
                fh.write(f"property {self.prop}\n")
                fh.write(f"rerun: python3 mc/check.py {self.prop} --tier {self.tier}\n\n")
                for k, t in fresh[:1000]:
                    fh.write(f"=== {k}\n{t}\n\n")
            for k, t in fresh[:3]:
                print(f"--- {k}")
                print("\n".join(t.splitlines()[:24]))
            print(f"{len(fresh)} violation(s)")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} states={cov['states']} transitions={cov['transitions']} "
              f"wall={ev['wall_s']}s")
        return 0
