"""State-space exploration of generated types against the reference model."""
import os
import re
import shutil
import subprocess
import threading

import common
import emit
import layouts

OPT = ["-C", "opt-level=1", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "codegen-units=4", "-C", "debuginfo=0"]


def cost(l):
    n = sum(3 if f.kind == "A" else 2 if f.kind in "CL" else 1 for f in l.fields)
    c = (4 + n) * (3 if l.array else 1)
    if l.bits > 64:
        c *= 2
    return c


class Chunk:
    def __init__(self, prop, idx, items, pairs, workdir, tier):
        self.prop, self.idx, self.items, self.pairs, self.tier = prop, idx, items, pairs, tier
        self.dir = os.path.join(workdir, f"c{idx}")
        self.modes = {l.name: "raw" for l in items}
        self.dropped = {}
        self.viol = []
        self.lines = []

    def write(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        kinds = emit.KINDS[self.prop]
        self.mods = []
        self.modmap = {}
        live = [l for l in self.items if l.name not in self.dropped]
        # C15: whole-value writes and slices are only compared between arrays
        arr = {l.name for l in live if l.array}
        wide = {x for a, b in self.pairs if a in arr and b in arr for x in (a, b)}
        for i, l in enumerate(live):
            m = f"m{i}"
            self.mods.append(m)
            self.modmap[m + ".rs"] = l
            with open(os.path.join(self.dir, m + ".rs"), "w") as fh:
                fh.write(emit.emit_layout(l, [k for k in kinds if not self.pairs or l.name in wide or k not in emit.ARRAY_PAIR_ONLY], self.modes[l.name]))
        pos = {l.name: i for i, l in enumerate(live)}
        pairs = [(pos[a], pos[b]) for a, b in self.pairs if a in pos and b in pos]
        main = emit.emit_main(self.mods, pairs).replace("PRELUDE", os.path.join(common.VERIF, "harness", "prelude.rs"))
        with open(os.path.join(self.dir, "main.rs"), "w") as fh:
            fh.write(main)
        return bool(live)

    def compile(self, rb, core):
        exe = os.path.join(self.dir, "run")
        for _ in range(5):
            if not self.write():
                return None
            rc, out, err = common.sh(common.rustc_args(rb, ["--extern", "mccore=" + core, *OPT, "--error-format=json", "--crate-name", "mcrun",
                                                            "-o", exe, os.path.join(self.dir, "main.rs")]), timeout=820)
            if rc == 0:
                return exe
            if rc == -999:
                raise common.CheckError("compilation timed out")
            diags = common.parse_diags(err)
            hit = {}
            other = []
            for msg, code, spans, rendered in diags:
                names = {os.path.basename(s[0]) for s in spans}
                mods = [self.modmap[n] for n in names if n in self.modmap]
                if not mods:
                    other.append(rendered)
                for l in mods:
                    hit.setdefault(l.name, []).append(rendered)
            if not hit:
                if any("prelude.rs" in o for o in other):
                    self.viol.append(("compile:prelude", "a valid bitflag/bitfield declaration of the catalogue prelude is rejected:\n" + "\n".join(other)[:3000]))
                    return None
                if any(k in err for k in ("No space left", "out of memory", "signal: 9", "SIGKILL")):
                    raise common.CheckError("compiler killed: " + err[-500:])
                self.viol.append(("compile:chunk", "explorer does not compile against the generated API:\n" + ("\n".join(other) or err)[:3000]))
                return None
            for name, msgs in hit.items():
                l = next(x for x in self.items if x.name == name)
                if self.modes[name] == "raw" and not any(t == "String" for _, _, t in l.ignored):
                    self.modes[name] = "api"
                    continue
                self.dropped[name] = msgs
                self.viol.append((f"compile:{name}", f"valid declaration is rejected or lost part of its documented API\n--- declaration\n{l.decl()}\n--- compiler\n" + "\n".join(msgs)[:3000]))
        return None

    def execute(self, exe, only=None, limit=820):
        rf = os.path.join(self.dir, "result.txt")
        cmd = [exe, self.prop, "1" if self.tier == "thorough" else "0", rf] + ([only] if only else [])
        rc, out, err = common.sh(cmd, timeout=limit)
        if rc == -999:
            raise common.CheckError("exploration timed out")
        if rc != 0 or not os.path.exists(rf):
            if rc in (-9, -15):
                raise common.CheckError(f"explorer ended by signal {-rc}")
            self.viol.append(("crash", f"explorer process died with status {rc}: {out[-500:]} {err[-1500:]}"))
            return
        with open(rf) as fh:
            self.lines = fh.read().splitlines()


def scan_unsafe(c, rb):
    """C26: the code the macros generate for every declaration of the chunk contains no unsafe"""
    src = os.path.join(c.dir, "decls.rs")
    live = [l for l in c.items if l.name not in c.dropped]
    with open(src, "w") as fh:
        fh.write(f'#![allow(warnings)]\n#[path = "{os.path.join(common.VERIF, "harness", "prelude.rs")}"] mod prelude;\n')
        for i, l in enumerate(live):
            fh.write(f"pub mod m{i}_ {{\nuse crate::prelude::*;\nuse bitfields::{{bitfield, bitflag}};\n{l.decl()}\n}}\n")
    rc, out, err = common.sh(common.rustc_args(rb, ["--extern", "mccore=" + c.core, "-Zunpretty=expanded", "--crate-type", "lib", "--crate-name", "decls", src]), timeout=820)
    if rc != 0:
        raise common.CheckError("expansion failed: " + err[-1500:])
    c.scanned = 0
    cur = None
    for line in out.splitlines():
        line = line.strip()
        if line.startswith(("///", "//", "#[doc", "/*", "*")):
            continue
        line = re.sub(r'"(?:\\.|[^"\\])*"', '""', line)
        m = re.search(r"\bmod m(\d+)_ ", line)
        if m:
            cur = live[int(m.group(1))]
            c.scanned += 1
        if re.search(r"\bunsafe\b", line) and "::core::clone::TrivialClone" not in line:  # the latter is what rustc derives for Clone
            c.viol.append((f"unsafe:{cur.name if cur else 'prelude'}", f"generated code contains unsafe: {line.strip()}\n--- declaration\n{cur.decl() if cur else ''}"))
            if len(c.viol) > 20:
                break
    if not c.viol and c.scanned != len(live):
        raise common.CheckError(f"expansion lost declarations: {c.scanned} of {len(live)}")


def run(prop, tier, res, args):
    if prop == "C15":
        pl = layouts.select_pairs(tier)
        groups = [(a, b) for a, b in pl]
        if args.only:
            groups = [g for g in groups if args.only in (g[0].name, g[1].name)]
        bins = common.balance(groups, lambda g: cost(g[0]) + cost(g[1]), 8)
        chunks_in = [([x for g in b for x in g], [(g[0].name, g[1].name) for g in b]) for b in bins]
    else:
        ls = layouts.select(prop, tier)
        names = [l.name for l in ls]
        assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
        if args.only:
            ls = [l for l in ls if args.only in l.name]
        nb = 8 if tier == "quick" else 8 * max(1, len(ls) // 300 + 1)
        chunks_in = [(b, []) for b in common.balance([l for l in ls if not capacity(l)], cost, nb)]
        for cap in (layouts.HUGE, layouts.FAR):
            big = [l for l in ls if capacity(l) == cap]
            chunks_in = ([(big, [])] if big else []) + chunks_in
    work = os.path.join(common.BUILD, f"x_{prop}_{tier}_{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        got = {}

        def b1():
            try:
                got["rb"] = common.build_repo()
            except BaseException as e:
                got["err"] = e

        def b2():
            try:
                got["core"] = common.build_core()
                for cap in {capacity(l) for it, _ in chunks_in for l in it} - {0}:
                    got[cap] = common.build_core(cap)
            except BaseException as e:
                got["err"] = e
        ts = [threading.Thread(target=t) for t in (b1, b2)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if "err" in got:
            raise got["err"]
        chunks = [Chunk(prop, i, it, pr, work, tier) for i, (it, pr) in enumerate(chunks_in)]

        def go(c):
            import time
            t0 = time.time()
            core = got[max(map(capacity, c.items)) or "core"]
            exe = c.compile(got["rb"], core)
            t1 = time.time()
            if exe:
                c.execute(exe)
            if prop == "C26":
                c.core = core
                scan_unsafe(c, got["rb"])
            c.times = (t1 - t0, time.time() - t1)
        common.pmap(go, chunks)
        if args.keep:
            print("kept", work)
    finally:
        if not args.keep:
            shutil.rmtree(work, ignore_errors=True)
    merge(res, chunks)


def capacity(l):
    """bytes a bit vector must hold for this declaration, 0 for the usual build"""
    return layouts.FAR if "far" in l.tags else layouts.HUGE if "huge" in l.tags else 0


def merge(res, chunks):
    cov = res.cov
    nl = outc = 0
    for c in chunks:
        for v in c.viol:
            res.violate(*v)
        for line in c.lines:
            k, _, rest = line.partition(" ")
            if k == "layouts":
                nl += int(rest)
            elif k == "states":
                cov["states"] += int(rest)
            elif k == "transitions":
                cov["transitions"] += int(rest)
            elif k == "traces":
                cov["traces_validated_against_impl"] += int(rest)
            elif k == "outcomes":
                outc += int(rest)
            elif k == "sample":
                if sum(s.startswith(f"[{c.idx}]") for s in cov["samples"]) < 2:
                    cov["samples"].append(f"[{c.idx}] {rest}"[:400])
            elif k == "violation":
                t = rest.replace("\x01", "\n")
                name = t.split("\n", 1)[0].replace("layout ", "")
                op = [x for x in t.splitlines() if x.startswith("operation:")]
                key = name + (":" + op[0].split()[1] if op else "")
                res.violate(key, t)
    # traces: distinct (declaration, operation with arguments) model traces and BFS histories replayed on the real
    # code; transitions: those steps taken from every state of the state set
    res.notes["declarations_explored"] = nl
    res.notes["distinct_outcome_classes"] = outc
    res.notes["compile_s_max"] = round(max(c.times[0] for c in chunks), 1)
    res.notes["explore_s_max"] = round(max(c.times[1] for c in chunks), 1)
    res.notes["exhaustive"] = True
    res.notes["bounds"] = ("all 2^8 states for 8-bit storage (2^16 for 16-bit storage in the thorough tier), boundary alphabet "
                           "(single bits, field masks, patterns and complements) for wider storage; all values of 8-bit argument types, "
                           "boundary values for wider ones; every declaration of the enumerated catalogue families")
    res.assumptions.append("the enumerated declarations and boundary alphabets stand for wider storage; rustc is trusted")
