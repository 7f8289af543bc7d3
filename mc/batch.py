"""Compile batches of generated modules; map compiler errors back to the module they come from."""
import os
import shutil

import common

FAST = ["-C", "opt-level=0", "-C", "debuginfo=0", "-C", "codegen-units=4", "-C", "overflow-checks=on", "-C", "debug-assertions=on"]


def workdir(prop, tier):
    d = os.path.join(common.BUILD, f"x_{prop}_{tier}_{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def compile_run(d, idx, mods, main_fn, rb, extra=(), run_args=(), opt=FAST, max_rounds=6, timeout=800):
    """mods: list of (name, source, label); main_fn(live module names) -> main.rs source.
    Returns (result lines or None, {label: [messages]} of the modules that did not compile)."""
    dropped = {}
    cd = os.path.join(d, f"b{idx}")
    for _ in range(max_rounds):
        shutil.rmtree(cd, ignore_errors=True)
        os.makedirs(cd)
        live = [m for m in mods if m[2] not in dropped]
        if not live:
            return [], dropped
        for name, src, _l in live:
            with open(os.path.join(cd, name + ".rs"), "w") as fh:
                fh.write(src)
        with open(os.path.join(cd, "main.rs"), "w") as fh:
            fh.write(main_fn([m[0] for m in live]))
        exe = os.path.join(cd, "run")
        rc, out, err = common.sh(common.rustc_args(rb, [*extra, *opt, "--error-format=json", "--crate-name", "mcrun", "-o", exe,
                                                        os.path.join(cd, "main.rs")]), timeout=timeout)
        if rc == 0:
            rf = os.path.join(cd, "result.txt")
            rc, out, err = common.sh([exe, *run_args, rf], timeout=timeout)
            if rc == -999:
                raise common.CheckError("exploration timed out")
            if rc in (-9, -15):
                raise common.CheckError("explorer killed")
            if rc != 0 or not os.path.exists(rf):
                return [f"violation process\x01explorer died with status {rc}: {err[-800:]}".replace("\n", "\x01")], dropped
            with open(rf) as fh:
                return fh.read().splitlines(), dropped
        if rc == -999:
            raise common.CheckError("compilation timed out")
        if any(k in err for k in ("No space left", "out of memory", "SIGKILL")) or rc in (-9, -15):
            raise common.CheckError("compiler killed: " + err[-500:])
        byfile = {m[0] + ".rs": m[2] for m in live}
        hit = {}
        for msg, code, spans, rendered in common.parse_diags(err):
            for n in {os.path.basename(s[0]) for s in spans}:
                if n in byfile:
                    hit.setdefault(byfile[n], []).append(rendered)
        if not hit:
            return [("violation compile\x01the generated code does not compile: " + err[:3000]).replace("\n", "\x01")], dropped
        dropped.update(hit)
    return [], dropped


def merge(res, lines):
    n = 0
    for line in lines:
        k, _, rest = line.partition(" ")
        if k in ("states", "transitions"):
            res.cov[k] += int(rest)
        elif k == "traces":
            res.cov["traces_validated_against_impl"] += int(rest)
        elif k == "layouts":
            n += int(rest)
        elif k == "sample":
            if len(res.cov["samples"]) < 12:
                res.cov["samples"].append(rest[:400])
        elif k == "violation":
            t = rest.replace("\x01", "\n")
            res.violate(t.split("\n", 1)[0], t)
    return n
