"""Compile batches of probe modules and report assertions that the compiler finds false."""
import os
import shutil

import batch
import common


def check_batches(prop, tier, res, args, items, nb, fallback, rb, what, outside=None):
    """items: list of (label, source, decl, detailed source). Every module must compile with all its assertions
    true; a module that does not is compiled again with one assertion per line to say what differs."""
    d = batch.workdir(prop, tier)
    bins = [items[i::nb] for i in range(nb)]
    try:
        def go(ib):
            v = one(ib)
            bad = {x[0] for x in v}
            if not bad:
                return v
            again = [x for x in ib[1] if x[0] in bad][:40]
            again = [(l, det(f"m{k}") if callable(det) else det, decl, None) for k, (l, src, decl, det) in enumerate(again)]
            return (one((f"{ib[0]}r", again)) or v) if again else v

        def one(ib):
            i, b = ib
            cd = os.path.join(d, f"b{i}")
            os.makedirs(cd)
            by = {}
            for k, (label, src, decl, _det) in enumerate(b):
                by[f"m{k}.rs"] = (label, src, decl)
                with open(os.path.join(cd, f"m{k}.rs"), "w") as fh:
                    fh.write(src)
            with open(os.path.join(cd, "lib.rs"), "w") as fh:
                fh.write("#![allow(warnings)]\n" + fallback + "\n" + "\n".join(f"pub mod m{k};" for k in range(len(b))))
            rc, out, err = common.sh(common.rustc_args(rb, ["--error-format=json", "--crate-type", "lib", "--emit=metadata", "--crate-name", "probe",
                                                            "--out-dir", cd, os.path.join(cd, "lib.rs")]), timeout=820)
            if rc == 0 and outside:
                # a second crate looks at the same declarations from outside
                for k, it in enumerate(b):
                    by[f"o{k}.rs"] = (it[0], outside(it, f"probe::m{k}", str(i).endswith("r")), it[2])
                    with open(os.path.join(cd, f"o{k}.rs"), "w") as fh:
                        fh.write(by[f"o{k}.rs"][1])
                with open(os.path.join(cd, "ext.rs"), "w") as fh:
                    fh.write("#![allow(warnings)]\n" + "\n".join(f"pub mod o{k};" for k in range(len(b))))
                rc, out, err = common.sh(common.rustc_args(rb, ["--error-format=json", "--crate-type", "lib", "--emit=metadata", "--crate-name", "ext",
                                                                "--extern", "probe=" + os.path.join(cd, "libprobe.rmeta"),
                                                                "--out-dir", cd, os.path.join(cd, "ext.rs")]), timeout=820)
            shutil.rmtree(cd, ignore_errors=True)
            if rc == 0:
                return []
            if rc in (-9, -15, -999):
                raise common.CheckError("compiler ended by signal or timeout")
            v = []
            diags = common.parse_diags(err)
            for msg, code, spans, rendered in diags:
                hit = False
                for fn, line, col, prim in spans:
                    f = os.path.basename(fn)
                    if f in by and (prim or code != "E0080"):
                        label, src, decl = by[f]
                        text = src.splitlines()[line - 1] if 0 < line <= len(src.splitlines()) else ""
                        v.append((label, text.strip(), decl, rendered))
                        hit = True
                        break
                if not hit and "aborting due to" not in msg and "previous error" not in msg:
                    v.append(("batch", msg, "", rendered))
            if not v:
                raise common.CheckError("compiler failed: " + err[-1500:])
            return v
        for v in common.pmap(go, [(i, b) for i, b in enumerate(bins) if b]):
            for label, text, decl, rendered in v:
                exp = text.split("// ", 1)[1] if "// " in text else ""
                key = f"{label}:{exp.replace(' ', '_')}" if exp else f"{label}:compile"
                res.violate(key, f"{what}\n--- declaration\n{decl}\n--- expected: {exp or 'compiles'}\n{rendered[:1500]}")
    finally:
        if not args.keep:
            shutil.rmtree(d, ignore_errors=True)
