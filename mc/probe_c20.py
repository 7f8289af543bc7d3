"""C20: every selected cargo-feature configuration of the macro crate is built from /repo and its defaults explored."""
import itertools
import os
import re
import shlex
import shutil

import api
import batch
import common
import probe_c19
from layouts import L

# pair name -> (feature of the built-in default direction, the other feature); documentation order
BOOL = {"new": ("generate_new", "disable_new"), "from_into_bits": ("generate_from_into_bits", "disable_from_into_bits"),
        "from_traits": ("generate_from_traits", "disable_from_traits"), "default": ("generate_default", "disable_default"),
        "debug": ("generate_debug", "disable_debug"), "copy": ("derive_copy", "disable_copy"),
        "builder": ("generate_builder", "disable_builder"), "bit_ops": ("generate_bit_ops", "disable_bit_ops"),
        "write_bit_ops": ("generate_write_bit_ops", "disable_write_bit_ops"),
        "clear_bit_ops": ("generate_clear_bit_ops", "disable_clear_bit_ops"),
        "set_get_bit_ops": ("generate_set_get_bit_ops", "disable_set_get_bit_ops"),
        "invert_bit_ops": ("generate_invert_bit_ops", "disable_invert_bit_ops"),
        "toggle_bit_ops": ("generate_toggle_bit_ops", "disable_toggle_bit_ops"),
        "bitflag_copy": ("bitflag_derive_copy", "bitflag_disable_copy")}
SEL = {"order": ("order_lsb", "order_msb"), "from": ("from_endian_big", "from_endian_little"),
       "into": ("into_endian_big", "into_endian_little"), "write": ("write_endian_big", "write_endian_little"),
       "bf_from": ("bitflag_from_endian_big", "bitflag_from_endian_little"),
       "bf_into": ("bitflag_into_endian_big", "bitflag_into_endian_little"),
       "heap": ("disable_array_heap", "enable_array_heap")}
PAIRS = {**BOOL, **SEL}
DEFAULT_SET = frozenset(p[0] for p in PAIRS.values())
OTHER_SET = frozenset(p[1] for p in PAIRS.values())


def resolve(fs):
    """pair -> True when the non-default direction is in force: only if its feature is on and the default one is not"""
    return {k: (b in fs and a not in fs) for k, (a, b) in PAIRS.items()}


def configs(tier):
    seen = set()

    def add(*fs):
        s = frozenset(fs)
        if s not in seen:
            seen.add(s)
            return [s]
        return []
    out = add()
    out += add(*DEFAULT_SET) + add(*OTHER_SET) + add(*DEFAULT_SET, *OTHER_SET)
    for a, b in PAIRS.values():
        out += add(b) + add(a) + add(a, b)
        out += add(*(DEFAULT_SET - {a}), b)          # one default swapped for its opposite
        out += add(*(OTHER_SET - {b}), a)
    for g in api.GROUPS:
        for f in BOOL[g]:
            out += add("disable_bit_ops", f) + add("generate_bit_ops", f)
        out += add("disable_bit_ops", *(BOOL[x][0] for x in api.GROUPS if x != g), BOOL[g][1])
    if tier != "quick":
        for (n1, p1), (n2, p2) in itertools.combinations(PAIRS.items(), 2):
            out += add(p1[1], p2[1])
            out += add(*(DEFAULT_SET - {p1[0], p2[0]}), p1[1], p2[1])
            out += add(p1[0], p1[1], p2[1])
        for n, p in PAIRS.items():
            out += add(*DEFAULT_SET, p[1])
            out += add(*OTHER_SET, p[0])
        # every selection of the bit-operation pairs' opposite features
        for combo in itertools.product((0, 1), repeat=6):
            out += add(*(BOOL[x][c] for x, c in zip(["bit_ops"] + api.GROUPS, combo)))
    return out


# ------------------------------------------------------------------ building the macro crate with a feature set
def base_command():
    """the rustc command line cargo uses for the macro crate"""
    tdir = os.path.join(common.BUILD, "target_feat")
    os.makedirs(tdir, exist_ok=True)
    common.sh(["cargo", "clean", "--offline", "-p", "bitfields-impl", "--target-dir", tdir], cwd=common.REPO)
    rc, out, err = common.sh(["cargo", "build", "-v", "--offline", "-p", "bitfields-impl", "--target-dir", tdir], cwd=common.REPO)
    if rc != 0:
        raise common.CheckError("cargo build of bitfields-impl failed:\n" + err[-3000:])
    for line in err.splitlines():
        m = re.search(r"Running `(.*--crate-name bitfields_impl .*)`", line)
        if m:
            return shlex.split(m.group(1)), os.path.join(tdir, "debug", "deps")
    raise common.CheckError("cannot find the macro crate's build command")


def build_impl(cmd, fs, outdir):
    # leading VAR=value words are environment; the package directory is the working directory of the sources
    words = list(cmd)
    while words and re.match(r"^[A-Z_0-9]+=", words[0]):
        words.pop(0)
    new, i = [], 0
    while i < len(words):
        w = words[i]
        if w == "--cfg" and words[i + 1].startswith("feature="):
            i += 2
            continue
        if w == "--out-dir":
            new += [w, outdir]
            i += 2
            continue
        if w == "-C" and words[i + 1].startswith(("incremental=", "debuginfo=")):
            i += 2
            continue
        if w.startswith(("--error-format", "--json", "--emit")):
            i += 1
            continue
        new.append(w)
        i += 1
    new += ["--emit=link", "-A", "warnings", "-C", "debuginfo=0"]
    for f in sorted(fs):
        new += ["--cfg", f'feature="{f}"']
    rc, out, err = common.sh(new, cwd=common.REPO)
    if rc != 0:
        return None, err
    so = [f for f in os.listdir(outdir) if f.endswith(".so")]
    return os.path.join(outdir, so[0]), ""


# ------------------------------------------------------------------ probes of one configuration
HEAD = ["#![allow(warnings)]", "use bitfields::{bitfield, bitflag};", "use crate::fb::*;",
        "use crate::{sz, Fb, W, W2, NoDefault, NoDebug, NoCopy, NoClone, NoFrom};"]


def presence(st, args, dflt, heap_default, k):
    heap = args.get("array_heap", heap_default) and st.startswith("[")
    flags = {n: v for n, v in args.items() if n != "array_heap"}
    extra = [f"{n} = {str(v).lower()}" for n, v in args.items()]
    r = k % max(1, len(extra))
    lay = L("x", st, probe_c19.fields(), extra=extra[r:] + extra[:r], vis="pub ")
    eff = api.effective(flags, dflt)
    exp, exp_b = api.struct_names(lay.array, lay.fields, eff)
    q = api.trait_asserts(st, heap, eff)
    q.append(f"    const _: () = assert!((::core::mem::size_of::<Bu>() != 977) == {str(eff['builder']).lower()}); // TBuilder")
    size = {"u16": 2}.get(st, 8 if heap else int(st.split(";")[1].strip(" ]")) if st[0] == "[" else 2)
    q.append(f"    const _: () = assert!(::core::mem::size_of::<T>() == {size}); // size of T ({'heap' if heap else 'inline'})")
    q += api.probe_asserts(probe_c19.NAMES, exp, exp_b)
    head = HEAD + [lay.decl(), "pub type Bu = TBuilder;", "pub fn run(out: &mut Vec<String>) -> usize { 0 }"]
    return lay.decl(), "\n".join(head + api.compact(q)), "\n".join(head + q), len(q)


def semantics(st, order, frm, into, write, r):
    """runtime behaviour of order and byte order: explicit values or (None) the ones the features imply"""
    o = order or ("msb" if r["order"] else "lsb")
    lit = {k: {"little": True, "big": False, None: r[k]}[v] for k, v in (("from", frm), ("into", into), ("write", write))}
    args = [st, "from_into_bits = true, from_traits = true, write_bit_ops = true, new = true, default = true, copy = true"]
    for n, v in (("order", order), ("from_endian", frm), ("into_endian", into), ("write_endian", write)):
        if v:
            args.append(f"{n} = {v}")
    decl = (f"#[bitfield({', '.join(args)})]\npub struct T {{ #[bits(4, default = 0x9)] a: u8, #[bits(12)] b: u16 }}")
    off = 0 if o == "lsb" else 12
    u = "bytes" if st[0] == "[" else "bits"
    if u == "bytes":
        lit["write"] = not lit["write"]      # write helpers of byte arrays: big is byte 0 first (least significant)
    c = []

    def eq(e, w, label):
        c.append(f"    n += 1; if !(({e}) == ({w})) {{ out.push(format!(\"{label}: got {{:?}}, expected {{:?}}\", {e}, {w})); }}")
    vals = [0x1234, 0xff00, 0x8001, 0x00a5]
    for v in vals:
        def sw(x, l):
            return ((x & 255) << 8 | x >> 8) if l else x
        # n(v): natural representation of the number v in big-endian reading
        arg = f"{v:#x}u16" if u == "bits" else f"{v:#x}u16.to_be_bytes()"

        def raw(e):
            return f"({e}).into_be_bits()" if u == "bits" else f"u16::from_be_bytes(({e}).into_be_bytes())"

        def num(e):
            return f"({e})" if u == "bits" else f"u16::from_be_bytes({e})"
        dfl = lambda x: (x & ~(0xF << off) & 0xffff) | (9 << off)
        be = f"from_be_{u}({arg})"
        eq(raw(f"T::from_{u}({arg})"), f"{sw(v, lit['from']):#x}u16", f"from_{u}")
        eq(raw(f"T::from_{u}_with_defaults({arg})"), f"{dfl(sw(v, lit['from'])):#x}u16", f"from_{u}_with_defaults")
        eq(raw(f"<T as From<_>>::from({arg})"), f"{sw(v, lit['from']):#x}u16", "From")
        eq(num(f"T::{be}.into_{u}()"), f"{sw(v, lit['into']):#x}u16", f"into_{u}")
        nat = "u16" if u == "bits" else "[u8; 2]"
        eq(num(f"<{nat} as From<T>>::from(T::{be})"), f"{sw(v, lit['into']):#x}u16", "Into")
        eq(raw(f"{{ let mut t = T::from_be_{u}({'0' if u == 'bits' else '[0; 2]'}); t.write_{u}({arg}); t }}"), f"{sw(v, lit['write']):#x}u16", f"write_{u}")
        eq(raw(f"{{ let mut t = T::from_be_{u}({'0' if u == 'bits' else '[0; 2]'}); t.write_{u}_with_defaults({arg}); t }}"), f"{dfl(sw(v, lit['write'])):#x}u16", f"write_{u}_with_defaults")
        if u == "bytes":
            eq(raw(f"T::from_slice(&{arg})"), f"{sw(v, lit['from']):#x}u16", "from_slice")
            eq(num(f"{{ let mut o = [0u8; 2]; T::{be}.into_slice(&mut o); o }}"), f"{sw(v, lit['into']):#x}u16", "into_slice")
        eq(f"T::{be}.a() as u16", f"{(v >> off) & 15:#x}u16", "a()")
    eq("T::A_OFFSET as u32", f"{off}u32", "A_OFFSET")
    eq("T::B_OFFSET as u32", f"{0 if o == 'msb' else 4}u32", "B_OFFSET")
    d = f"{9 << off:#x}u16"
    eq((f"T::new().into_be_bits()" if u == "bits" else "u16::from_be_bytes(T::new().into_be_bytes())"), d, "new")
    return decl, "\n".join(HEAD + [decl, "pub fn run(out: &mut Vec<String>) -> usize {", "    let mut n = 0;"] + c + ["    n", "}"])


def flag_mod(frm, into, copy, r):
    lit = {k: {"little": True, "big": False, None: r[n]}[v] for k, n, v in (("from", "bf_from", frm), ("into", "bf_into", into))}
    has_copy = (not r["bitflag_copy"]) if copy is None else copy
    args = ["u16"] + [f"{n} = {v}" for n, v in (("from_endian", frm), ("into_endian", into)) if v]
    if copy is not None:
        args.append(f"copy = {str(copy).lower()}")
    decl = (f"#[bitflag({', '.join(args)})]\n#[derive(Debug, PartialEq)]\npub enum T {{ #[base] A = 0x0001, B = 0x0102, C = 0x0201, D = 0x8000, E = 0x0080 }}")
    c = [f"    const _: () = assert!(<W<T>>::HAS_COPY == {str(has_copy).lower()}); // impl Copy",
         f"    const _: () = assert!(<W<T>>::HAS_CLONE == {str(has_copy).lower()}); // impl Clone",
         "pub fn run(out: &mut Vec<String>) -> usize {", "    let mut n = 0;"]
    vs = {"A": 0x0001, "B": 0x0102, "C": 0x0201, "D": 0x8000, "E": 0x0080}

    def sw(x, l):
        return ((x & 255) << 8 | x >> 8) if l else x
    inv = {v: k for k, v in vs.items()}
    for x in (0, 1, 0x100, 0x102, 0x201, 0x8000, 0x80, 0xffff):
        w = inv.get(sw(x, lit["from"]), "A")
        c.append(f"    n += 1; if T::from_bits({x}) != T::{w} {{ out.push(format!(\"from_bits({x:#x}) is {{:?}}, expected {w}\", T::from_bits({x}))); }}")
    for k, v in vs.items():
        c.append(f"    n += 1; if T::{k}.into_bits() != {sw(v, lit['into'])} {{ out.push(format!(\"{k}.into_bits() is {{:#x}}, expected {sw(v, lit['into']):#x}\", T::{k}.into_bits())); }}")
    return decl, "\n".join(HEAD + [decl] + c + ["    n", "}"])


def modules(fs, tier):
    r = resolve(fs)
    dflt = {n: not r[n] for n in BOOL if n != "bitflag_copy"}
    out = []       # (label, source, decl, detail, queries)
    k = 0

    def pres(st, args):
        nonlocal k
        k += 1
        decl, src, det, nq = presence(st, args, dflt, r["heap"], k)
        out.append((f"presence_{'arr' if st[0] == '[' else 'int'}_" + ",".join(f"{a}={str(v)[0]}" for a, v in args.items()), src, decl, det, nq))
    # what this configuration is about: its features, or where it departs from the default / opposite set
    everything = fs in (DEFAULT_SET, OTHER_SET, DEFAULT_SET | OTHER_SET)
    if len(fs) > 6 and not everything:
        fs = min(fs ^ DEFAULT_SET, fs ^ OTHER_SET, key=len)
    sel_touched = any(fs & set(SEL[n]) or fs & set(BOOL["bitflag_copy"]) for n in SEL)
    bool_touched = any(fs & set(BOOL[n]) for n in dflt)
    full = tier != "quick"
    for st in ("u16", "[u8; 2]"):
        pres(st, {})
        if bool_touched or full:
            pres(st, {n: not dflt[n] for n in dflt})
            pres(st, {n: dflt[n] for n in dflt})
    touched = [n for n in dflt if fs & set(PAIRS[n])]
    single = list(dflt) if (everything or full) else touched
    for i, n in enumerate(single):
        pres("u16" if i % 2 else "[u8; 2]", {n: not dflt[n]})
        pres("[u8; 2]" if i % 2 else "u16", {n: dflt[n]})
    for v in (True, False):
        if full or sel_touched:
            pres("[u8; 2]", {"array_heap": v})
        if full or fs & set(SEL["heap"]):
            pres("u16", {"array_heap": v})
    for st in ("u16", "[u8; 2]"):
        for o, f, i, w in ((None, None, None, None), ("lsb", None, None, None), ("msb", None, None, None), (None, "little", None, None),
                           (None, "big", None, None), (None, None, "little", None), (None, None, "big", None),
                           (None, None, None, "little"), (None, None, None, "big"), ("msb", "little", "little", "little"),
                           ("lsb", "big", "big", "big")):
            if not full and not sel_touched and (o, f) not in ((None, None), ("msb", "little"), ("lsb", "big")) or (not full and not sel_touched and (i is None) != (w is None)):
                continue
            decl, src = semantics(st, o, f, i, w, r)
            out.append((f"semantics_{'arr' if st[0] == '[' else 'int'}_{o}_{f}_{i}_{w}", src, decl, None, 0))
    for f, i in itertools.product((None, "little", "big"), repeat=2):
        if not full and not sel_touched and f != i:
            continue
        decl, src = flag_mod(f, i, None, r)
        out.append((f"bitflag_{f}_{i}", src, decl, None, 2))
    for c in (True, False):
        decl, src = flag_mod(None, None, c, r)
        out.append((f"bitflag_copy_{c}", src, decl, None, 2))
    return out


def main_src(mods):
    return ("#![allow(warnings)]\n" + api.fallback_trait(probe_c19.NAMES) + "\n" + "\n".join(f"pub mod {m};" for m in mods) +
            "\nfn main() { let f = std::env::args().last().unwrap(); let mut s = String::new(); let mut n = 0usize;\n" +
            "\n".join(f"  {{ let mut v = Vec::new(); n += {m}::run(&mut v); for x in v {{ s += &format!(\"bad {m} {{}}\\n\", x); }} }}" for m in mods) +
            "\n  s += &format!(\"transitions {n}\\n\"); std::fs::write(f, s).unwrap(); }\n")


def run(tier, res, args):
    cmd, deps = base_command()
    cfgs = configs(tier)
    nquick = len(configs("quick"))
    d = batch.workdir("C20", tier)
    total = {"mods": 0, "q": 0}
    try:
        def go(ic):
            i, fs = ic
            label = "+".join(sorted(fs)) or "none"
            if fs == DEFAULT_SET:
                label = "default"
            elif len(fs) > 6:
                base = DEFAULT_SET if len(fs & DEFAULT_SET) > len(fs & OTHER_SET) else OTHER_SET
                label = ("default" if base is DEFAULT_SET else "opposite") + "".join("-" + x for x in sorted(base - fs)) + "".join("+" + x for x in sorted(fs - base))
                if len(label) > 160:
                    label = f"all{len(fs)}"
            if args.only and args.only not in label:
                return None
            cd = os.path.join(d, f"impl{i}")
            os.makedirs(cd)
            so, err = build_impl(cmd, fs, cd)
            if not so:
                return label, [], 0, [(f"{label}:build", f"the macro crate does not build with features {sorted(fs)}:\n{err[:2000]}")], 0
            rb = {"rlib": so, "deps": deps}
            ms = modules(fs, tier if i < nquick else "quick")
            mods = [(f"m{k}", m[1], k) for k, m in enumerate(ms)]
            lines, dropped = batch.compile_run(d, i, mods, main_src, rb)
            viol = []
            if dropped:
                det = [(f"m{k}", ms[k][3] or ms[k][1], k) for k in dropped]
                _, dr2 = batch.compile_run(d, f"{i}r", det, main_src, rb)
                for k in dropped:
                    msg = "\n".join((dr2.get(k) or dropped[k])[:4])
                    viol.append((f"{label}:{ms[k][0]}", f"features: {sorted(fs)}\n--- declaration\n{ms[k][2]}\n--- the defaults implied by the features are not in force:\n{msg[:2500]}"))
            nt = 0
            for line in lines:
                if line.startswith("bad "):
                    _, m, text = line.split(" ", 2)
                    k = int(m[1:])
                    viol.append((f"{label}:{ms[k][0]}:{text.split(':')[0]}", f"features: {sorted(fs)}\n--- declaration\n{ms[k][2]}\n--- {text}"))
                elif line.startswith("transitions "):
                    nt += int(line.split()[1])
                elif line.startswith("violation "):
                    viol.append((f"{label}:process", line.replace("\x01", "\n")))
            shutil.rmtree(cd, ignore_errors=True)
            shutil.rmtree(os.path.join(d, f"b{i}"), ignore_errors=True)
            return label, ms, nt + sum(m[4] for m in ms), viol, len(ms)
        for r in common.pmap(go, list(enumerate(cfgs))):
            if r is None:
                continue
            label, ms, nq, viol, nm = r
            res.cov["states"] += nm
            res.cov["transitions"] += nq
            res.cov["traces_validated_against_impl"] += nm
            if len(res.cov["samples"]) < 12:
                res.cov["samples"].append(f"features {label}: {nm} declarations, {nq} queries")
            for k, t in viol:
                res.violate(k, t)
        facade(res, d)
    finally:
        if not args.keep:
            shutil.rmtree(d, ignore_errors=True)
    res.notes.update(feature_configurations=len(cfgs), exhaustive=True,
                     bounds="no feature, default set, opposite set, each feature alone, each contradictory pair, each default swapped for its opposite, "
                            "bit_ops x each group" + ("; all pairs of opposite features, all 2^6 bit-operation selections" if tier != "quick" else ""))
    res.assumptions.append("features are selected on the macro crate bitfields-impl with the rustc command line cargo prints")


def facade(res, d):
    """the same features selected on the crate users depend on, `bitfields`"""
    tdir = os.path.join(common.BUILD, "target_feat")
    rc, out, err = common.sh(["cargo", "build", "--offline", "-p", "bitfields", "--no-default-features", "--features", "order_msb,disable_new",
                              "--target-dir", tdir, "--message-format=json"], cwd=common.REPO)
    if rc != 0:
        raise common.CheckError("cargo build of bitfields with features failed:\n" + err[-2000:])
    m = re.findall(r'"([^"]*/libbitfields-[0-9a-f]+\.rlib|[^"]*/libbitfields\.rlib)"', out)
    src = os.path.join(d, "facade.rs")
    with open(src, "w") as fh:
        fh.write("#![allow(warnings)]\nuse bitfields::bitfield;\n#[bitfield(u8)]\npub struct T { #[bits(4)] a: u8, #[bits(4)] b: u8 }\n"
                 "pub trait Fb { const new: u8 = 0; } impl Fb for T {}\n"
                 "const fn sz<F>(_: &F) -> usize { ::core::mem::size_of::<F>() }\n"
                 "const _: () = assert!(T::A_OFFSET == 4);\nconst _: () = assert!(sz(&T::new) == 1);\n")
    rc, o, e = common.sh(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--crate-name", "facade", "--out-dir", d,
                          "--extern", "bitfields=" + m[-1], "-L", "dependency=" + os.path.join(tdir, "debug", "deps"), src])
    res.cov["states"] += 1
    res.cov["transitions"] += 2
    if rc != 0:
        res.violate("bitfields-crate-features", "cargo features selected on the `bitfields` crate do not reach the macro crate:\n" + e[:1500])
