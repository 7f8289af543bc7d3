"""C25: model traces over the generated API evaluated by the compiler's const evaluator and at run time, in a no_std crate."""
import os
import shutil

import api
import batch
import common
import layouts
from layouts import CUSTOM, F, INTS, L

ON = {k: True for k in api.MAIN + api.GROUPS}
UINT = {8: "u8", 16: "u16", 32: "u32", 64: "u64", 128: "u128"}

HELP = """
pub const fn arr<const N: usize>(v: u128) -> [u8; N] {
    let mut o = [0u8; N];
    let mut i = 0;
    while i < N { o[i] = if i % 17 == 16 { 0x5A } else { (v >> (8 * (i % 16) as u32)) as u8 }; i += 1; }
    o
}
pub const fn h(a: u64, x: u128) -> u64 {
    let mut a = a ^ (x as u64) ^ ((x >> 64) as u64).rotate_left(17);
    a = a.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    a ^ (a >> 29)
}
pub const fn hb(mut a: u64, b: &[u8]) -> u64 { let mut i = 0; while i < b.len() { a = a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (b[i] as u64 + 1); i += 1; } a }
pub const S: [u128; 5] = [0, u128::MAX, 0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210, 0xA5A5_A5A5_A5A5_A5A5_5A5A_5A5A_5A5A_5A5A, 0x8000_0000_0000_0001_8000_0000_8000_8081];
"""


def arg(f, e):
    if f.kind == "B":
        return f"({e} & 1 == 1)"
    if f.kind == "A":
        return f"arr::<{f.tyb // 8}>({e})"
    if f.ty in CUSTOM:
        return f"<{f.ty}>::from_bits({e} as {UINT[f.tyb]})"
    return f"({e} as {f.ty})"


def ret(f, e):
    if f.kind == "A":
        return f"hb(7, &({e}))"
    if f.ty in CUSTOM:
        return f"h(7, ({e}).into_bits() as u128)"
    return f"h(7, ({e}) as u128)"


def emit(l):
    """source of one declaration with its trace function"""
    o = ["use bitfields::{bitfield, bitflag};", "use crate::prelude::*;", "use crate::*;", "pub const C8: u8 = 0x9C;", l.decl()]
    u = "bytes" if l.array else "bits"
    n = l.nbytes
    mkv = (lambda e: f"arr::<{n}>({e})") if l.array else (lambda e: f"({e} as {l.backing})")
    obs = (lambda t: f"hb(3, &{t}.into_le_bytes())") if l.array else (lambda t: f"h(3, {t}.into_be_bits() as u128)")
    rv = (lambda e: f"hb(5, &({e}))") if l.array else (lambda e: f"h(5, ({e}) as u128)")
    ops = []

    def mut(name, call):
        ops.append((name, f"{{ let mut t = st; t.{call}; {obs('t')} }}"))

    def cmut(name, call):
        ops.append((name, f"{{ let mut t = st; let r = match t.{call} {{ Ok(_) => 1, Err(_) => 2 }}; h({obs('t')}, r) }}"))

    def val(name, e):
        ops.append((name, f"{{ {e} }}"))

    def ctor(name, e):
        ops.append((name, f"{{ let t = {e}; {obs('t')} }}"))

    def cctor(name, e):
        ops.append((name, f"match {e} {{ Ok(t) => {obs('t')}, Err(_) => 2 }}"))
    exp, exp_b = api.struct_names(l.array, l.fields, ON)
    for f in l.fields:
        if api.getter(f):
            val(f.name, ret(f, f"st.{f.name}()"))
            val(f.name + "_inverted", ret(f, f"st.{f.name}_inverted()"))
        if api.writable(f):
            mut("set_" + f.name, f"set_{f.name}({arg(f, 'v')})")
            cmut("checked_set_" + f.name, f"checked_set_{f.name}({arg(f, 'v')})")
            mut("clear_" + f.name, f"clear_{f.name}()")
            mut("invert_" + f.name, f"invert_{f.name}()")
            if f.default is not None:
                mut(f"clear_{f.name}_to_default", f"clear_{f.name}_to_default()")
        if not f.reserved and f.acc != "na":
            ctor(f"with_{f.name}", f"TBuilder::new().with_{f.name}({arg(f, 'v')}).build()")
            ops.append((f"checked_with_{f.name}", f"match TBuilder::new_without_defaults().checked_with_{f.name}({arg(f, 'v')}) {{ Ok(b) => {{ let t = b.build(); {obs('t')} }}, Err(_) => 2 }}"))
        if f.name.upper() + "_BITS" in exp:
            val(f.name.upper() + "_BITS", f"h(T::{f.name.upper()}_BITS as u64, T::{f.name.upper()}_OFFSET as u128)")
    ctor("new", "T::new()")
    ctor("new_without_defaults", "T::new_without_defaults()")
    for e in ("", "le_", "be_"):
        ctor(f"from_{e}{u}", f"T::from_{e}{u}({mkv('v')})")
        ctor(f"from_{e}{u}_with_defaults", f"T::from_{e}{u}_with_defaults({mkv('v')})")
        val(f"into_{e}{u}", rv(f"st.into_{e}{u}()"))
        mut(f"write_{e}{u}", f"write_{e}{u}({mkv('v')})")
        mut(f"write_{e}{u}_with_defaults", f"write_{e}{u}_with_defaults({mkv('v')})")
        if l.array:
            for ln in (0, n - 1, n, n + 1):
                ctor(f"from_{e}slice", f"T::from_{e}slice(&arr::<{ln}>(v))")
                ctor(f"from_{e}slice_with_defaults", f"T::from_{e}slice_with_defaults(&arr::<{ln}>(v))")
                cctor(f"checked_from_{e}slice", f"T::checked_from_{e}slice(&arr::<{ln}>(v))")
                cctor(f"checked_from_{e}slice_with_defaults", f"T::checked_from_{e}slice_with_defaults(&arr::<{ln}>(v))")
                val(f"into_{e}slice", f"let mut b = [0xEEu8; {ln}]; st.into_{e}slice(&mut b); hb(5, &b)")
                val(f"checked_into_{e}slice", f"let mut b = [0xEEu8; {ln}]; let r = match st.checked_into_{e}slice(&mut b) {{ Ok(_) => 1, Err(_) => 2 }}; h(hb(5, &b), r)")
    mut("write_defaults", "write_defaults()")
    for i in sorted({0, 1, l.bits // 2, l.bits - 1, l.bits, 4294967295}):
        val("get_bit", f"st.get_bit({i}) as u64")
        val("checked_get_bit", f"match st.checked_get_bit({i}) {{ Ok(b) => b as u64, Err(_) => 2 }}")
        mut("set_bit", f"set_bit({i}, v & 1 == 1)")
        cmut("checked_set_bit", f"checked_set_bit({i}, v & 1 == 1)")
    for i, j in ((0, l.bits), (1, 3), (l.bits - 2, 2), (l.bits - 1, 2), (0, 0), (l.bits, 0), (4294967295, 4294967295), (3, l.bits - 3)):
        val(f"get_{u}_range", rv(f"st.get_{u}_range({i}, {j})"))
        val(f"checked_get_{u}_range", f"match st.checked_get_{u}_range({i}, {j}) {{ Ok(b) => {rv('b')}, Err(_) => 2 }}")
        mut(f"set_{u}_range", f"set_{u}_range({i}, {j}, {mkv('v')})")
        cmut(f"checked_set_{u}_range", f"checked_set_{u}_range({i}, {j}, {mkv('v')})")
    for c in (f"clear_{u}", f"clear_{u}_with_defaults", f"invert_{u}"):
        mut(c, c + "()")
    called = {x[0] for x in ops} | {f.name.upper() + "_OFFSET" for f in l.fields} | {"build"}
    missing = (set(exp) | set(exp_b)) - called
    assert not missing, missing
    o.append(f"pub const NOPS: usize = {len(ops)};")
    o.append("pub const NAMES: [&str; NOPS] = [" + ", ".join(f'"{x}"' for x, _ in ops) + "];")
    o.append("pub const fn trace(s: u128, v: u128) -> [u64; NOPS] {")
    o.append(f"    let st = T::from_{'le_bytes' if l.array else 'be_bits'}({mkv('s')});")
    o.append("    [" + ",\n     ".join(b for _, b in ops) + "]\n}")
    o.append("#[cfg(not(bare))] pub static TAB: [[u64; NOPS]; 25] = { let mut t = [[0; NOPS]; 25]; let mut i = 0; while i < 25 { t[i] = trace(S[i / 5], S[i % 5] ^ (i as u128)); i += 1; } t };")
    o.append("pub const DECL: &str = r####\"" + l.decl() + "\"####;")
    return "\n".join(o), len(ops)


FLAGS = [("u8", "big", "big"), ("u8", "little", "little"), ("u16", "big", "little"), ("u32", "little", "big"), ("u64", "little", "little"), ("u128", "big", "big"), ("u128", "little", "big")]


def flag(ty, frm, into, fb):
    decl = f"#[bitflag({ty}, from_endian = {frm}, into_endian = {into})]\n#[derive(Debug, PartialEq, Default)]\npub enum T {{ #[default] A = 1, {'#[base] ' if fb == 'base' else ''}B = 2, C = 0x42, D = 0x80 }}"
    names = ["from_bits", "from_bits_swapped", "from_bits_shift", "into_A", "into_B", "into_C", "into_D"]
    ops = [f"T::from_bits(v as {ty}) as u128 as u64", f"T::from_bits((v as {ty}).swap_bytes()) as u128 as u64", f"T::from_bits(((v & 255) as {ty}).swap_bytes()) as u128 as u64"]
    ops += [f"h(3, T::{x}.into_bits() as u128)" for x in "ABCD"]
    o = ["use bitfields::bitflag;", "use crate::*;", decl, "pub const NOPS: usize = 7;", "pub const NAMES: [&str; 7] = [" + ", ".join(f'"{x}"' for x in names) + "];",
         "pub const fn trace(s: u128, v: u128) -> [u64; 7] { [" + ", ".join(ops) + "] }",
         "const V: [u128; 25] = [0, 1, 2, 3, 0x40, 0x41, 0x42, 0x43, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x142, 0x4200, 0x8000, u128::MAX, 4, 8, 16, 32, 64, 0x24, 0x10000, 0x82];",
         "#[cfg(not(bare))] pub static TAB: [[u64; NOPS]; 25] = { let mut t = [[0; NOPS]; 25]; let mut i = 0; while i < 25 { t[i] = trace(0, V[i]); i += 1; } t };",
         "pub const DECL: &str = r####\"" + decl + "\"####;"]
    return decl, "\n".join(o).replace("#[cfg(not(bare))]", "pub const ARGS: [u128; 25] = V;\n#[cfg(not(bare))]"), 7


def select(tier):
    q = tier == "quick"
    ls = [l for l in layouts.fam_wide(heap_too=False) if not l.heap]
    ls += [l for l in layouts.fam_endian(False) + layouts.fam_endian(True) if not l.heap][:: 5 if q else 1]
    ls += [l for l in layouts.fam_custom() if not l.heap][:: 4 if q else 1]
    ls += [l for l in layouts.fam_arrayfield() if not l.heap][:: 4 if q else 1]
    ls += [l for l in layouts.fam_signed() if not l.heap][:: 37 if q else 9]
    ls += [l for l in layouts.fam_defaults() if not l.heap][:: 7 if q else 2]
    for b in ("u8", "[u8; 1]"):
        for o in (None, "msb"):
            ls += layouts.fam_access(b, o)[:: 9 if q else 2]
    out, seen = [], set()
    for l in ls:
        if l.ignored or l.nbytes > 40 or l.decl() in seen or "bit_ops" in l.attr() or "new =" in l.attr() or "builder" in l.attr():
            continue
        seen.add(l.decl())
        out.append(l)
    return out


def run(tier, res, args):
    rb = common.build_repo()
    items = []
    for l in select(tier):
        src, n = emit(l)
        items.append((l.name, src, l.decl(), n))
    for t, f, i in FLAGS:
        for fb in ("base", "default"):
            decl, src, n = flag(t, f, i, fb)
            items.append((f"flag_{t}_{f}_{i}_{fb}", src, decl, n))
    if args.only:
        items = [x for x in items if args.only in x[0]]
    d = batch.workdir("C25", tier)
    nb = 8 if tier == "quick" else 24
    bins = common.balance(items, lambda x: x[3], nb)
    prelude = os.path.join(common.VERIF, "harness", "prelude.rs")

    def crate(mods, final):
        o = ["#![no_std]", "#![allow(warnings)]", "#![feature(rustc_attrs)]" if False else "", f'#[path = "{prelude}"] pub mod prelude;', HELP]
        o += [f"pub mod {m};" for m in mods]
        if final:
            o.append("#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }")
        return "\n".join(o)

    def build(cd, name, mods, final, extra):
        with open(os.path.join(cd, name + ".rs"), "w") as fh:
            fh.write(crate(mods, final))
        return common.sh(common.rustc_args(rb, ["--error-format=json", "--crate-name", name, "--out-dir", cd, "-C", "debuginfo=0", "-C", "overflow-checks=on",
                                                "-C", "debug-assertions=on", "-A", "long_running_const_eval", *extra, os.path.join(cd, name + ".rs")]), timeout=820)

    def go(ib):
        i, b = ib
        viol, done, calls, lines = [], 0, 0, []
        cd = os.path.join(d, f"b{i}")
        live = list(b)
        for rnd in range(6):
            shutil.rmtree(cd, ignore_errors=True)
            os.makedirs(cd)
            by = {}
            for k, x in enumerate(live):
                by[f"m{k}.rs"] = x
                with open(os.path.join(cd, f"m{k}.rs"), "w") as fh:
                    fh.write(x[1])
            mods = [f"m{k}" for k in range(len(live))]
            if not mods:
                return viol, done, calls
            # a no_std crate that defines the panic handler itself: linking std would collide
            rc, out, err = build(cd, "bare", mods, True, ["--crate-type", "staticlib", "--emit=metadata", "-C", "panic=abort", "--cfg", "bare"])
            if rc == 0:
                rc, out, err = build(cd, "lay", mods, False, ["--crate-type", "rlib", "-C", "opt-level=1", "-C", "codegen-units=4"])
            if rc == 0:
                break
            if rc in (-9, -15, -999):
                raise common.CheckError("compiler ended by signal or timeout")
            hit = {}
            other = []
            for msg, code, spans, rendered in common.parse_diags(err):
                fs = {os.path.basename(s[0]) for s in spans} & set(by)
                for f in fs:
                    hit.setdefault(f, []).append(rendered)
                if not fs:
                    other.append(rendered)
            if not hit:
                viol.append(("crate", "the generated code does not build in a no_std crate, or links std:\n" + "\n".join(other)[:2500]))
                return viol, done, calls
            for f, m in hit.items():
                viol.append((by[f][0], f"not evaluable at compile time or not no_std\n--- declaration\n{by[f][2]}\n--- compiler\n" + "\n".join(m[:3])[:2500]))
            live = [x for k, x in enumerate(live) if f"m{k}.rs" not in hit]
        main = ["#![allow(warnings)]", "use std::hint::black_box;", "fn main() { let mut n = 0u64;"]
        for k, x in enumerate(live):
            if x[0].startswith("flag_"):
                a = f"(0u128, lay::m{k}::ARGS[i])"
            else:
                a = "(lay::S[i / 5], lay::S[i % 5] ^ (i as u128))"
            main.append(f"  for i in 0..25usize {{ let (s, v): (u128, u128) = {a}; let r = lay::m{k}::trace(black_box(s), black_box(v)); let c = lay::m{k}::TAB[i]; for j in 0..lay::m{k}::NOPS {{ n += 1; if r[j] != c[j] {{ println!(\"bad {k} {{}} state {{:#x}} value {{:#x}}\", lay::m{k}::NAMES[j], s, v); }} }} }}")
        main.append('  println!("calls {}", n); }')
        with open(os.path.join(cd, "main.rs"), "w") as fh:
            fh.write("\n".join(main))
        exe = os.path.join(cd, "run")
        rc, out, err = common.sh(common.rustc_args(rb, ["-C", "debuginfo=0", "--extern", "lay=" + os.path.join(cd, "liblay.rlib"), "-o", exe, os.path.join(cd, "main.rs")]), timeout=820)
        if rc != 0:
            raise common.CheckError("trace runner does not build: " + err[-1500:])
        rc, out, err = common.sh([exe])
        if rc != 0:
            viol.append(("process", f"run-time trace died where the compile-time one succeeded: status {rc} {err[-800:]}"))
        for line in out.splitlines():
            if line.startswith("bad "):
                _, k, rest = line.split(" ", 2)
                x = live[int(k)]
                viol.append((f"{x[0]}:{rest.split()[0]}", f"compile-time and run-time results differ: {rest}\n--- declaration\n{x[2]}"))
            elif line.startswith("calls "):
                calls += int(line.split()[1])
        shutil.rmtree(cd, ignore_errors=True)
        return viol, len(live), calls
    try:
        nd = 0
        for viol, done, calls in common.pmap(go, list(enumerate(bins))):
            for k, t in viol:
                res.violate(k, t)
            nd += done
            res.cov["states"] += 25 * done
            res.cov["transitions"] += calls
            res.cov["traces_validated_against_impl"] += 25 * done
        res.cov["samples"] = [f"{x[0]}: {x[3]} calls per trace" for x in items[:: max(1, len(items) // 10)]][:12]
    finally:
        if not args.keep:
            shutil.rmtree(d, ignore_errors=True)
    res.notes.update(declarations=nd, exhaustive=True,
                     bounds="every generated inherent function of every selected declaration, from 5 states with 5 argument values each, plus slice lengths 0, N-1, N, N+1 and boundary offsets")
    res.assumptions.append("functions of types with ignored fields and of heap-backed types are not const and are left out, as documented")
