"""Model of the generated API: which items exist for a declaration, by flag group and field access."""
import itertools

MAIN = ["new", "from_into_bits", "from_traits", "default", "debug", "copy", "builder"]
GROUPS = ["write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops"]


def writable(f):
    return not f.reserved and f.acc in ("rw", "wo")


def getter(f):
    return not f.reserved and f.acc in ("rw", "ro")


def struct_names(array, fields, cfg):
    """cfg: effective booleans for MAIN + GROUPS. Returns {name: 'fn'|'const'} of the struct, {name: 'fn'} of the builder, traits."""
    u = "bytes" if array else "bits"
    n = {}

    def fn(*names):
        for x in names:
            n[x] = "fn"
    for f in fields:
        if writable(f) or getter(f):
            n[f.name.upper() + "_BITS"] = "const"
            n[f.name.upper() + "_OFFSET"] = "const"
        if getter(f):
            fn(f.name)
        if writable(f):
            fn("set_" + f.name, "checked_set_" + f.name)
    if cfg["new"]:
        fn("new", "new_without_defaults")
    if cfg["from_into_bits"]:
        for e in ("", "le_", "be_"):
            fn(f"from_{e}{u}", f"from_{e}{u}_with_defaults", f"into_{e}{u}")
            if array:
                for c in ("", "checked_"):
                    fn(f"{c}from_{e}slice", f"{c}from_{e}slice_with_defaults", f"{c}into_{e}slice")
    if cfg["write_bit_ops"]:
        for e in ("", "le_", "be_"):
            fn(f"write_{e}{u}", f"write_{e}{u}_with_defaults")
        fn("write_defaults")
    if cfg["set_get_bit_ops"]:
        for c in ("", "checked_"):
            fn(f"{c}get_bit", f"{c}set_bit", f"{c}get_{u}_range", f"{c}set_{u}_range")
    if cfg["clear_bit_ops"]:
        fn(f"clear_{u}", f"clear_{u}_with_defaults")
        for f in fields:
            if writable(f):
                fn("clear_" + f.name)
                if f.default is not None:
                    fn(f"clear_{f.name}_to_default")
    if cfg["invert_bit_ops"]:
        fn(f"invert_{u}")
        for f in fields:
            if writable(f):
                fn("invert_" + f.name)
            if getter(f):
                fn(f.name + "_inverted")
    b = {}
    if cfg["builder"]:
        for x in ("new", "new_without_defaults", "build"):
            b[x] = "fn"
        for f in fields:
            if not f.reserved and f.acc != "na":
                b["with_" + f.name] = "fn"
                b["checked_with_" + f.name] = "fn"
    return n, b


def all_names(fields):
    """every name that could exist in some configuration"""
    on = {k: True for k in MAIN + GROUPS}
    import copy as cp
    out = set()
    bld = {"new", "new_without_defaults", "build"}
    for f in fields:
        for acc in ("rw", "ro", "wo", "na"):
            for res in (False, True):
                g = cp.copy(f)
                g.acc, g.reserved, g.default = acc, res, 0
                for arr in (False, True):
                    a, b = struct_names(arr, [g], on)
                    out |= set(a)
                    bld |= set(b)
    return out | bld


def fallback_trait(names):
    o = ["#[derive(Clone, Copy)] pub struct M(pub u8);", "pub trait Fb {"]
    o += [f"    const {n}: M = M(0);" for n in sorted(names)]
    o += ["}", "impl<X: ?Sized> Fb for X {}",
          "pub const fn sz<F>(_: &F) -> usize { ::core::mem::size_of::<F>() }",
          "pub mod fb { pub struct TBuilder { _x: [u8; 977] } }",
          "pub struct W<T>(::core::marker::PhantomData<T>);"]
    for tr, bound in (("Default", "Default"), ("Debug", "::core::fmt::Debug"), ("Copy", "Copy"), ("Clone", "Clone")):
        o.append(f"pub trait No{tr} {{ const HAS_{tr.upper()}: bool = false; }} impl<T> No{tr} for W<T> {{}}")
        o.append(f"impl<T: {bound}> W<T> {{ pub const HAS_{tr.upper()}: bool = true; }}")
    o.append("pub struct W2<T, N>(::core::marker::PhantomData<(T, N)>);")
    o.append("pub trait NoFrom { const HAS_FROM: bool = false; } impl<T, N> NoFrom for W2<T, N> {}")
    o.append("impl<T: ::core::convert::From<N>, N> W2<T, N> { pub const HAS_FROM: bool = true; }")
    return "\n".join(o)


def effective(args, defaults=None):
    """args: explicit arguments {name: bool}; defaults: values when unset"""
    d = {k: True for k in MAIN + GROUPS + ["bit_ops"]}
    d.update(defaults or {})
    eff = {k: args.get(k, d[k]) for k in MAIN}
    ops = args.get("bit_ops", d["bit_ops"])
    for g in GROUPS:
        if not ops:
            eff[g] = args.get(g) is True
        else:
            eff[g] = args.get(g, d[g])
    return eff


def compact(lines):
    """many one-line assertions -> one constant table checked in a loop (much cheaper to compile)"""
    import re
    rows = []
    for x in lines:
        m = re.match(r"\s*const _: \(\) = assert!\((.*) == (\S+)\); // ", x)
        e, w = m.group(1), m.group(2)
        if w in ("true", "false"):
            e, w = f"({e}) as usize", "1" if w == "true" else "0"
        rows.append(f"({e}, {w})")
    return [f"const _: () = {{ const A: [(usize, usize); {len(rows)}] = [" + ", ".join(rows) + "]; let mut i = 0; while i < A.len() { assert!(A[i].0 == A[i].1); i += 1; } };"]


def probe_asserts(names, exp, exp_b, ty="T", bty="Bu"):
    """const assertions, one per line, for presence/absence of every name"""
    o = []
    for n in sorted(names):
        e = exp.get(n)
        want = {"fn": 0, "const": 4, None: 1}[e]
        o.append(f"    const _: () = assert!(sz(&{ty}::{n}) == {want}); // {ty}::{n} {e or 'absent'}")
        if bty:
            e = exp_b.get(n)
            want = {"fn": 0, "const": 4, None: 1}[e]
            o.append(f"    const _: () = assert!(sz(&{bty}::{n}) == {want}); // {ty}Builder::{n} {e or 'absent'}")
    return o


def trait_asserts(nat, heap, eff, ty="T"):
    o = []

    def t(expr, want, label):
        o.append(f"    const _: () = assert!({expr} == {str(bool(want)).lower()}); // {label} {'present' if want else 'absent'}")
    t(f"<W<{ty}>>::HAS_DEFAULT", eff["default"], "impl Default")
    t(f"<W<{ty}>>::HAS_DEBUG", eff["debug"], "impl Debug")
    t(f"<W<{ty}>>::HAS_CLONE", eff["copy"], "impl Clone")
    t(f"<W<{ty}>>::HAS_COPY", eff["copy"] and not heap, "impl Copy")
    t(f"<W2<{ty}, {nat}>>::HAS_FROM", eff["from_traits"], f"impl From<{nat}> for T")
    t(f"<W2<{nat}, {ty}>>::HAS_FROM", eff["from_traits"], f"impl From<T> for {nat}")
    return o
