"""Emit Rust sources: one module per declaration with an adapter that maps the
uniform operation alphabet onto the generated API."""
import api

K_ALL_FIELD = ["Get", "Set", "CSet", "Inverted", "InvF", "ClrF", "ClrFD", "CBits", "COff"]
K_FROM = ["From", "FromLe", "FromBe", "FromD", "FromLeD", "FromBeD", "FromT"]
K_INTO = ["Into_", "IntoLe", "IntoBe", "IntoT"]
K_FS = ["FS", "FSLe", "FSBe", "FSD", "FSLeD", "FSBeD", "CFS", "CFSLe", "CFSBe", "CFSD", "CFSLeD", "CFSBeD"]
K_IS = ["IS", "ISLe", "ISBe", "CIS", "CISLe", "CISBe"]
K_W = ["W", "WLe", "WBe", "WD", "WLeD", "WBeD", "WDef"]
K_BIT = ["GBit", "CGBit", "SBit", "CSBit"]
K_RANGE = ["GR", "CGR", "SR", "CSR"]
K_NEW = ["New", "NewND", "Def", "BDef"]

ARRAY_PAIR_ONLY = set(K_FS + K_IS + K_W) - {"WDef"}

_MOST = K_ALL_FIELD + K_NEW + ["BSeq", "Inv", "Clr", "ClrD"] + K_W + K_FROM + K_INTO + K_FS + K_IS

KINDS = {
    "C01": ["CBits", "COff", "Get", "Set"],
    "C02": ["Get", "Set"],
    "C03": ["Get", "Set", "CSet", "Inverted"] + K_NEW + ["BSeq", "From", "FromD", "Dbg", "W", "ClrFD"],
    "C04": ["CSet", "BSeq"],
    "C05": K_NEW + ["BSeq", "BSeqND"],
    "C06": ["BSeq", "BSeqND", "BDef"],
    "C07": K_FROM + K_INTO,
    "C08": K_FROM + K_INTO + K_FS + K_IS,
    "C09": K_W,
    "C10": K_BIT,
    "C11": K_RANGE,
    "C12": ["Clr", "ClrD", "ClrF", "ClrFD"],
    "C13": ["Inv", "InvF", "Inverted"],
    "C14": K_ALL_FIELD + K_BIT + K_RANGE + K_W + ["Inv", "New", "NewND"],
    "C15": K_ALL_FIELD + K_BIT + K_RANGE + K_NEW + ["Inv", "Clr", "ClrD", "BSeq", "BSeqND", "Dbg"] + K_W + K_FROM + K_INTO + K_FS + K_IS,
    "C16": _MOST,
    "C17": _MOST,
    "C23": ["Dbg"],
    "C24": _MOST + K_BIT + K_RANGE,
    "C28": _MOST + ["BSeqND"] + K_BIT + K_RANGE + ["Dbg", "Twin"],
    "C29": _MOST + ["BSeqND"] + K_BIT + K_RANGE + ["Dbg", "Twin"],
    "C26": _MOST + ["BSeqND"] + K_BIT + K_RANGE + ["Dbg", "Twin"],
}


GROUP_OF = {}
for _g, _ks in {
    "new": ["New", "NewND"], "default": ["Def"], "builder": ["BDef", "BSeq", "BSeqND"],
    "from_into_bits": [k for k in K_FROM + K_INTO + K_FS + K_IS if k not in ("FromT", "IntoT")], "from_traits": ["FromT", "IntoT"],
    "write_bit_ops": K_W, "set_get_bit_ops": K_BIT + K_RANGE, "clear_bit_ops": ["Clr", "ClrD", "ClrF", "ClrFD"],
    "invert_bit_ops": ["Inv", "InvF", "Inverted"], "debug": ["Dbg"],
}.items():
    for _k in _ks:
        GROUP_OF[_k] = _g


def off_kinds(l):
    """operation kinds that the declaration's flags switch off"""
    args = {}
    for x in l.extra:
        k, _, v = x.partition(" = ")
        args[k] = v == "true"
    eff = api.effective(args)
    return [k for k, g in GROUP_OF.items() if not eff[g]]


# ignored member types: (write from st.x, read into x, value of x after Default)
IGN = {
    "u32": (lambda n: "st.x as u32", lambda n: f"(d.{n} as u64)", 0),
    "Ign": (lambda n: "Ign((st.x >> 32) as u8)", lambda n: f"((d.{n}.0 as u64) << 32)", 0x3D << 32),
    "bool": (lambda n: "(st.x >> 40) & 1 == 1", lambda n: f"((d.{n} as u64) << 40)", 0),
    "Option<u8>": (lambda n: "if (st.x >> 49) & 1 == 1 { Some((st.x >> 41) as u8) } else { None }", lambda n: f"(match d.{n} {{ Some(z) => ((z as u64) << 41) | (1 << 49), None => 0 }})", 0),
    "[u8; 2]": (lambda n: "[(st.x >> 50) as u8 & 7, (st.x >> 53) as u8 & 7]", lambda n: f"(((d.{n}[0] as u64) << 50) | ((d.{n}[1] as u64) << 53))", 0),
    "i16": (lambda n: "-((st.x >> 56) as i16)", lambda n: f"(((-d.{n}) as u64) << 56)", 0),
    "String": (lambda n: "if st.x as u32 == 0 { String::new() } else { (st.x as u32).to_string() }", lambda n: f"(d.{n}.parse::<u32>().unwrap_or(0) as u64)", 0),
}
X_USED = {"u32": 0xFFFFFFFF, "Ign": 0xFF << 32, "bool": 1 << 40, "Option<u8>": 0x1FF << 41, "[u8; 2]": 0x3F << 50, "i16": 0xFF << 56, "String": 0xFFFFFFFF}


def plain(n):
    return n[2:] if n.startswith("r#") else n


def to_native(f, v):
    if f.kind in "US":
        return f"{v}.u128() as {f.ty}"
    if f.kind == "B":
        return f"{v}.bit(0)"
    if f.kind == "A":
        return f"{v}.arr::<{f.tyb // 8}>()"
    return f"<{f.ty} as Cust>::mk({v}.u128())"


def from_native(f, e):
    if f.kind in "US":
        return f"BV::from_u128(({e}) as u128, {f.tyb})"
    if f.kind == "B":
        return f"bool_bv({e})"
    if f.kind == "A":
        return f"BV::from_bytes(&({e}))"
    return f"BV::from_u128(Cust::obs({e}), {f.tyb})"


def hexbytes(v, tyb):
    n = max(1, (tyb + 7) // 8)
    return "&[" + ", ".join(str(b) for b in v.to_bytes(n, "little")) + "]"


ACC = {"rw": "RW", "ro": "RO", "wo": "WO", "na": "NA"}


def writable(f):
    return not f.reserved and f.acc in ("rw", "wo")


def getter(f):
    return not f.reserved and f.acc in ("rw", "ro")


def emit_layout(l, kinds, mode="raw"):
    """mode raw: states are loaded/observed through the private storage field (independent of
    from_*/into_*); mode api: through the public conversions (used when the representation differs)."""
    if mode == "api":
        l.extra = [x for x in l.extra if "from_into_bits" not in x and x != "copy = false"]
        if l.text is not None:
            import spell
            spell.respell(l, l.spelling)
    off = off_kinds(l)
    kinds = [k for k in kinds if k not in off]
    o = []
    w = o.append
    w("#![allow(warnings)]")
    w("use crate::prelude::*;")
    w("use bitfields::{bitfield, bitflag};")
    w("use mccore::*;")
    if l.scope or l.tname != "T":
        # the declaration sits in its own scope; the adapter in a child module, under neutral names
        w(l.scope)
        w(l.decl())
        w("pub use ad::*;")
        w("mod ad {")
        w("use crate::prelude::*;")
        w("use mccore::*;")
        w(f"use super::{l.tname} as T;")
        if "builder" not in [emit_g for emit_g in {GROUP_OF[k] for k in off}]:
            w(f"use super::{plain(l.tname)}Builder as TBuilder;")
    else:
        w(l.decl())
    nat = l.backing if not l.array else f"[u8; {l.nbytes}]"
    fld = "val" if l.ignored else "0"
    # table
    fs = []
    for f in l.fields:
        bare = f.reserved and not f.has_attr()
        d = f"Some({hexbytes(f.default_value(), f.tyb)})" if f.default is not None else "None"
        from layouts import CUSTOM
        canon = CUSTOM[f.ty][1] if f.ty in CUSTOM else "ident"
        consts = "true" if (writable(f) or getter(f)) else "false"
        fs.append(f'Field {{ name: "{plain(f.name)}", off: {f.off}, bits: {f.bits}, ty_bits: {f.tyb}, kind: Kind::{f.kind}, acc: Acc::{ACC[f.acc]}, '
                  f'reserved: {str(f.reserved).lower()}, bare: {str(bare).lower()}, default: {d}, canon: {canon}, consts: {consts} }}')
    xd = 0
    xm = 0
    for _, n, t in l.ignored:
        xd |= IGN[t][2]
        xm |= X_USED[t]
    offk = ", ".join(f"K::{k}" for k in off)
    w("pub static LAY: Layout = Layout {")
    w(f'  name: "{l.name}", decl: r####"{l.decl()}"####, bits: {l.bits}, array: {str(l.array).lower()}, msb: {str(l.order == "msb").lower()},')
    w(f'  from_le: {str(l.frm == "little").lower()}, into_le: {str(l.into == "little").lower()}, write_le: {str(l.write == "little").lower()},')
    w(f'  fields: &[{", ".join(fs)}], has_x: {str(bool(l.ignored)).lower()}, x_default: {xd}, x_load: {0x7BB6_5BA5_8000_005A & xm}, off: &[{offk}], tags: "{" ".join(sorted(l.tags))}", heap: {str(bool(l.heap)).lower()}, clone: {str("copy = false" not in l.extra).lower()}, tname: "{plain(l.tname)}",')
    w("};")
    w("pub struct D;")
    if l.array:
        raw = f"st.b.arr::<{l.nbytes}>()"
        if l.heap:
            raw = f"::std::boxed::Box::new({raw})"
    else:
        raw = f"st.b.u128() as {nat}"
    ctor = f"T::from_le_bytes(st.b.arr::<{l.nbytes}>())" if l.array else f"T::from_be_bits(st.b.u128() as {nat})"
    xs = "0"
    if l.ignored:
        xs = " | ".join(IGN[t][1](n) for _, n, t in l.ignored)
        if mode == "api":
            ign = "".join(f"t.{n} = {IGN[t][0](n)}; " for _, n, t in l.ignored)
            w(f"fn mk(st: &St) -> T {{ let mut t = {ctor}; {ign} t }}")
        else:
            ign = "".join(f"{n}: {IGN[t][0](n)}, " for _, n, t in l.ignored)
            w(f"fn mk(st: &St) -> T {{ T {{ val: {raw}, {ign} }} }}")
    elif mode == "api":
        w(f"fn mk(st: &St) -> T {{ {ctor} }}")
    else:
        w(f"fn mk(st: &St) -> T {{ T({raw}) }}")
    if l.array:
        obs = "d.into_le_bytes()" if mode == "api" else f"d.{fld}"
        w(f"fn of(d: &T) -> St {{ St {{ b: BV::from_bytes(&({obs})[..]), x: {xs} }} }}")
        nv = lambda v: f"{v}.arr::<{l.nbytes}>()"
        bv = lambda e: f"BV::from_bytes(&({e})[..])"
    else:
        obs = "T::into_be_bits(::core::clone::Clone::clone(d))" if mode == "api" else f"d.{fld}"
        w(f"fn of(d: &T) -> St {{ St {{ b: BV::from_u128({obs} as u128, {l.bits}), x: {xs} }} }}")
        nv = lambda v: f"{v}.u128() as {nat}"
        bv = lambda e: f"BV::from_u128(({e}) as u128, {l.bits})"
    # read-only observations must not move the value, so they run on `d` by shared reference
    u = "bytes" if l.array else "bits"
    arms = []

    def farm(k, pred, body):
        if k not in kinds:
            return
        sub = "".join(f"            {i} => {body(f)},\n" for i, f in enumerate(l.fields) if pred(f))
        arms.append(f"        K::{k} => match op.f {{\n{sub}            _ => unreachable!(),\n        }},")

    farm("Get", getter, lambda f: f"Ret::V({from_native(f, f'T::{f.name}(&*d)')})")
    farm("Set", writable, lambda f: f"{{ d.set_{plain(f.name)}({to_native(f, 'op.v')}); Ret::Unit }}")
    farm("CSet", writable, lambda f: f"rok(d.checked_set_{plain(f.name)}({to_native(f, 'op.v')}))")
    farm("Inverted", getter, lambda f: f"Ret::V({from_native(f, f'd.{plain(f.name)}_inverted()')})")
    farm("InvF", writable, lambda f: f"{{ d.invert_{plain(f.name)}(); Ret::Unit }}")
    farm("ClrF", writable, lambda f: f"{{ d.clear_{plain(f.name)}(); Ret::Unit }}")
    farm("ClrFD", lambda f: writable(f) and f.default is not None, lambda f: f"{{ d.clear_{plain(f.name)}_to_default(); Ret::Unit }}")
    hasc = lambda f: writable(f) or getter(f)
    farm("CBits", hasc, lambda f: f"Ret::V(BV::from_u128(T::{plain(f.name).upper()}_BITS as u128, 32))")
    farm("COff", hasc, lambda f: f"Ret::V(BV::from_u128(T::{plain(f.name).upper()}_OFFSET as u128, 32))")
    for k, ctor in (("BSeq", "new"), ("BSeqND", "new_without_defaults")):
        if k not in kinds:
            continue
        sub = ""
        for i, f in enumerate(l.fields):
            if f.reserved or f.acc == "na":
                continue
            sub += f"                ({i}, false) => b = b.with_{plain(f.name)}({to_native(f, 'v')}),\n"
            sub += f"                ({i}, true) => match b.checked_with_{plain(f.name)}({to_native(f, 'v')}) {{ Ok(x) => b = x, Err(_) => return Ret::Err }},\n"
        arms.append(f"        K::{k} => {{ let mut b = TBuilder::{ctor}(); for (f, v, c) in &op.seq {{ match (*f, *c) {{\n{sub}                _ => unreachable!(),\n            }} }} *d = b.build(); Ret::Ok(None) }},")

    def arm(k, body):
        if k in kinds:
            arms.append(f"        K::{k} => {body},")

    arm("New", "{ *d = T::new(); Ret::Unit }")
    arm("NewND", "{ *d = T::new_without_defaults(); Ret::Unit }")
    arm("Def", "{ *d = <T as Default>::default(); Ret::Unit }")
    arm("BDef", "{ *d = <TBuilder as Default>::default().build(); Ret::Unit }")
    arm("GBit", "bb(d.get_bit(op.i))")
    arm("CGBit", "rokv(d.checked_get_bit(op.i).map(bool_bv))")
    arm("SBit", "{ d.set_bit(op.i, op.b); Ret::Unit }")
    arm("CSBit", "rok(d.checked_set_bit(op.i, op.b))")
    arm("GR", f"Ret::V({bv(f'd.get_{u}_range(op.i, op.j)')})")
    arm("CGR", f"rokv(d.checked_get_{u}_range(op.i, op.j).map(|z| {bv('z')}))")
    arm("SR", f"{{ d.set_{u}_range(op.i, op.j, {nv('op.v')}); Ret::Unit }}")
    arm("CSR", f"rok(d.checked_set_{u}_range(op.i, op.j, {nv('op.v')}))")
    for k, n in (("From", ""), ("FromLe", "le_"), ("FromBe", "be_")):
        arm(k, f"{{ *d = T::from_{n}{u}({nv('op.v')}); Ret::Unit }}")
        arm(k + "D", f"{{ *d = T::from_{n}{u}_with_defaults({nv('op.v')}); Ret::Unit }}")
    arm("FromT", f"{{ *d = <T as ::core::convert::From<{nat}>>::from({nv('op.v')}); Ret::Unit }}")
    for k, n in (("Into_", ""), ("IntoLe", "le_"), ("IntoBe", "be_")):
        arm(k, f"Ret::V({bv(f'unmetered(|| mk(st)).into_{n}{u}()')})")
    arm("IntoT", f"{{ let z: {nat} = <{nat} as ::core::convert::From<T>>::from(unmetered(|| mk(st))); Ret::V({bv('z')}) }}")
    if l.array:
        for k, n in (("", ""), ("Le", "le_"), ("Be", "be_")):
            for d_, dn in (("", ""), ("D", "_with_defaults")):
                arm(f"FS{k}{d_}", f"{{ *d = T::from_{n}slice{dn}(op.v.bytes()); Ret::Unit }}")
                arm(f"CFS{k}{d_}", f"match T::checked_from_{n}slice{dn}(op.v.bytes()) {{ Ok(z) => {{ *d = z; Ret::Ok(None) }} Err(_) => Ret::Err }}")
            arm(f"IS{k}", f"{{ let mut bb = op.v.b; let b = &mut bb[..op.v.bytes().len()]; d.into_{n}slice(b); unmetered(|| Ret::S(show_slice(true, &BV::from_bytes(b)))) }}")
            arm(f"CIS{k}", f"{{ let mut bb = op.v.b; let b = &mut bb[..op.v.bytes().len()]; let ok = d.checked_into_{n}slice(b).is_ok(); unmetered(|| Ret::S(show_slice(ok, &BV::from_bytes(b)))) }}")
    for k, n in (("W", ""), ("WLe", "le_"), ("WBe", "be_")):
        arm(k, f"{{ d.write_{n}{u}({nv('op.v')}); Ret::Unit }}")
        arm(k + "D", f"{{ d.write_{n}{u}_with_defaults({nv('op.v')}); Ret::Unit }}")
    arm("WDef", "{ d.write_defaults(); Ret::Unit }")
    arm("Clr", f"{{ d.clear_{u}(); Ret::Unit }}")
    arm("ClrD", f"{{ d.clear_{u}_with_defaults(); Ret::Unit }}")
    arm("Inv", f"{{ d.invert_{u}(); Ret::Unit }}")
    arm("Dbg", '{ let mut t = Text::new(); let r = if op.b { ::core::fmt::Write::write_fmt(&mut t, format_args!("{:#?}", d)) } else { ::core::fmt::Write::write_fmt(&mut t, format_args!("{:?}", d)) }; unmetered(|| if r.is_ok() { Ret::S(t.str().to_string()) } else { Ret::S(if op.b { format!("{:#?}", d) } else { format!("{:?}", d) }) }) }')
    w("fn apply(d: &mut T, st: &St, op: &Op) -> Ret {")
    w("        match op.k {")
    w("\n".join(arms))
    w("            _ => unreachable!(\"operation not wired\"),")
    w("        }")
    w("}")
    w("impl Dut for D {")
    w("    fn layout(&self) -> &'static Layout { &LAY }")
    if mode == "api":
        w("    fn via_api(&self) -> bool { true }")
    w("    fn run(&self, st: &St, op: &Op) -> (St, Ret) {")
    w("        let mut d = mk(st);")
    if "Twin" in kinds:
        w("        let a = allocs(); let r = apply(&mut d, st, op); set_last_allocs(allocs() - a);")
    else:
        w("        let r = apply(&mut d, st, op);")
    w("        (of(&d), r)")
    w("    }")
    if "Twin" in kinds:
        sto = f"::std::boxed::Box<{nat}>" if l.heap else nat
        w(f"    fn sizes(&self) -> Option<[usize; 4]> {{ Some([::core::mem::size_of::<T>(), ::core::mem::align_of::<T>(), ::core::mem::size_of::<{sto}>(), ::core::mem::align_of::<{sto}>()]) }}")
        if "copy = false" not in l.extra:
            w("    fn twin(&self, st: &St, op: &Op, on_clone: bool) -> Option<(St, St, Ret)> {")
            w("        let mut d = mk(st); let mut c = ::core::clone::Clone::clone(&d);")
            w("        let r = apply(if on_clone { &mut c } else { &mut d }, st, op);")
            w("        Some((of(&d), of(&c), r))")
            w("    }")
    w("}")
    if l.scope or l.tname != "T":
        w("}")
    return "\n".join(o) + "\n"


def emit_main(mods, pairs):
    o = ["#![allow(warnings)]", "#[path = \"PRELUDE\"] mod prelude;"]
    for m in mods:
        o.append(f"#[path = \"{m}.rs\"] mod {m};")
    o.append("fn main() {")
    o.append("    let duts: Vec<(&'static str, Box<dyn mccore::Dut>)> = vec![")
    for m in mods:
        o.append(f"        ({m}::LAY.name, Box::new({m}::D)),")
    o.append("    ];")
    o.append(f"    mccore::main_run(&duts, &{pairs!r});")
    o.append("}")
    return "\n".join(o) + "\n"
