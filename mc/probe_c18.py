"""C18: bitflag enums, every input against the decoding model."""
import itertools
import os
import shutil

import batch
import common

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}


def value_sets(bits):
    m = (1 << bits) - 1
    top = 1 << (bits - 1)
    sets = [
        [("0", 0), ("1", 1)],
        [("0", 0), ("1", 1), ("2", 2), ("4", 4), ("0x80", 0x80)],
        [(str(i), i) for i in range(9)],
        [(hex(m), m), (hex(top), top), (hex(top - 1), top - 1), ("0x10", 16)],
        [("7", 7)],
        [("0b1010", 10), ("0o17", 15), ("1_0_0", 100), ("0xFe", 0xFE)],
        [("CV", 0x2A), ("m::CV", 0x2B), ("3", 3)],
    ]
    if bits > 8:
        lo = 0x12
        hi = lo << (bits - 8)
        sets.append([(hex(lo), lo), (hex(hi), hi), ("0x1200", 0x1200), (hex((0x34 << (bits - 8)) | 0x12), (0x34 << (bits - 8)) | 0x12)])
        b = int.from_bytes(bytes(range(1, bits // 8 + 1)), "big")
        l_ = int.from_bytes(bytes(range(1, bits // 8 + 1)), "little")
        sets.append([(hex(b), b), (hex(l_), l_), ("0", 0), (hex(b ^ 1), b ^ 1)])
    if bits > 32:
        sets.append([(hex(x), x) for x in (1 << 32, (1 << 32) + 1, (1 << 31), 1)])
    if bits > 64:
        sets.append([(hex(x), x) for x in (1 << 64, (1 << 64) + 1, (1 << 63), 1)])
    return [list({v: (e, v) for e, v in reversed(s)}.values())[::-1] for s in sets]


def fallbacks(n, full):
    """(base index or None, default index or None)"""
    out = [(i, None) for i in range(n)] + [(None, i) for i in range(n)]
    pairs = [(i, j) for i in range(n) for j in range(n)]
    out += pairs if full else [p for p in pairs if p in ((0, n - 1), (n - 1, 0), (0, 0), (n // 2, 0))]
    return sorted(set(out), key=str)


def cases(tier):
    full = tier != "quick"
    ends = list(itertools.product((None, "big", "little"), repeat=2))
    k = 0
    for ty, bits in BITS.items():
        for si, vs in enumerate(value_sets(bits)):
            for fi, fb in enumerate(fallbacks(len(vs), full)):
                for ei, (fe, ie) in enumerate(ends):
                    if not full and (fi + si + ei) % 3 and not (fi == si % 3):
                        continue
                    k += 1
                    copy = (None, True, False)[k % 3]
                    yield (f"{ty}_s{si}_b{fb[0]}_d{fb[1]}_{fe}_{ie}", ty, bits, vs, fb, fe, ie, copy)


def emit(c):
    name, ty, bits, vs, (base, dflt), fe, ie, copy = c
    args = [ty]
    if fe:
        args.append(f"from_endian = {fe}")
    if ie:
        args.append(f"into_endian = {ie}")
    if copy is not None:
        args.append(f"copy = {str(copy).lower()}")
    d = [f"#[bitflag({', '.join(args)})]"]
    der = ["Debug", "PartialEq"] + (["Default"] if dflt is not None else [])
    d.append(f"#[derive({', '.join(der)})]")
    d.append("pub enum E {")
    for i, (e, _v) in enumerate(vs):
        if base == i:
            d.append("    #[base]")
        if dflt == i:
            d.append("    #[default]")
        d.append(f"    V{i} = {e},")
    d.append("}")
    decl = "\n".join(d)
    n = len(vs)
    o = ["#![allow(warnings)]", "use bitfields::bitflag;", f"pub const CV: {ty} = 0x2A; pub mod m {{ pub const CV: {ty} = 0x2B; }}", decl]
    o.append(f"fn from(x: u128) -> usize {{ match E::from_bits(x as {ty}) {{ " + " ".join(f"E::V{i} => {i}," for i in range(n)) + " } }")
    o.append(f"fn into(i: usize) -> u128 {{ let e = match i {{ " + " ".join(f"{i} => E::V{i}," for i in range(n)) + " _ => unreachable!() }; e.into_bits() as u128 }")
    ins = sorted({v for _, v in vs} | {int.from_bytes(v.to_bytes(bits // 8, "little"), "big") for _, v in vs} | {5})
    o.append("pub static F: crate::flags::Flag = crate::flags::Flag {")
    fb = base if base is not None else dflt
    o.append(f'  name: "{name}", decl: r####"{decl}"####, bits: {bits}, values: &[{", ".join(str(v) for _, v in vs)}], fallback: {fb}, from_le: {str(fe == "little").lower()}, into_le: {str(ie == "little").lower()}, from, into,')
    o.append("  consts: {")
    for i, x in enumerate(ins):
        o.append(f"    const R{i}: u128 = E::from_bits({x}).into_bits() as u128;")
    o.append("    &[" + ", ".join(f"({x}, R{i})" for i, x in enumerate(ins)) + "] },")
    o.append("};")
    return "\n".join(o)


def run(tier, res, args):
    rb = common.build_repo()
    cs = list(cases(tier))
    if args.only:
        cs = [c for c in cs if args.only in c[0]]
    d = batch.workdir("C18", tier)
    nb = 8 if tier == "quick" else 32
    bins = [cs[i::nb] for i in range(nb)]

    def main(mods):
        o = ["#![allow(warnings)]", f'#[path = "{common.VERIF}/harness/flags.rs"] mod flags;']
        o += [f"mod {m};" for m in mods]
        o.append("fn main() { flags::main_run(&[" + ", ".join(f"&{m}::F" for m in mods) + "]); }")
        return "\n".join(o)
    try:
        def go(ib):
            i, b = ib
            mods = [(f"m{k}", emit(c), c[0]) for k, c in enumerate(b)]
            return batch.compile_run(d, i, mods, main, rb, opt=["-C", "opt-level=1", "-C", "debuginfo=0", "-C", "codegen-units=4"])
        n = 0
        for lines, dropped in common.pmap(go, [(i, b) for i, b in enumerate(bins) if b]):
            n += batch.merge(res, lines)
            for name, msgs in dropped.items():
                c = next(c for c in cs if c[0] == name)
                res.violate("compile:" + name, "valid bitflag declaration is rejected, or from_bits/into_bits are not usable in const context\n" + emit(c)[:1500] + "\n" + "\n".join(msgs)[:2500])
    finally:
        if not args.keep:
            shutil.rmtree(d, ignore_errors=True)
    res.notes["declarations_explored"] = n
    res.notes["exhaustive"] = True
    res.notes["bounds"] = ("all inputs for u8 and u16; for wider types every input within small distance or one bit flip of a variant value, its byte "
                           "reversal, complement, truncations and extensions, plus all inputs below 65536 and their byte reversals; all fallback placements x endianness products")
    res.assumptions.append("rustc is trusted; wider backing types are explored on the boundary alphabet")
