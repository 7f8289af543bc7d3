"""C21: a bounded grid of declarations; the compiler's verdict on each is compared with the acceptance model.

Every rejected case differs in one place from an accepted one, so a verdict cannot come from an unrelated mistake."""
import os
import shutil

import batch
import common
from layouts import INTS, L, F, fit_uint

OFF = ["new = false", "from_into_bits = false", "from_traits = false", "default = false", "debug = false", "bit_ops = false", "builder = false"]
PRE = """
#[derive(Debug, Clone, Copy, Default, PartialEq)]
pub struct Cu(u8);
impl Cu { pub const fn from_bits(b: u8) -> Self { Cu(b) } pub const fn into_bits(self) -> u8 { self.0 } }
pub const C5: u8 = 5;
pub const fn cf() -> u8 { 3 }
"""


class Grid:
    def __init__(self):
        self.acc, self.rej = [], []
        self.names = set()

    def add(self, ok, label, decl):
        base = label
        n = 0
        while label in self.names:
            n += 1
            label = f"{base}~{n}"
        self.names.add(label)
        (self.acc if ok else self.rej).append((label, decl))


def fill(n, k=0):
    """filler fields covering n bits"""
    out = []
    while n > 0:
        w = min(n, 128)
        out.append(f"    #[bits({w})] z{k}: {fit_uint(w)},")
        n -= w
        k += 1
    return out


def struct(storage, fields, args=(), kind="struct T"):
    return f"#[bitfield({', '.join([storage, *args])})]\n{kind} {{\n" + "\n".join(fields) + "\n}"


def storage_bits(s):
    return 8 * int(s.split(";")[1].strip(" ]")) if s[0] == "[" else INTS[s]


def lits(v, radix):
    s = "-" if v < 0 else ""
    a = abs(v)
    return s + {"d": f"{a}", "x": f"{a:#x}", "b": f"{a:#b}", "o": f"{a:#o}", "u": f"{a:_}", "X": "0x" + f"{a:_X}", "B": f"{a:#_b}"}[radix]


def grid(tier):
    g = Grid()
    full = tier != "quick"
    stor = ["u8", "u16", "u32", "u64", "u128", "[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 16]", "[u8; 17]", "[u8; 32]"]
    k = 0

    def args(o=None, cheap=True):
        return ([f"order = {o}"] if o else []) + (OFF if cheap else [])
    # widths per type: every width of every type; sums one short, one over; default at the ends of the range
    for t in [x for x in INTS] + ["bool"]:
        tb = INTS.get(t, 1)
        for w in range(1, tb + 1):
            k += 1
            if not full and tb > 16 and w % 8 not in (0, 1, 7) and w not in (tb // 2 + 3,):
                continue
            fits = [s for s in stor if storage_bits(s) >= w]
            for s in (fits if full else [fits[k % len(fits)], fits[(k // 3 + 1) % len(fits)]]):
                for o in ((None, "msb") if full else (("msb",) if k % 2 else (None,))):
                    rest = storage_bits(s) - w
                    tag = f"{t}_{w}_{s.replace(' ', '')}_{o or 'lsb'}"
                    cheap = not (k % 9 == 0 and storage_bits(s) <= 32)
                    a = args(o, cheap)
                    fld = f"    #[bits({w})] a: {t},"
                    g.add(True, f"width_{tag}", struct(s, [fld] + fill(rest), a))
                    g.add(True, f"width_last_{tag}", struct(s, fill(rest) + [fld], a))
                    if w == tb:
                        g.add(True, f"nowidth_{tag}", struct(s, [f"    a: {t},"] + fill(rest), a))
                    g.add(False, f"sum_over_{tag}", struct(s, [fld] + fill(rest + 1), a))
                    if rest:
                        g.add(False, f"sum_under_{tag}", struct(s, [fld] + fill(rest - 1), a))
                        g.add(False, f"sum_under_last_{tag}", struct(s, fill(rest - 1) + [fld], a))
                    g.add(False, f"sum_over_last_{tag}", struct(s, fill(rest + 1) + [fld], a))
                    if t != "bool":
                        rad = "dxbouXB"[k % 7]
                        sg = t[0] == "i"
                        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)

                        da = [x for x in a if not x.startswith("new")]

                        def dflt(v, suffix=""):
                            return struct(s, [f"    #[bits({w}, default = {lits(v, rad)}{suffix})] a: {t},"] + fill(rest), da)
                        g.add(True, f"default_max_{tag}", dflt(hi))
                        g.add(True, f"default_min_{tag}", dflt(lo))
                        if w < tb:
                            g.add(True, f"default_max_suffix_{tag}", dflt(hi, "" if rad in "xX" and t == "b" else "_" + t))
                        g.add(False, f"default_over_{tag}", dflt(1 << w))
                        g.add(False, f"default_over2_{tag}", dflt((1 << w) + 5 if w < 127 else (1 << w)))
                        g.add(False, "default_below_i128_min" if (t, w) == ("i128", 128) else f"default_under_{tag}", dflt(lo - 1))
                        if w == tb:
                            g.add(False, f"default_over_nowidth_{tag}", struct(s, [f"    #[bits(default = {lits(1 << w, rad)})] a: {t},"] + fill(rest), da))
        # width 0 and width above the type, wherever the storage has room for it
        for s in stor:
            if storage_bits(s) > tb + 1:
                for o in (None, "msb"):
                    a = args(o)
                    g.add(False, f"too_wide_{t}_{s}_{o}", struct(s, [f"    #[bits({tb + 1})] a: {t},"] + fill(storage_bits(s) - tb - 1), a))
                    g.add(False, f"too_wide_max_{t}_{s}_{o}", struct(s, [f"    #[bits({storage_bits(s)})] a: {t},"], a))
            for o in (None, "msb"):
                g.add(False, f"zero_{t}_{s}_{o}", struct(s, [f"    #[bits(0)] a: {t},"] + fill(storage_bits(s)), args(o)))
                g.add(False, f"zero_default_{t}_{s}_{o}", struct(s, fill(storage_bits(s)) + [f"    #[bits(0, default = {'false' if t == 'bool' else 0})] a: {t},"], args(o)))
    # out-of-range default literals with every suffix, access level and spelling of padding
    sfx = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
    smax = {x: (1 << 63) - 1 if x == "isize" else (1 << 64) - 1 if x == "usize" else (1 << (INTS[x] - (x[0] == "i"))) - 1 for x in sfx}
    for t in INTS:
        tb = INTS[t]
        for w in sorted({3, tb - 1, tb} if not full else {1, 2, 3, 5, tb // 2, tb - 1, tb}):
            for s in ("u128", "[u8; 16]", "[u8; 17]")[: 3 if full else 2]:
                rest = storage_bits(s) - w
                da = [x for x in args() if not x.startswith("new")]
                hi = (1 << w) - 1
                lo = -(1 << (w - 1))
                for x in sfx:
                    if hi + 1 <= smax[x]:
                        for v in (hi + 1, min(smax[x], hi + 9)):
                            g.add(False, f"suffix_{x}_{t}_{w}_{v}_{s}", struct(s, [f"    #[bits({w}, default = {v}{x})] a: {t},"] + fill(rest), da))
                    if t[0] == "i" and x[0] == "i" and -lo + 1 <= smax[x]:
                        g.add(False, f"suffix_neg_{x}_{t}_{w}_{s}", struct(s, [f"    #[bits({w}, default = -{-lo + 1}{x})] a: {t},"] + fill(rest), da))
                g.add(True, f"suffix_ok_{t}_{w}_{s}", struct(s, [f"    #[bits({w}, default = {hi if t[0] == 'u' else hi >> 1}{t})] a: {t},"] + fill(rest), da))
                if tb < 128:
                    for acc in ("rw", "ro", "wo", "na", "res"):
                        for o in (None, "msb"):
                            for pos in (0, 1):
                                nm = "_a" if acc == "res" else "a"
                                ac = "" if acc == "res" else f", access = {acc}"
                                for ok, v in ((False, hi + 1), (False, lo - 1 if t[0] == "i" else -1), (True, hi if t[0] == "u" else lo)):
                                    fl = [f"    #[bits({w}, default = {v}{ac})] {nm}: {t},"]
                                    g.add(ok, f"default_{acc}_{t}_{w}_{v}_{s}_{o}_{pos}", struct(s, fl + fill(rest) if pos == 0 else fill(rest) + fl, da + ([f"order = {o}"] if o else [])))
    for v in ("2", "1.0", '"true"', "-1", "yes"):
        for s in ("u8", "[u8; 1]"):
            g.add(False, f"bool_default_{v}_{s}", struct(s, [f"    #[bits(1, default = {v})] a: bool,"] + fill(7), [x for x in args() if not x.startswith("new")]))
    # byte-array fields
    for n in (1, 2, 3, 4, 16, 17):
        for s in stor:
            sb = storage_bits(s)
            ws = sorted({1, 7, 8, 8 * n - 1, 8 * n} & set(range(1, 8 * n + 1))) if not full else range(1, 8 * n + 1)
            for w in ws:
                if w <= sb:
                    for o in (None, "msb"):
                        g.add(True, f"bytes{n}_{w}_{s}_{o}", struct(s, [f"    #[bits({w})] a: [u8; {n}],"] + fill(sb - w), args(o)))
                        if w == 8 * n:
                            g.add(True, f"bytes{n}_nowidth_{s}_{o}", struct(s, [f"    a: [u8; {n}],"] + fill(sb - w), args(o)))
                        g.add(False, f"bytes{n}_{w}_over_{s}_{o}", struct(s, [f"    #[bits({w})] a: [u8; {n}],"] + fill(sb - w + 1), args(o)))
                        if w < sb:
                            g.add(False, f"bytes{n}_{w}_under_{s}_{o}", struct(s, [f"    #[bits({w})] a: [u8; {n}],"] + fill(sb - w - 1), args(o)))
            if sb >= 8 * n + 1:
                g.add(False, f"bytes{n}_too_wide_{s}", struct(s, [f"    #[bits({8 * n + 1})] a: [u8; {n}],"] + fill(sb - 8 * n - 1), args()))
            g.add(False, f"bytes{n}_zero_{s}", struct(s, [f"    #[bits(0)] a: [u8; {n}],"] + fill(sb), args()))
    for e in ("u16", "i8", "bool", "u128", "[u8; 1]"):
        g.add(False, f"elem_{e}", struct("u32", [f"    #[bits(8)] a: [{e}; 1],"] + fill(24), args()))
    g.add(False, "elem_len0", struct("u32", ["    #[bits(8)] a: [u8; 0],"] + fill(24), args()))
    # custom types need a width
    for s in stor:
        sb = storage_bits(s)
        for o in (None, "msb"):
            a = args(o)
            for w in range(1, 9):
                g.add(True, f"custom_{w}_{s}_{o}", struct(s, [f"    #[bits({w})] a: Cu,"] + fill(sb - w), a))
                g.add(True, f"custom_default_{w}_{s}_{o}", struct(s, [f"    #[bits({w}, default = Cu::from_bits(1))] a: Cu,"] + fill(sb - w), a))
            g.add(False, f"custom_nowidth_{s}_{o}", struct(s, ["    a: Cu,"] + fill(sb - 8), a))
            g.add(False, f"custom_only_default_{s}_{o}", struct(s, ["    #[bits(default = Cu::from_bits(1))] a: Cu,"] + fill(sb - 8), a))
            g.add(False, f"custom_only_access_{s}_{o}", struct(s, fill(sb - 8) + ["    #[bits(access = ro)] a: Cu,"], a))
            g.add(False, f"custom_zero_{s}_{o}", struct(s, ["    #[bits(0)] a: Cu,"] + fill(sb), a))
            g.add(False, f"custom_under_{s}_{o}", struct(s, ["    #[bits(5)] a: Cu,"] + fill(sb - 6), a))
            g.add(False, f"custom_over_{s}_{o}", struct(s, ["    #[bits(5)] a: Cu,"] + fill(sb - 4), a))
    # field types
    for t in ("f32", "f64", "usize", "isize", "char", "&'static str", "(u8, u8)", "()", "*const u8", "fn()"):
        for s in ("u64", "[u8; 8]"):
            g.add(False, f"type_{t}_{s}", struct(s, [f"    #[bits(8)] a: {t},"] + fill(56), args()))
            g.add(False, f"type_nowidth_{t}_{s}", struct(s, [f"    a: {t},"] + fill(56), args()))
    # storage types
    for s in ("i8", "i16", "i32", "i64", "i128", "usize", "isize", "f32", "f64", "bool", "char", "Cu", "()", "[u16; 2]", "[i8; 2]", "[u8; 0]",
              "[u32; 1]", "[bool; 8]", "&u8", "(u8,)", "[u8]", "String", "Vec<u8>"):
        for n in (8, 16, 32, 64):
            g.add(False, f"storage_{s}_{n}", struct(s, fill(n), args()))
    for s in stor:
        g.add(True, f"storage_{s}", struct(s, fill(storage_bits(s))))
        g.add(True, f"storage_trailing_{s}", struct(s + ",", fill(storage_bits(s))))
    g.add(False, "storage_missing", "#[bitfield()]\nstruct T { a: u8 }")
    g.add(False, "storage_missing2", "#[bitfield]\nstruct T { a: u8 }")
    g.add(False, "storage_missing3", "#[bitfield(order = lsb)]\nstruct T { a: u8 }")
    g.add(False, "storage_twice", "#[bitfield(u8, u8)]\nstruct T { a: u8 }")
    # arguments of #[bitfield]
    flags = ["new", "from_into_bits", "from_traits", "default", "debug", "copy", "bit_ops", "write_bit_ops", "clear_bit_ops",
             "set_get_bit_ops", "invert_bit_ops", "toggle_bit_ops", "builder", "array_heap"]
    for s, fl in (("u8", ["    a: u8,"]), ("[u8; 2]", ["    #[bits(9)] a: u16,", "    #[bits(7)] b: i8,"])):
        for f in flags:
            for v, ok in (("true", True), ("false", True), ("1", False), ("yes", False), ('"true"', False), ("0", False), ("lsb", False), ("on", False), ("TRUE", None)):
                if ok is not None:
                    g.add(ok, f"arg_{f}_{v}_{s[0]}", struct(s, fl, [f"{f} = {v}"]))
            g.add(False, f"arg_{f}_novalue_{s[0]}", struct(s, fl, [f"{f}"]))
            g.add(False, f"arg_{f}_noval2_{s[0]}", struct(s, fl, [f"{f} ="]))
            g.add(False, f"arg_{f}_call_{s[0]}", struct(s, fl, [f"{f}(true)"]))
            g.add(False, f"arg_{f}_colon_{s[0]}", struct(s, fl, [f"{f}: true"]))
            g.add(False, f"arg_{f}_typo_{s[0]}", struct(s, fl, [f"{f}s = true"]))
            g.add(False, f"arg_{f}_str_{s[0]}", struct(s, fl, [f'"{f}" = true']))
        for f, vals in (("order", ("lsb", "msb")), ("from_endian", ("little", "big")), ("into_endian", ("little", "big")), ("write_endian", ("little", "big"))):
            for v in vals:
                g.add(True, f"arg_{f}_{v}_{s[0]}", struct(s, fl, [f"{f} = {v}"]))
            for v in ("lsb", "msb", "little", "big", "true", "native", "le", "be", "1", '"lsb"', "ls", "lsbb", "lit tle"):
                if v not in vals:
                    g.add(False, f"arg_{f}_{v}_{s[0]}", struct(s, fl, [f"{f} = {v}"]))
            g.add(False, f"arg_{f}_novalue_{s[0]}", struct(s, fl, [f"{f}"]))
        for u in ("unknown", "endian", "generate_new", "disable_new", "access", "bits", "ignore", "heap", "msb", "derive_copy"):
            g.add(False, f"arg_unknown_{u}_{s[0]}", struct(s, fl, [f"{u} = true"]))
            g.add(False, f"arg_unknown_last_{u}_{s[0]}", struct(s, fl, ["order = msb", f"{u} = true"]))
    # arguments of #[bits]
    for s in ("u16", "[u8; 2]"):
        for o in (None, "msb"):
            a = args(o)

            def f1(x):
                return struct(s, [f"    {x} a: u8,", "    #[bits(8)] b: u8,"], [y for y in a if not y.startswith("new")])
            for v, ok in (("rw", True), ("ro", True), ("wo", True), ("na", True), ("r", False), ("w", False), ("rx", False), ("none", False), ("read", False), ("true", False), ("1", False), ('"rw"', False)):
                g.add(ok, f"access_{v}_{s[0]}_{o}", f1(f"#[bits(8, access = {v})]"))
                g.add(ok, f"access_only_{v}_{s[0]}_{o}", f1(f"#[bits(access = {v})]"))
            for x in ("#[bits(8, access)]", "#[bits(8, access =)]", "#[bits(8, default)]", "#[bits(8, default =)]", "#[bits(8, unknown = 1)]", "#[bits(8, bits = 8)]",
                      "#[bits(8, order = msb)]", "#[bits(8, 8)]", "#[bits(-8)]", "#[bits(8u8)]", "#[bits(8u32)]", "#[bits(4294967296)]", "#[bits(99999999999999999999)]",
                      "#[bits(8.0)]", '#[bits("8")]', "#[bits = 8]", "#[bits]", "#[bits(8, ignore = maybe)]", "#[bits(8, ignore)]", "#[bits(8, access(ro))]",
                      "#[bits(8, default = 1.5)]", "#[bits(8, default = 1f32)]", "#[bits(8, default = 3f64)]", "#[bits(8, default = nope)]", "#[bits(8, default = C5 as)]",
                      "#[bits(eight)]", "#[bits(8, rw)]", "#[bits(8, ro)]", "#[bits(8, default = -1)]", "#[bits(8, default = 256)]", "#[bits(8, default = 0x100)]",
                      "#[bits(8, default = 0b1_0000_0000)]", "#[bits(8, default = 0o400)]", "#[bits(default = 256)]", "#[bits(default = -1)]"):
                g.add(False, f"bits_{x}_{s[0]}_{o}", f1(x))
            for x in ("#[bits(8)]", "#[bits(0x8)]", "#[bits(0b1000)]", "#[bits(8,)]", "#[bits(8, default = 255)]", "#[bits(8, default = 0xFF)]", "#[bits(8, default = 0xff_u8)]",
                      "#[bits(8, default = 0b1111_1111)]", "#[bits(8, default = 0o377)]", "#[bits(8, default = C5)]", "#[bits(8, default = cf())]", "#[bits(default = 5)]",
                      "#[bits(access = ro, default = 5)]", "#[bits(default = 5, access = ro)]", "#[bits(8, default = self::C5)]", "#[bits(8, ignore = false)]",
                      "#[doc = \"x\"] #[bits(8)]", "#[bits(8)] #[doc = \"x\"]", "#[allow(dead_code)]", ""):
                g.add(True, f"bits_{x}_{s[0]}_{o}", f1(x))
            for x in ("rw", "ro", "wo", "na"):
                g.add(False, f"padding_access_{x}_{s[0]}_{o}", struct(s, [f"    #[bits(8, access = {x})] _a: u8,", "    #[bits(8)] b: u8,"], a))
            g.add(True, f"padding_{s[0]}_{o}", struct(s, ["    _a: u8,", "    #[bits(8)] b: u8,"], a))
            g.add(True, f"padding_w_{s[0]}_{o}", struct(s, ["    #[bits(7)] _a: u8,", "    #[bits(9)] b: u16,"], a))
            g.add(True, f"padding_d_{s[0]}_{o}", struct(s, ["    #[bits(8, default = 200)] _a: u8,", "    #[bits(8)] __: u8,"], a))
            g.add(True, f"padding_same_{s[0]}_{o}", struct(s, ["    #[bits(3)] __: u8,", "    #[bits(5)] __: u8,", "    #[bits(8, default = 1)] __: u8,"], a))
            g.add(False, f"padding_over_{s[0]}_{o}", struct(s, ["    #[bits(7)] _a: u8,", "    #[bits(10)] b: u16,"], a))
            g.add(False, f"padding_under_{s[0]}_{o}", struct(s, ["    #[bits(7)] _a: u8,", "    #[bits(8)] b: u16,"], a))
            g.add(False, f"padding_default_over_{s[0]}_{o}", struct(s, ["    #[bits(7, default = 128)] _a: u8,", "    #[bits(9)] b: u16,"], a))
            g.add(False, f"dup_field_{s[0]}_{o}", struct(s, ["    #[bits(8)] b: u8,", "    #[bits(8)] b: u8,"], a))
            # ignored fields take no bits
            for pos in range(3):
                fl = ["    #[bits(8)] a: u8,", "    #[bits(8)] b: u8,"]
                fl.insert(pos, "    #[bits(ignore = true)] x: u64,")
                g.add(True, f"ignored_{pos}_{s[0]}_{o}", struct(s, fl, a))
                fl[fl.index("    #[bits(8)] b: u8,")] = "    #[bits(7)] b: u8,"
                g.add(False, f"ignored_under_{pos}_{s[0]}_{o}", struct(s, fl, a))
                fl[fl.index("    #[bits(7)] b: u8,")] = "    #[bits(9)] b: u16,"
                g.add(False, f"ignored_over_{pos}_{s[0]}_{o}", struct(s, fl, a))
            for t in ("f32", "usize", "Option<u8>", "[u16; 4]", "Cu", "(u8, i16)", "String"):
                g.add(True, f"ignored_type_{t}_{s[0]}_{o}", struct(s, ["    #[bits(8)] a: u8,", f"    #[bits(ignore = true)] x: {t},", "    #[bits(8)] b: u8,"], a + ["copy = false"]))
            g.add(False, f"not_ignored_{s[0]}_{o}", struct(s, ["    #[bits(8)] a: u8,", "    #[bits(ignore = false)] x: u64,", "    #[bits(8)] b: u8,"], a))
        for kw, body in (("enum T", "{ A, B }"), ("union T", "{ a: u8 }"), ("fn t()", "{}"), ("struct T", "(u8, u8);"), ("struct T", ";"), ("trait T", "{}"), ("mod t", "{}")):
            g.add(False, f"item_{kw}_{body}_{s[0]}", f"#[bitfield({s})]\n{kw} {body}")
    # bitflags
    def flag(arg, variants):
        return f"#[bitflag({arg})]\nenum T {{ {variants} }}"
    for t in ("u8", "u16", "u32", "u64", "u128"):
        tb = INTS[t]
        top = (1 << tb) - 1
        g.add(True, f"flag_{t}", flag(t, "#[base] A = 0, B = 1, C = 2"))
        g.add(True, f"flag_default_{t}", f"#[bitflag({t})]\n#[derive(Default)]\nenum T {{ A = 1, #[default] B = 2 }}")
        g.add(True, f"flag_both_{t}", f"#[bitflag({t})]\n#[derive(Default)]\nenum T {{ #[base] A = 1, #[default] B = 2 }}")
        g.add(True, f"flag_same_{t}", f"#[bitflag({t})]\n#[derive(Default)]\nenum T {{ #[base] #[default] A = 1, B = 2 }}")
        g.add(True, f"flag_one_{t}", flag(t, "#[base] A = 0"))
        for rad in "dxbo":
            g.add(True, f"flag_max_{rad}_{t}", flag(t, f"#[base] A = 0, B = {lits(top, rad)}"))
            g.add(False, f"flag_over_{rad}_{t}", flag(t, f"#[base] A = 0, B = {lits(top + 1, rad)}"))
        for v in ("1", "0x10", "0b1_0", "0o7", f"3{t}", "1_0"):
            g.add(True, f"flag_lit_{v}_{t}", flag(t, f"#[base] A = 0, B = {v}"))
        g.add(False, f"flag_neg_{t}", flag(t, "#[base] A = 0, B = -1"))
        g.add(False, f"flag_float_{t}", flag(t, "#[base] A = 0, B = 1.0"))
        g.add(False, f"flag_nofallback_{t}", flag(t, "A = 0, B = 1"))
        g.add(False, f"flag_nofallback1_{t}", flag(t, "A = 0"))
        g.add(False, f"flag_twobase_{t}", flag(t, "#[base] A = 0, #[base] B = 1"))
        g.add(False, f"flag_threebase_{t}", flag(t, "#[base] A = 0, #[base] B = 1, #[base] C = 2"))
        g.add(False, f"flag_novalue_{t}", flag(t, "#[base] A = 0, B"))
        g.add(False, f"flag_novalue_base_{t}", flag(t, "#[base] A, B = 1"))
        g.add(False, f"flag_novalue_all_{t}", flag(t, "#[base] A, B"))
        g.add(False, f"flag_empty_{t}", flag(t, ""))
        for a in ("from_endian = little", "from_endian = big", "into_endian = little", "into_endian = big", "copy = true", "copy = false",
                  "from_endian = little, into_endian = big, copy = false"):
            g.add(True, f"flag_arg_{a}_{t}", flag(f"{t}, {a}", "#[base] A = 0, B = 1"))
        for a in ("from_endian = native", "into_endian = le", "copy = 1", "copy = yes", "copy", "from_endian", "unknown = true", "order = lsb", "write_endian = big",
                  "debug = true", "from_endian =", "new = false"):
            g.add(False, f"flag_arg_{a}_{t}", flag(f"{t}, {a}", "#[base] A = 0, B = 1"))
    for t in ("i8", "i16", "i32", "i64", "i128", "usize", "isize", "f32", "f64", "bool", "char", "[u8; 1]", "Cu", "", "copy = true", "()"):
        g.add(False, f"flag_type_{t}", flag(t, "#[base] A = 0, B = 1"))
    g.add(False, "flag_struct", "#[bitflag(u8)]\nstruct T { a: u8 }")
    g.add(False, "flag_noargs", "#[bitflag]\nenum T { #[base] A = 0, B = 1 }")
    # a default that calls a function named like a local variable of the generated code (recorded finding)
    g.add(True, "default_fn_named_like_local", "\n".join(f"pub const fn {n}() -> u8 {{ 1 }}" for n in ("bits", "this", "value", "mask")) + "\n" + struct(
        "u32", ["    #[bits(8, default = bits())] a: u8,", "    #[bits(8, default = this(), access = ro)] b: u8,", "    #[bits(8, default = value())] c: u8,",
                "    #[bits(8, default = mask(), access = ro)] d: u8,"]))
    g.add(True, "default_fn_named_plainly", "\n".join(f"pub const fn {n}() -> u8 {{ 1 }}" for n in ("initial", "the_default")) + "\n" + struct(
        "u32", ["    #[bits(8, default = initial())] a: u8,", "    #[bits(8, default = the_default(), access = ro)] b: u8,", "    #[bits(8, default = initial() + the_default())] c: u8,",
                "    #[bits(8, default = Self::PICK)] d: u8,"]) + "\nimpl T { const PICK: u8 = 9; }")
    return g


def source(decl):
    return "#![allow(warnings)]\n#![deny(overflowing_literals)]\nuse bitfields::{bitfield, bitflag};\n" + PRE + decl + "\n"


def compile_batch(d, idx, items, rb):
    """-> {label: [rendered errors]}, other errors, return code"""
    cd = os.path.join(d, f"b{idx}")
    os.makedirs(cd)
    by = {}
    for k, (label, decl) in enumerate(items):
        by[f"m{k}.rs"] = label
        with open(os.path.join(cd, f"m{k}.rs"), "w") as fh:
            fh.write(source(decl))
    with open(os.path.join(cd, "lib.rs"), "w") as fh:
        fh.write("#![allow(warnings)]\n" + "\n".join(f"pub mod m{k};" for k in range(len(items))))
    rc, out, err = common.sh(common.rustc_args(rb, ["--error-format=json", "--crate-type", "lib", "--emit=metadata", "--crate-name", "probe",
                                                    "--out-dir", cd, os.path.join(cd, "lib.rs")]), timeout=820)
    shutil.rmtree(cd, ignore_errors=True)
    if rc in (-9, -15, -999):
        raise common.CheckError("compiler ended by signal or timeout")
    hit, other = {}, []
    for msg, code, spans, rendered in common.parse_diags(err):
        files = {os.path.basename(s[0]) for s in spans} & set(by)
        for f in files:
            hit.setdefault(by[f], []).append(rendered)
        if not files and "aborting due to" not in msg and "could not compile" not in msg:
            other.append(rendered)
    return hit, other, rc


def run(tier, res, args):
    rb = common.build_repo()
    g = grid(tier)
    acc, rej = g.acc, g.rej
    if args.only:
        acc, rej = [x for x in acc if args.only in x[0]], [x for x in rej if args.only in x[0]]
    d = batch.workdir("C21", tier)
    nb = 8 if tier == "quick" else 32
    try:
        def accept(ib):
            i, b = ib
            out = []
            for rnd in range(8):
                hit, other, rc = compile_batch(d, f"a{i}_{rnd}", b, rb)
                if rc == 0:
                    break
                if not hit:
                    out.append(("batch", "", "\n".join(other)))
                    break
                for l, m in hit.items():
                    out.append((l, dict(b)[l], "\n".join(m[:3])))
                b = [x for x in b if x[0] not in hit]
                if not b:
                    break
            return out

        def reject(ib):
            """compile repeatedly, each time without the declarations already rejected; what finally compiles was accepted"""
            i, b = ib
            reasons = {}
            for rnd in range(12):
                if not b:
                    return [], reasons
                hit, other, rc = compile_batch(d, f"r{i}_{rnd}", b, rb)
                if rc == 0:
                    return b, reasons
                if not hit:
                    raise common.CheckError("unattributed compiler error: " + "\n".join(other)[:1500])
                for l, m in hit.items():
                    reasons[l] = m[0].splitlines()[0] if m[0] else ""
                b = [x for x in b if x[0] not in hit]
            return [], reasons
        jobs = [("a", (i, acc[i::nb])) for i in range(nb)] + [("r", (i, rej[i::nb])) for i in range(nb)]
        outs = common.pmap(lambda j: (j[0], accept(j[1]) if j[0] == "a" else reject(j[1])), [j for j in jobs if j[1][1]])
        kinds = {}
        for k, o in outs:
            if k == "a":
                for label, decl, msg in o:
                    res.violate(f"rejected:{label.replace(' ', '_')}", f"a valid declaration does not compile\n--- declaration\n{decl}\n--- compiler\n{msg[:2500]}")
            else:
                for label, decl in o[0]:
                    res.violate(f"accepted:{label.split('~')[0].replace(' ', '_')}", f"an invalid declaration compiles\n--- declaration\n{decl}")
                for l, m in o[1].items():
                    kinds.setdefault(m[:60], l)
    finally:
        if not args.keep:
            shutil.rmtree(d, ignore_errors=True)
    res.cov["states"] = len(acc) + len(rej)
    res.cov["transitions"] = len(acc) + len(rej)
    res.cov["traces_validated_against_impl"] = len(acc) + len(rej)
    res.cov["samples"] = [f"{m} <- {l}" for m, l in list(kinds.items())[:12]] or ["none"]
    res.notes.update(valid_declarations=len(acc), invalid_declarations=len(rej), distinct_rejection_messages=len(kinds), exhaustive=True,
                     bounds="every integer type x width (quick: every width up to 16, widths 8k-1, 8k, 8k+1 above), sums -1/0/+1, default literals at both ends of the range in all "
                            "radices, byte-array and custom fields over every storage, every argument with right and wrong values, bitflags of every type")
    res.assumptions.append("a rejected declaration differs in one place from an accepted one of the grid; rustc reports every declaration's error in its own module")
