"""Catalogue of bitfield declarations explored by the checks.

Everything here is enumerated systematically (no random choice): families of
declarations over backing storage x order x field kinds x access x defaults.
Offsets are computed here from the documentation, not taken from the code.
"""
import itertools

INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
# custom types of harness/prelude.rs: name -> (type bits, canonicaliser, default expr maker)
CUSTOM = {
    "N8": (8, "ident"), "N16": (16, "ident"), "N32": (32, "ident"),
    "N64": (64, "ident"), "N128": (128, "ident"),
    "E2": (8, "canon_e2"),      # hand written enum, 2 bits, bijective on 0..=3
    "E3": (8, "canon_e3"),      # hand written enum, 3 bits, 5 variants, rest -> variant 0
    "FL3": (8, "canon_fl3"),    # #[bitflag(u8)] 3 bits
    "NB8": (8, "ident"),        # nested #[bitfield(u8)]
    "NB16": (16, "ident"),      # nested #[bitfield(u16)]
    "NB128": (128, "ident"),    # nested #[bitfield(u128)]
    "Gen<3>": (16, "ident"),    # generic user type
    "Gen<{ 1 + 4 }>": (16, "ident"),
}
LOSSY = {"E2", "E3", "FL3"}


class F:
    def __init__(self, name, ty, bits=None, acc="rw", default=None, dval=None, attr=None, vis=""):
        self.name, self.ty, self.acc, self.vis = name, ty, acc, vis
        self.bits_attr = bits
        self.reserved = name.startswith("_")
        if ty in INTS:
            self.tyb = INTS[ty]
            self.kind = "S" if ty[0] == "i" else "U"
        elif ty == "bool":
            self.tyb, self.kind = 1, "B"
        elif ty.startswith("["):
            self.tyb = 8 * int(ty.split(";")[1].strip(" ]"))
            self.kind = "A"
        else:
            self.tyb = CUSTOM[ty][0]
            self.kind = "L" if ty in LOSSY else "C"
        self.bits = bits if bits is not None else self.tyb
        # default: int value (pattern computed) or (expr, value)
        self.default = default
        self.attr = attr
        self.more = []  # arguments written out although they say what holds anyway

    def default_expr(self):
        d = self.default
        if d is None:
            return None
        if isinstance(d, tuple):
            return d[0]
        if self.ty == "bool":
            return "true" if d else "false"
        if self.ty in CUSTOM:
            return f"{'mkgen::' + self.ty[3:] if '<' in self.ty else self.ty.lower()}({d})"
        return str(d)

    def default_value(self):
        d = self.default
        if d is None:
            return None
        v = d[1] if isinstance(d, tuple) else d
        return int(v) & ((1 << self.tyb) - 1)

    def has_attr(self):
        return self.bits_attr is not None or self.default is not None or self.acc != "rw"

    def decl(self):
        a = []
        if self.bits_attr is not None:
            a.append(str(self.bits_attr))
        if self.default is not None:
            a.append(f"default = {self.default_expr()}")
        if self.acc != "rw":
            a.append(f"access = {self.acc}")
        a += self.more
        s = f"#[bits({', '.join(a)})] " if a else ""
        return f"{s}{self.vis}{self.name}: {self.ty},"


class L:
    def __init__(self, name, backing, fields, order=None, frm=None, into=None, write=None,
                 heap=None, ignored=(), extra=(), tags="", vis="", tname="T", scope=""):
        self.tname, self.scope, self.text = tname, scope, None
        self.name, self.backing, self.fields = name, backing, fields
        self.order, self.frm, self.into, self.write, self.heap = order, frm, into, write, heap
        self.ignored, self.extra, self.vis = list(ignored), list(extra), vis
        self.tags = set(tags.split())
        if backing.startswith("["):
            self.array = True
            self.nbytes = int(backing.split(";")[1].strip(" ]"))
            self.bits = 8 * self.nbytes
        else:
            self.array = False
            self.bits = INTS[backing]
            self.nbytes = self.bits // 8
        tot = 0
        for f in fields:
            f.off = (self.bits - f.bits - tot) if order == "msb" else tot
            tot += f.bits
        assert tot == self.bits, (name, tot, self.bits)

    def attr(self):
        a = [self.backing]
        if self.order:
            a.append(f"order = {self.order}")
        if self.frm:
            a.append(f"from_endian = {self.frm}")
        if self.into:
            a.append(f"into_endian = {self.into}")
        if self.write:
            a.append(f"write_endian = {self.write}")
        if self.heap:
            a.append("array_heap = true")
        a += self.extra
        return ", ".join(a)

    def decl(self):
        if self.text is not None:
            return self.text
        lines = [f"#[bitfield({self.attr()})]", f"{self.vis}struct {self.tname} {{"]
        items = [("b", f) for f in self.fields]
        for pos, name, ty in self.ignored:
            items.insert(min(pos, len(items)), ("i", (name, ty)))
        for k, f in items:
            if k == "b":
                lines.append("    " + f.decl())
            else:
                lines.append(f"    #[bits(ignore = true)] {f[0]}: {f[1]},")
        lines.append("}")
        return "\n".join(lines)


# --------------------------------------------------------------------------- families
def fit_uint(bits):
    for t in ("u8", "u16", "u32", "u64", "u128"):
        if INTS[t] >= bits:
            return t
    return None


def compositions(n):
    for m in range(1 << (n - 1)):
        out, cur = [], 1
        for i in range(n - 1):
            if (m >> i) & 1:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        out.append(cur)
        yield out


NOBIT = ["bit_ops = false", "from_into_bits = false", "from_traits = false", "debug = false"]


def fam_compositions(backing="u8", every=1, extra=NOBIT, heap=False):
    """every composition of 8 bits into fields, both orders, mixed kinds by width"""
    out = []
    for i, comp in enumerate(compositions(8)):
        if i % every:
            continue
        for order in (None, "msb"):
            fs = []
            for j, w in enumerate(comp):
                if w == 1:
                    ty = ("bool", "u8", "i8")[(i + j) % 3]
                else:
                    ty = ("u8", "i8", "u8", "u16", "i32")[(i + j) % 5]
                    if ty in ("u16", "i32") and w == 8:
                        ty = "u8"
                fs.append(F(f"f{j}", ty, w))
            out.append(L(f"comp_{'a' if backing[0]=='[' else 'i'}{'h' if heap else ''}_{i}_{order or 'lsb'}", backing, fs, order=order,
                         extra=extra, heap=heap, tags="comp"))
    return out


KINDS8 = {  # kind -> (type, width, default options)
    "u": ("u8", 3, 5), "s": ("i8", 3, -3), "b": ("bool", 1, 1), "c": ("N8", 3, 6),
    "uw": ("u16", 3, 6), "sw": ("i32", 3, 3),
}


def fam_access(backing="u8", order=None, kinds=None, heap=False):
    """one target field of every (kind, access, default?) between two plain neighbours"""
    out = []
    for kn, (ty, w, dv) in (kinds or KINDS8).items():
        for acc in ("rw", "ro", "wo", "na", "res"):
            for hasd in (False, True):
                name = "_t" if acc == "res" else "t"
                t = F(name, ty, w, acc="rw" if acc == "res" else acc, default=dv if hasd else None)
                rest = 8 - 2 - w
                fs = [F("a", "u8", 2, default=2), t, F("z", "u8", rest)]
                out.append(L(f"acc_{'a' if backing[0]=='[' else 'i'}{'h' if heap else ''}_{order or 'lsb'}_{kn}_{acc}_{'d' if hasd else 'n'}",
                             backing, fs, order=order, heap=heap, tags="acc " + kn))
    return out


def fam_access2():
    """several protected fields side by side: pairs of access modes, adjacent and separated"""
    out = []
    accs = ("rw", "ro", "wo", "na", "res")
    for i, (p, q) in enumerate(itertools.product(accs, accs)):
        for backing in ("u8", "[u8; 1]"):
            order = "msb" if i % 2 else None
            def mk(nm, a, w, d):
                return F(("_" if a == "res" else "") + nm, "u8", w, acc="rw" if a == "res" else a, default=d)
            fs = [mk("p", p, 3, 5 if i % 3 else None), mk("q", q, 2, None if i % 3 == 1 else 2), F("m", "u8", 2), mk("r", p, 1, 1 if i % 2 else None)]
            out.append(L(f"acc2_{'a' if backing[0]=='[' else 'i'}_{p}_{q}", backing, fs, order=order, tags="acc"))
    return out


def W(widths_types, prefix="f", **kw):
    fs = []
    for j, it in enumerate(widths_types):
        ty, w = it[0], it[1]
        acc = it[2] if len(it) > 2 else "rw"
        d = it[3] if len(it) > 3 else None
        nm = f"_{prefix}{j}" if acc == "res" else f"{prefix}{j}"
        fs.append(F(nm, ty, w, acc="rw" if acc == "res" else acc, default=d))
    return fs


WIDE = {
    "u16": [
        [("u8", 5), ("i16", 9), ("bool", 1), ("u8", 1)],
        [("u16", 16)],
        [("i16", 16, "rw", -2)],
        [("u8", 3, "ro", 5), ("u16", 10, "rw", 0x2A5), ("i8", 3, "wo", -1)],
        [("u8", 4), ("u8", 4, "res", 9), ("i8", 4, "na", -2), ("u32", 4, "rw", 11)],
        [("N16", 11, "rw", 0x511), ("bool", 1, "rw", 1), ("E2", 2, "rw", 2), ("u8", 2, "res")],
    ],
    "u32": [
        [("u8", 7), ("u16", 13), ("i32", 11), ("bool", 1)],
        [("u32", 32, "rw", 0xDEADBEEF)],
        [("u8", 8, "ro", 0xC3), ("u8", 8, "wo", 0x5A), ("u8", 8, "na", 0x99), ("u8", 8, "rw", 0x17)],
        [("i8", 5, "rw", -9), ("i16", 12, "ro", -1000), ("i32", 15, "wo", -7777)],
        [("u64", 20, "rw", 0xABCDE), ("u128", 11), ("bool", 1, "ro", 1)],
        [("u32", 31, "rw", 0x40000001), ("bool", 1, "res", 1)],
    ],
    "u64": [
        [("u32", 31), ("u32", 32), ("bool", 1)],
        [("u64", 64, "rw", 0xFEDCBA9876543210)],
        [("i64", 33, "rw", -(1 << 32)), ("i32", 31, "ro", -5)],
        [("u64", 40, "ro", 0xAAAAAAAAAA), ("u8", 4, "res", 6), ("u16", 16, "wo", 0xBEEF), ("u8", 4)],
        [("i64", 64, "rw", -1)],
        [("u8", 1), ("u64", 62), ("u8", 1, "na", 1)],
    ],
    "u128": [
        [("u64", 63), ("u64", 64), ("bool", 1)],
        [("u128", 128, "rw", (1 << 127) + 0x1234567)],
        [("i128", 128, "rw", -(1 << 127))],
        [("i128", 100, "rw", -3), ("u32", 20, "ro", 0xFFFFF), ("u8", 8, "res", 0x81)],
        [("u128", 65, "rw", 1 << 64), ("i64", 57, "wo", -2), ("u8", 6, "na", 0x2A)],
        [("u8", 8), ("u128", 119), ("bool", 1, "rw", 1)],
        [("i64", 64, "ro", -9), ("i64", 63), ("u8", 1)],
        [("N128", 70, "rw", (1 << 69) + 5), ("N64", 58)],
    ],
    "[u8; 2]": [
        [("u8", 5), ("i16", 9), ("bool", 1), ("u8", 1)],
        [("u8", 3, "ro", 5), ("u16", 10, "rw", 0x2A5), ("i8", 3, "wo", -1)],
        [("u8", 4), ("u8", 4, "res", 9), ("i8", 4, "na", -2), ("u32", 4, "rw", 11)],
        [("i16", 16, "rw", -2)],
        [("N16", 11, "rw", 0x511), ("bool", 1, "rw", 1), ("E2", 2, "rw", 2), ("u8", 2, "res")],
    ],
    "[u8; 3]": [
        [("u8", 7, "rw", 100), ("u16", 10, "ro", 700), ("i8", 7, "rw", -33)],
        [("u32", 24, "rw", 0x123456)],
        [("u8", 1), ("u16", 15, "wo", 0x7001), ("u8", 8, "res", 0xEE)],
    ],
    "[u8; 4]": [
        [("u8", 7), ("u16", 13), ("i32", 11), ("bool", 1)],
        [("u8", 8, "ro", 0xC3), ("u8", 8, "wo", 0x5A), ("u8", 8, "na", 0x99), ("u8", 8, "rw", 0x17)],
        [("i8", 5, "rw", -9), ("i16", 12, "ro", -1000), ("i32", 15, "wo", -7777)],
        [("u64", 20, "rw", 0xABCDE), ("u128", 11), ("bool", 1, "ro", 1)],
    ],
    "[u8; 5]": [
        [("u64", 39, "rw", 0x5555555555), ("bool", 1, "rw", 1)],
        [("u8", 6, "ro", 33), ("u32", 29, "rw", 0x10000001), ("i8", 5, "rw", -16)],
    ],
    "[u8; 8]": [
        [("i64", 33, "rw", -(1 << 32)), ("i32", 31, "ro", -5)],
        [("u64", 64, "rw", 0xFEDCBA9876543210)],
        [("u8", 1), ("u64", 62), ("u8", 1, "na", 1)],
    ],
    "[u8; 9]": [
        [("u64", 63), ("u16", 9, "ro", 0x155)],
        [("u128", 72, "rw", (0x81 << 64) + 7)],
    ],
    "[u8; 16]": [
        [("u128", 128, "rw", (1 << 127) + 0x1234567)],
        [("i128", 128, "rw", -(1 << 127))],
        [("i128", 100, "rw", -3), ("u32", 20, "ro", 0xFFFFF), ("u8", 8, "res", 0x81)],
        [("N128", 70, "rw", (1 << 69) + 5), ("N64", 58)],
    ],
    "[u8; 17]": [
        [("u128", 128, "rw", (1 << 127) + 0x77), ("u8", 8, "rw", 0xA5)],
        [("u8", 3), ("i128", 127, "rw", -4), ("u8", 6, "ro", 0x2D)],
        [("u64", 64, "wo", 1 << 63), ("u64", 64, "na", 3), ("i8", 8, "rw", -128)],
    ],
    "[u8; 20]": [
        [("u128", 121, "rw", (1 << 120) + 1), ("u32", 31, "ro", 0x7FFFFFFE), ("u8", 8, "res", 0x3C)],
    ],
    "[u8; 33]": [
        [("u128", 128), ("u128", 128, "ro", 0x123), ("u8", 4, "rw", 9), ("i8", 4, "rw", -8)],
    ],
    "[u8; 96]": [
        [(t, w) for t, w in [("u128", 128)] * 5] + [("i128", 100, "rw", -77), ("u32", 20, "ro", 0xABCDE), ("u8", 8, "res", 0x42)],
    ],
}


def fam_wide(only=None, heap_too=True, tags="wide", extra=()):
    out = []
    for backing, lst in WIDE.items():
        if only and not only(backing):
            continue
        for i, spec in enumerate(lst):
            for order in (None, "msb"):
                nm = backing.replace("[u8; ", "arr").replace("]", "")
                out.append(L(f"wide_{nm}_{i}_{order or 'lsb'}", backing, W(spec), order=order, tags=tags, extra=extra))
                if heap_too and backing[0] == "[" and (i == 0 or backing in ("[u8; 2]", "[u8; 17]")):
                    out.append(L(f"wideh_{nm}_{i}_{order or 'lsb'}", backing, W(spec), order=order, heap=True, tags=tags, extra=extra))
    return out


ENDSPEC = {
    "u8": [("u8", 3, "rw", 5), ("u8", 5, "ro", 9)],
    "u16": [("u8", 8, "rw", 0x12), ("u8", 4, "ro", 9), ("u8", 4)],
    "u32": [("u8", 8), ("u16", 16, "rw", 0xBEEF), ("u8", 4, "res", 9), ("u8", 4, "wo", 3)],
    "u64": [("u32", 32, "rw", 0x11223344), ("u16", 16), ("u8", 8, "ro", 0x77), ("u8", 8, "na", 0x5A)],
    "u128": [("u64", 64, "rw", 0x1122334455667788), ("u32", 32), ("u16", 16, "ro", 0x9999), ("u8", 8), ("u8", 8, "res", 0xC1)],
    "[u8; 1]": [("u8", 3, "rw", 5), ("u8", 5, "ro", 9)],
    "[u8; 2]": [("u8", 8, "rw", 0x12), ("u8", 4, "ro", 9), ("u8", 4)],
    "[u8; 3]": [("u8", 8, "rw", 0x12), ("u16", 12, "wo", 0x9AB), ("u8", 4, "res", 6)],
    "[u8; 4]": [("u8", 8), ("u16", 16, "rw", 0xBEEF), ("u8", 4, "res", 9), ("u8", 4, "na", 3)],
    "[u8; 17]": [("u128", 128, "rw", 0x0102030405060708), ("u8", 8, "ro", 0xA5)],
}


def fam_endian(array):
    out = []
    for backing, spec in ENDSPEC.items():
        if (backing[0] == "[") != array:
            continue
        for k, (a, b, c) in enumerate(itertools.product((None, "little"), ("big", "little"), (None, "little"))):
            nm = backing.replace("[u8; ", "arr").replace("]", "")
            order = "msb" if k % 2 else None
            out.append(L(f"end_{nm}_{a or 'd'}_{b}_{c or 'd'}", backing, W(spec), order=order, frm=a, into=b, write=c,
                         heap=array and k in (3, 4), tags="end"))
    return out


def fam_custom():
    out = []
    specs = [
        ("u8", [("N8", 3), ("u8", 2), ("N8", 3, "rw", 6)]),
        ("u8", [("E2", 2, "rw", 2), ("E3", 3), ("u8", 3)]),
        ("u8", [("FL3", 3, "rw", 4), ("u8", 2, "ro", 3), ("FL3", 3)]),
        ("u8", [("NB8", 8, "rw", 0x5A)]),
        ("u8", [("N8", 4, "ro", 9), ("N8", 4, "wo", 5)]),
        ("u8", [("E2", 2, "ro", 3), ("N8", 3, "na", 5), ("N8", 3, "res", 2)]),
        ("u8", [("N16", 5, "rw", 17), ("N32", 3)]),
        ("u8", [("N8", 5), ("E3", 3, "ro", 3)]),
        ("u8", [("N8", 8)]),
        ("u16", [("NB8", 8), ("N8", 5, "rw", 21), ("E3", 3, "rw", 2)]),
        ("u16", [("NB16", 16, "rw", 0xBEEF)]),
        ("u16", [("N8", 7), ("u8", 2, "ro", 1), ("N16", 7, "wo", 100)]),
        ("u32", [("NB16", 16), ("NB8", 8, "ro", 0x3C), ("N8", 8, "rw", 0x81)]),
        ("u32", [("N32", 29, "rw", 0x1ABCDEF0), ("E3", 3)]),
        ("u64", [("N64", 61, "rw", (1 << 60) + 3), ("FL3", 3)]),
        ("u64", [("N32", 32), ("N32", 30, "ro", 0x2AAAAAAA), ("E2", 2)]),
        ("u128", [("N128", 127, "rw", (1 << 126) + 9), ("bool", 1)]),
        ("u128", [("N64", 64), ("NB16", 16, "rw", 0x1234), ("N64", 48)]),
        ("u128", [("NB128", 128, "rw", (1 << 127) + 3)]),
        ("u8", [("Gen<3>", 4, "rw", 9), ("Gen<{ 1 + 4 }>", 4, "ro", 6)]),
        ("u32", [("Gen<{ 1 + 4 }>", 12, "wo", 0x9AB), ("Gen<3>", 16), ("Gen<3>", 4, "ro", 13)]),
    ]
    arr = {"u8": "[u8; 1]", "u16": "[u8; 2]", "u32": "[u8; 4]", "u64": "[u8; 8]", "u128": "[u8; 16]"}
    for i, (b, spec) in enumerate(specs):
        for order in (None, "msb"):
            out.append(L(f"cust_{i}_{order or 'lsb'}", b, W(spec), order=order, tags="cust"))
        out.append(L(f"custa_{i}", arr[b], W(spec), order="msb" if i % 2 else None, tags="cust"))
    out.append(L("custa_w17", "[u8; 17]", W([("N128", 128, "rw", 77), ("E3", 3), ("N8", 5, "ro", 19)]), tags="cust"))
    out.append(L("custh_3", "[u8; 3]", W([("N8", 6, "rw", 33), ("NB16", 16, "rw", 0xFACE), ("E2", 2, "rw", 1)]), heap=True, tags="cust"))
    return out


def fam_arrayfield():
    out = []
    specs = [
        ("u8", [("[u8; 1]", 8)]),
        ("u16", [("[u8; 2]", 16)]),
        ("u16", [("u8", 4), ("[u8; 1]", 8), ("u8", 4)]),
        ("u32", [("[u8; 2]", 16), ("u8", 8, "ro", 7), ("[u8; 1]", 8)]),
        ("u32", [("[u8; 3]", 24, "ro"), ("u8", 8)]),
        ("u32", [("[u8; 2]", 16, "wo"), ("[u8; 2]", 16, "na")]),
        ("u32", [("[u8; 4]", 16), ("u16", 16)]),
        ("u64", [("u8", 5), ("[u8; 7]", 56), ("u8", 3)]),
        ("u128", [("[u8; 15]", 120), ("u8", 8)]),
        ("u128", [("[u8; 16]", 128)]),
        ("u32", [("[u8; 16]", 16), ("[u8; 2]", 16)]),
        ("u16", [("[u8; 2]", 12), ("u8", 4)]),
        ("u8", [("[u8; 1]", 5), ("u8", 3)]),
        ("u32", [("u8", 3), ("[u8; 3]", 19), ("u16", 10)]),
        ("u16", [("[u8; 1]", 3, "ro"), ("[u8; 2]", 13)]),
        ("u32", [("[u8; 17]", 16), ("u16", 16)]),
        ("[u8; 1]", [("[u8; 1]", 8)]),
        ("[u8; 1]", [("[u8; 1]", 5), ("u8", 3, "rw", 5)]),
        ("[u8; 2]", [("u8", 4), ("[u8; 1]", 8), ("u8", 4)]),
        ("[u8; 2]", [("[u8; 2]", 12), ("u8", 4, "res", 9)]),
        ("[u8; 4]", [("u8", 3), ("[u8; 3]", 19, "ro"), ("u16", 10)]),
        ("[u8; 4]", [("[u8; 2]", 16, "wo"), ("[u8; 2]", 16, "na")]),
        ("[u8; 5]", [("[u8; 5]", 40)]),
        ("[u8; 20]", [("[u8; 18]", 144), ("u16", 16)]),
        ("[u8; 20]", [("u8", 5), ("[u8; 19]", 150, "ro"), ("u8", 5, "rw", 17)]),
        ("[u8; 4]", [("[u8; 16]", 16), ("[u8; 2]", 16)]),
        ("[u8; 33]", [("[u8; 32]", 256), ("u8", 8)]),
    ]
    for i, (b, spec) in enumerate(specs):
        for order in (None, "msb"):
            out.append(L(f"arrf_{i}_{order or 'lsb'}", b, W(spec), order=order, tags="arrf"))
    out.append(L("arrf_heap", "[u8; 20]", W([("[u8; 18]", 144), ("u16", 16, "ro", 0xBEEF)]), heap=True, tags="arrf"))
    return out


def fam_longarr(part=None):
    """byte-array fields longer than any integer, aligned and not, exact and partial, always with a neighbour above"""
    out = []
    specs = [
        ("[u8; 40]", [("u8", 8), ("u8", 4), ("[u8; 33]", 260), ("u64", 48, "rw", 0xA5A5_0000_FFFF)]),
        ("[u8; 40]", [("u8", 3, "ro", 5), ("[u8; 32]", 256), ("i64", 61, "rw", -(1 << 60))]),
        ("[u8; 40]", [("u8", 8), ("[u8; 34]", 257, "ro"), ("u64", 55, "wo", 77)]),
        ("[u8; 48]", [("u8", 5), ("[u8; 20]", 153), ("[u8; 25]", 193, "wo"), ("u64", 33)]),
        ("[u8; 48]", [("u8", 7, "res", 0x55), ("[u8; 40]", 320), ("N64", 57, "rw", (1 << 56) + 5)]),
        ("[u8; 64]", [("u8", 1), ("[u8; 60]", 473), ("u64", 38, "ro", 0x2AAAAAAAAA)]),
        ("[u8; 72]", [("u128", 65), ("[u8; 62]", 491), ("u32", 20)]),
        ("[u8; 120]", [("u8", 6), ("[u8; 70]", 555), ("[u8; 50]", 395), ("u8", 4)]),
    ]
    for i, (b, spec) in enumerate(specs):
        for k, order in enumerate((None, "msb")):
            out.append(L(f"larr_{i}_{order or 'lsb'}", b, W(spec), order=order, heap=(i // 2 + k) % 2 == 1, tags="larr"))
    if part is not None:
        out = [x for i, x in enumerate(out) if (i + i // 2) % 2 == part]
    return out


HUGE = 640  # bytes; declarations tagged "huge" are explored with bit vectors of this capacity


def fam_huge(prop):
    """array storage beyond 256 bytes (2048 bits), and slices beyond 256 bytes"""
    # fields on both sides of bit 2048, in both orders
    spec = [("u8", 3, "ro", 5), ("u16", 13, "rw", 0x1A5A), ("[u8; 40]", 314), ("u64", 50, "wo", 3), ("bool", 1), ("u8", 7, "res", 0x55),
            ("[u8; 206]", 1644), ("u64", 30, "ro", 0x2AAAAAAA), ("i64", 41, "rw", -(1 << 39) - 5), ("u128", 100), ("[u8; 9]", 67, "rw"),
            ("N64", 57, "rw", 1 << 55), ("u8", 5, "na", 0x15), ("bool", 1, "rw", 1), ("u8", 3, "res", 5), ("i32", 17), ("E2", 2), ("u64", 45)]
    small = [("u8", 4, "rw", 9), ("u8", 4, "ro", 6), ("u8", 8)]
    out = []
    for i, (order, heap) in enumerate(((None, None), ("msb", True), ("msb", None), (None, True))):
        if i > 1 and prop not in ("C08",):
            continue
        out.append(L(f"huge_{order or 'lsb'}{'_h' if heap else ''}", "[u8; 300]", W(spec), order=order, heap=heap, tags="huge",
                     frm="little" if i % 2 else None, into="little" if i == 1 else None, write="little" if i == 1 else None))
    if prop == "C08":
        for b, s in (("[u8; 2]", small), ("[u8; 16]", [("u128", 128)]), ("[u8; 3]", small + [("u8", 8, "res", 3)])):
            for heap in (None, True):
                out.append(L(f"hslice_{b[5:-1]}{'_h' if heap else ''}", b, W(s), heap=heap, frm="little" if heap else None, tags="huge"))
    return out


FAR = 8256  # the same for declarations tagged "far": bit positions beyond 65535


def fam_far(prop):
    """array storage beyond 8192 bytes (65536 bits), fields on both sides of that bit"""
    spec = [("[u8; 8176]", 65408), ("u8", 3, "ro", 5), ("u128", 90, "rw", 1 << 80), ("u16", 13, "rw", 0x1A5A), ("i32", 27, "rw", -3), ("bool", 1, "rw", 1), ("u8", 4, "wo", 6),
            ("u8", 4, "res", 9), ("u32", 18), ("E2", 2, "rw", 1), ("u8", 6, "na", 0x2A)]
    rest = 8200 * 8 - sum(x[1] for x in spec)
    spec.insert(5, ("u64", rest))
    return [L("far_lsb", "[u8; 8200]", W(spec), tags="far"), L("far_msb_h", "[u8; 8200]", W(spec[::-1]), order="msb", heap=True, frm="little", into="little", tags="far")]


def fam_many():
    """many fields: one bit each, every access in turn"""
    acc = [("rw",), ("ro", 1), ("rw", 1), ("wo",), ("rw",), ("na", 1), ("res", 1), ("rw", 0), ("wo", 1), ("ro",), ("res",)]
    out = []
    for b, n, per, order in (("u64", 64, 1, "msb"), ("u128", 128, 1, None), ("[u8; 17]", 136, 1, "msb"), ("[u8; 40]", 160, 2, None)):
        tys = ("bool", "u8", "i8", "N8") if per == 1 else ("u8", "E2", "i16", "u128")
        spec = []
        for i in range(n):
            ty, a = tys[i % len(tys)], acc[(i + i // 11) % 11]
            if len(a) > 1 and a[1] and ty[0] == "i":
                a = (a[0], -1)
            spec.append((ty, per) + a)
        fs = W(spec)
        for f in fs:
            if f.reserved and (n != 136 or int(f.name[2:]) % 2):
                f.name = "__"
        out.append(L(f"many_{b.replace('[u8; ', 'arr').rstrip(']')}", b, fs, order=order, tags="many"))
    return out


def fam_ignored():
    out = []
    for i, (b, spec, ign) in enumerate([
        ("u8", [("u8", 3, "rw", 5), ("bool", 1), ("u8", 4, "ro", 9)], [(0, "tag", "u32")]),
        ("u8", [("u8", 8)], [(9, "tag", "u32")]),
        ("u8", [("i8", 4, "rw", -3), ("u8", 4, "wo", 9)], [(1, "tag", "u32")]),
        ("u8", [("u8", 4, "res", 6), ("N8", 4, "rw", 9)], [(1, "tag", "u32"), (9, "cu", "Ign")]),
        ("u16", [("u8", 8, "rw", 1), ("u8", 8, "na", 0x55)], [(1, "tag", "u32"), (0, "cu", "Ign")]),
        ("u32", [("u32", 32, "rw", 7)], [(0, "tag", "u32")]),
        ("u128", [("u128", 127, "rw", 7), ("bool", 1, "ro", 1)], [(1, "tag", "u32")]),
        ("[u8; 1]", [("u8", 3, "rw", 5), ("bool", 1), ("u8", 4, "ro", 9)], [(0, "tag", "u32")]),
        ("[u8; 3]", [("u16", 13, "rw", 0x1234), ("bool", 1), ("u16", 10, "wo", 9)], [(2, "tag", "u32"), (0, "cu", "Ign")]),
        ("[u8; 17]", [("u128", 128), ("u8", 8, "res", 0x99)], [(1, "tag", "u32")]),
    ]):
        for order in (None, "msb"):
            out.append(L(f"ign_{i}_{order or 'lsb'}", b, W(spec), order=order, ignored=ign, tags="ign"))
    out.append(L("ign_heap", "[u8; 3]", W([("u16", 13, "rw", 0x1234), ("bool", 1), ("u16", 10, "wo", 9)]), heap=True,
                 ignored=[(1, "tag", "u32")], tags="ign"))
    return out


def fam_signed():
    """every signed type x a spread of widths, alone and next to neighbours"""
    out = []
    arr = {8: "[u8; 1]", 16: "[u8; 2]", 32: "[u8; 4]", 64: "[u8; 8]", 128: "[u8; 16]"}
    for ty, tb in (("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("i128", 128)):
        for w in sorted({1, 2, 3, 4, 5, 7, tb // 2, tb // 2 + 1, tb - 1, tb}):
            if w > tb:
                continue
            back = min(b for b in (8, 16, 32, 64, 128) if b >= w)
            # put a neighbour below and above when room is left
            for cont in sorted({back} if w == back else {back, min(128, back * 2)}):
                rest = cont - w
                lo = rest // 2
                hi = rest - lo
                if lo > 128 or hi > 128:
                    continue
                fs = []
                if lo:
                    fs.append(F("lo", fit_uint(lo), lo))
                d = -(1 << (w - 1)) if (w + cont) % 3 == 0 else (-1 if (w + cont) % 3 == 1 else None)
                fs.append(F("s", ty, w, default=d))
                if hi:
                    fs.append(F("hi", fit_uint(hi), hi))
                def cp(q):
                    return [F(f.name, f.ty, f.bits_attr, acc=(q if f.name == "s" else "rw"), default=f.default) for f in q_fs]
                q_fs = fs
                order = "msb" if (w + tb) % 2 else None
                out.append(L(f"sgn_{ty}_{w}_{cont}", f"u{cont}", cp("rw"), order=order, tags="sgn"))
                out.append(L(f"sgna_{ty}_{w}_{cont}", arr[cont], cp("rw"), order=order, tags="sgn"))
                if w in (3, tb // 2 + 1, tb):
                    out.append(L(f"sgnro_{ty}_{w}_{cont}", f"u{cont}", cp("ro"), order=order, tags="sgn"))
                    out.append(L(f"sgnaro_{ty}_{w}_{cont}", arr[cont], cp("ro"), order=order, tags="sgn"))
    return out


def fam_defaults():
    """default expressions: literals in every radix, consts, const functions, paths"""
    out = []
    exprs = [
        ("u8", 8, [("0xAB", 0xAB), ("0b1010_0101", 0xA5), ("0o17", 15), ("1_0", 10), ("0xF3_u8", 0xF3), ("C8", 0x9C), ("cf8()", 0x3E), ("cm::C8", 0x77), ("cm::cf8()", 0x41), ("_300", 0x2B), ("TRUE", 0x54), ("0xE1", 0xE1), ("0x1e3", None)]),
        ("i8", 8, [("-1", -1), ("-128", -128), ("0x7F", 127), ("-0x10", -16), ("CI8", -77), ("False", -9), ("_1", -44), ("cfi8()", -3), ("127i8", 127), ("-5i8", -5)]),
        ("bool", 1, [("true", 1), ("false", 0), ("CB", 1), ("cfb()", 1), ("_2", 1)]),
        ("u16", 16, [("0xF32A", 0xF32A), ("0xBEEF", 0xBEEF), ("65535", 65535), ("0x1f64", 0x1F64), ("0x0f32", 0x0F32)]),
        ("u128", 128, [("340282366920938463463374607431768211455", (1 << 128) - 1), ("0x8000_0000_0000_0000_0000_0000_0000_0001", (1 << 127) + 1)]),
        ("i128", 128, [("-170141183460469231731687303715884105728", -(1 << 127)), ("170141183460469231731687303715884105727", (1 << 127) - 1)]),
        ("i64", 64, [("-9223372036854775808", -(1 << 63)), ("CI64", -(1 << 40))]),
    ]
    arr = {8: "[u8; 1]", 16: "[u8; 2]", 64: "[u8; 8]", 128: "[u8; 16]", 1: "[u8; 1]"}
    k = 0
    for ty, w, lst in exprs:
        for e, v in lst:
            if v is None:
                continue
            for acc in ("rw", "ro", "wo", "na", "res"):
                for ar in (False, True):
                    bw = 8 if w == 1 else w
                    fs = [F("_t" if acc == "res" else "t", ty, w, acc="rw" if acc == "res" else acc, default=(e, v))]
                    if bw > w:
                        fs.append(F("z", "u8", bw - w, default=3))
                    k += 1
                    out.append(L(f"def_{k}", arr[bw] if ar else f"u{bw}", fs, order="msb" if k % 2 else None, tags="def"))
    # positive literal on a narrow signed field wraps to its two's complement reading
    out.append(L("def_wrap", "u8", [F("t", "i8", 4, default=("9", 9)), F("z", "u8", 4)], tags="def"))
    out.append(L("def_wrap_a", "[u8; 1]", [F("t", "i8", 4, default=("9", 9)), F("z", "u8", 4)], tags="def"))
    # const default wider than the field is truncated
    out.append(L("def_trunc", "u8", [F("t", "u8", 4, default=("C8", 0x9C)), F("z", "u8", 4)], tags="def"))
    out.append(L("def_trunc_a", "[u8; 1]", [F("t", "u8", 4, default=("C8", 0x9C)), F("z", "u8", 4)], tags="def"))
    return out


# names that also occur inside generated code or in the std prelude
NAMES = ("value val this mask i j len offset length slice bit_val byte_idx bit_in_byte array_len field_bits range_mask protected_mask last_idx half_len "
         "field_offset dst_bit dst_byte bit_index src_bit src_byte is_protected bits_end unpack_len total_bits type_bits temp temp_bits res copy_len source "
         "builder build f fmt t v x z data index result ok err some none core std alloc u8 u32 u128 usize bool i8 eq into from clone get set "
         "field a0 a_0 x_ x__y fooBar FooBaz gr\u00f6\u00dfe left right lo hi carry sign shift width end start byte word n k out src dst arr this_val "
         "reserved reserved_x reserved0 padding padding_1 pad pad0 unused rsvd rsvd1 ignore ignored ignored_x skip skipped dummy none_ empty blank raw_value private inner zero hidden internal "
         "new_x set_x get_x is_x has_x with_x checked_x checked_set_x invert_x inverted_x clear_x write_x into_x from_x to_x as_x bits_x x_bits x_offset builder_x default_x x_default self_ super_ crate_ "
         "default hash cmp drop borrow to_string try_into as_ref bitfield with checked clear_it defaults no_default tag_ endian big little lsb msb order access rw ro").split()
TNAMES = ["r#struct", "Value", "Mask", "Result", "Option", "Error", "Builder", "Box", "Vec", "String", "Debug", "Clone", "From", "T2", "BitField", "ABC", "Abc_Def", "X"]
SCOPES = [
    "pub type Result<Q> = ::std::result::Result<Q, u8>; pub fn min() {} pub fn bits() {} pub fn value() -> u8 { 1 }",
    "pub struct Option; pub struct Box; pub struct Vec; pub struct String;",
    "pub trait Clone {} pub trait Copy {} pub trait Debug {} pub trait From {} pub trait Into {}",
    "pub struct Default; pub struct Ok; pub struct Err; pub struct Some; pub struct None; pub struct PhantomData;",
    "pub mod core {} pub mod std {} pub mod alloc {} pub mod bits {}",
    "pub fn from_bits(x: u8) -> u8 { x } pub fn new() {} pub const MAX: u8 = 3; pub struct Self_; pub enum Kind { U, S }",
    "",
]


def fam_names(tier):
    """field, type and scope names must not matter"""
    out = []
    store = [("u64", False), ("[u8; 8]", False), ("[u8; 8]", True)]
    spec = [("u8", 5), ("i16", 9), ("bool", 1), ("[u8; 2]", 11), ("N8", 6), ("u16", 16), ("u8", 16)]
    names = [n for n in NAMES]
    names += RAWNAMES
    k = 0
    for si, (st, heap) in enumerate(store):
        for rot in range(0, 6):
            grp = names[rot:] + names[:rot]
            for g in range(0, len(grp), 6):
                ns = grp[g:g + 6]
                while len(ns) < 6:
                    ns.append(f"q{len(ns)}")
                fs = []
                for j, (ty, w) in enumerate(spec):
                    if j == 6:
                        fs.append(F("_pad", "u16", 16, default=0x8001))
                        continue
                    acc = ("rw", "rw", "ro", "rw", "wo", "rw")[(j + k) % 6]
                    d = None
                    if (j + k) % 2 == 0:
                        d = {"u8": 19, "i16": -200, "bool": 1, "N8": 33, "u16": 0xBEEF}.get(ty)
                    fs.append(F(ns[j], ty, w, acc=acc, default=d))
                used = {f.name for f in fs}
                ign = []
                if k % 4 == 1:
                    ign = [(k % 5, next(n for n in ("value", "this", "mask", "bits", "slice", "r#enum", "data")[k % 3:] if n not in used), "u32")]
                sc = SCOPES[k % len(SCOPES)]
                tn = next(t for t in TNAMES[k % len(TNAMES):] + TNAMES if f" {t}" not in sc)
                out.append(L(f"nm_{k}", st, fs, order="msb" if k % 3 == 0 else None, heap=heap, ignored=ign, tname=tn, scope=sc, tags="names"))
                k += 1
    return out if tier != "quick" else out[::2] + out[1::4]


RAWNAMES = ["r#type", "r#fn", "r#match", "r#in", "r#loop", "r#ref", "r#move", "r#async", "r#plain"]


def thin(lst, k, off=0):
    return [x for i, x in enumerate(lst) if i % k == off]


def select(prop, tier):
    import cover
    if prop == "C29":
        return cover.family(prop, tier)
    if prop == "C28":
        return select_families(prop, tier)
    more = [] if prop == "C07" else fam_huge(prop)
    far = [] if prop == "C07" else fam_far(prop)
    many = [] if prop == "C16" else [x for x in fam_many() if not (prop == "C07" and x.array or prop == "C08" and not x.array)]
    if prop == "C24":
        more = []
        for x in many:
            x.ignored = [(0, "tag", "u32"), (70, "cu", "Ign"), (33, "fl", "bool")]
    if tier == "quick":
        more = more[:8] if prop == "C08" else more[:2]
        many = many[{"C02": 1, "C06": 1, "C04": 1, "C12": 1}.get(prop, 0)::2]
        if prop == "C24":
            many = many[:1]
    return select_families(prop, tier) + more + far + many + cover.family(prop, tier)


def select_families(prop, tier):
    q = tier == "quick"
    both = ("u8", "[u8; 1]")
    acc = lambda: [x for b in both for o in (None, "msb") for x in fam_access(b, o)]
    if prop == "C01":
        return fam_compositions("u8") + fam_compositions("[u8; 1]", 3 if q else 1) + fam_wide(extra=NOBIT) + fam_access2()
    if prop == "C02":
        return fam_longarr(0) + fam_compositions("u8", 2 if q else 1) + fam_compositions("[u8; 1]", 4 if q else 1) + fam_wide(extra=NOBIT) + thin(acc(), 2 if q else 1)
    if prop == "C03":
        return fam_signed()
    if prop == "C04":
        return fam_longarr(0) + fam_compositions("u8", 3 if q else 1) + fam_compositions("[u8; 1]", 6 if q else 1) + fam_wide(extra=NOBIT) + thin(acc(), 2 if q else 1)
    if prop == "C05":
        return fam_defaults() + thin(acc(), 1) + fam_wide(extra=["bit_ops = false", "debug = false"]) + [
            L(x.name + "_nonew", x.backing, [F(f.name, f.ty, f.bits_attr, f.acc, f.default) for f in x.fields], order=x.order, extra=["new = false"], heap=x.heap, tags="nonew") for x in thin(fam_wide(), 3) + thin(acc(), 5)]
    if prop == "C06":
        return fam_longarr(0) + thin(acc(), 2 if q else 1) + fam_wide(extra=["bit_ops = false"]) + fam_access2() + fam_custom()[::3] + [
            L(x.name + "_nonew", x.backing, [F(f.name, f.ty, f.bits_attr, f.acc, f.default) for f in x.fields], order=x.order, extra=["new = false"], heap=x.heap, tags="nonew") for x in thin(fam_wide(), 4)]
    if prop == "C07":
        return fam_endian(False) + fam_wide(only=lambda b: b[0] == "u") + thin(fam_access("u8") + fam_access("u8", "msb"), 2 if q else 1) + thin(fam_compositions("u8", 4, extra=()), 1)
    if prop == "C08":
        return fam_longarr(0)[::2] + fam_endian(True) + fam_wide(only=lambda b: b[0] == "[") + thin(fam_access("[u8; 1]") + fam_access("[u8; 1]", "msb"), 3 if q else 1)
    if prop == "C09":
        return fam_longarr(1)[::2] + fam_endian(False) + fam_endian(True) + fam_wide() + thin(acc(), 2 if q else 1) + thin(fam_access2(), 2 if q else 1)
    if prop in ("C10", "C11"):
        return fam_wide() + thin(acc(), 3 if q else 1) + fam_access2() + fam_ignored()[:3]
    if prop in ("C12", "C13"):
        return fam_longarr(1) + fam_wide() + thin(acc(), 2 if q else 1) + fam_access2() + fam_custom()[::2]
    if prop == "C14":
        return fam_longarr(1)[1::2] + thin(acc(), 2 if q else 1) + fam_access2() + fam_wide(only=lambda b: b != "[u8; 96]") + fam_endian(False)[::4] + fam_custom()[::3]
    if prop == "C16":
        return fam_arrayfield() + fam_longarr()
    if prop == "C17":
        return fam_custom()
    if prop == "C23":
        return fam_wide() + thin(acc(), 3 if q else 1) + fam_arrayfield()[::2] + fam_ignored() + fam_custom()[::4]
    if prop == "C24":
        return fam_ignored()
    if prop == "C26":
        return fam_longarr(1)[1::2] + fam_wide() + fam_access2()[::2] + fam_ignored() + fam_custom()[::2] + fam_arrayfield()[::2] + thin(acc(), 5 if q else 1)
    if prop == "C28":
        return fam_names(tier)
    raise SystemExit("no layouts for " + prop)


def select_pairs(tier):
    """C15: (integer or stack array) versus another storage for the same fields"""
    out = []
    arr = {8: "[u8; 1]", 16: "[u8; 2]", 32: "[u8; 4]", 64: "[u8; 8]", 128: "[u8; 16]"}
    def cp(fs):
        return [F(f.name, f.ty, f.bits_attr, f.acc, f.default) for f in fs]
    src = fam_wide(only=lambda b: b[0] == "u", heap_too=False) + thin(fam_access("u8") + fam_access("u8", "msb"), 3 if tier == "quick" else 1) + fam_custom()[::3]
    for x in src:
        if x.array:
            continue
        a = L(x.name + "_I", x.backing, cp(x.fields), order=x.order, tags="pair")
        b = L(x.name + "_A", arr[x.bits], cp(x.fields), order=x.order, tags="pair")
        out.append((a, b))
    for x in fam_wide(only=lambda b: b[0] == "[", heap_too=False) + fam_arrayfield()[32:] + fam_longarr(0):
        a = L(x.name + "_S", x.backing, cp(x.fields), order=x.order, tags="pair")
        b = L(x.name + "_H", x.backing, cp(x.fields), order=x.order, heap=True, tags="pair")
        out.append((a, b))
    import cover
    return out + cover.pairs(tier)
