"""Covering family: declarations built from factor values so that every pair (quick) or every triple of the
leading factors (thorough) of factor values occurs in some declaration. Deterministic and complete for the pairs
it claims; the generator reports how many pairs are covered."""
import itertools

import api
from layouts import F, L, INTS, fit_uint

STORAGE = ["u8", "u16", "u32", "u64", "u128", "[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 4]", "[u8; 5]", "[u8; 7]", "[u8; 8]", "[u8; 12]",
           "[u8; 16]", "[u8; 17]", "[u8; 24]", "[u8; 40]", "[u8; 1]h", "[u8; 3]h", "[u8; 4]h", "[u8; 16]h", "[u8; 17]h"]
KIND = ["ux", "un", "uw", "sx", "sn", "sw", "b", "ax", "ap", "cn", "cw", "e2", "e3", "nb", "cg"]
ACC = ["rw", "ro", "wo", "na", "res"]
DEF = ["none", "hi", "alt"]
WID = [1, 3, 8, 11, "half", "max"]
LEAD = [0, 1, 3, 5, 8]
FILL = ["one", "split", "res"]
IGN = [(), ((0, "tag", "u32"),), ((1, "fl", "bool"), (1, "op", "Option<u8>")), ((9, "cu", "Ign"), (9, "ar", "[u8; 2]")), ((2, "sg", "i16"),)]


def styles(kinds):
    import emit
    need = {emit.GROUP_OF[k] for k in kinds if k in emit.GROUP_OF}
    bitg = [g for g in api.GROUPS if g in need]
    mainoff = [f"{m} = false" for m in api.MAIN if m not in need]
    out = [(), ("bit_ops = false", *[f"{g} = true" for g in bitg]), tuple(mainoff), ("bit_ops = false", *[f"{g} = true" for g in bitg], *mainoff)]
    ctor = [m for m in ("new", "default", "builder") if m in need]
    for r in (1, 2):
        for c in itertools.combinations(ctor, r):
            if len(c) < len(ctor):
                out.append(tuple(f"{m} = false" for m in c))
                out.append(("bit_ops = false", *[f"{g} = true" for g in bitg], *mainoff, *[f"{m} = false" for m in c]))
    return sorted(set(out), key=lambda t: (len(t), t))


def pairwise(domains, strength=2, lead=None):
    """greedy covering array: list of tuples covering all `strength`-wise combinations (pairs over all factors,
    triples over the factors in `lead` when strength is 3)"""
    n = len(domains)
    sizes = [len(d) for d in domains]
    unc = {}
    for i, j in itertools.combinations(range(n), 2):
        unc[(i, j)] = set(itertools.product(range(sizes[i]), range(sizes[j])))
    if strength == 3:
        for t in itertools.combinations(lead, 3):
            unc[t] = set(itertools.product(*[range(sizes[q]) for q in t]))
    total = sum(len(v) for v in unc.values())
    keys_of = [[k for k in unc if i in k] for i in range(n)]
    rows = []
    rnd = 12345
    while True:
        left = [(len(v), k) for k, v in unc.items() if v]
        if not left:
            break
        # seed the row with the first uncovered combination of the largest remaining set
        _, k = max(left, key=lambda x: (x[0], [-q for q in x[1]]))
        row = [None] * n
        c = min(unc[k])
        for q, v in zip(k, c):
            row[q] = v
        order = sorted((q for q in range(n) if row[q] is None), key=lambda q: (-sizes[q], q))
        for q in order:
            best, bv = -1, 0
            rnd = (rnd * 1103515245 + 12345) & 0x7FFFFFFF
            st = (rnd >> 8) % sizes[q]
            for d in range(sizes[q]):
                v = (st + d) % sizes[q]
                row[q] = v
                g = 0
                for kk in keys_of[q]:
                    if all(row[z] is not None for z in kk) and tuple(row[z] for z in kk) in unc[kk]:
                        g += 1
                if g > best:
                    best, bv = g, v
            row[q] = bv
        for kk, s in unc.items():
            s.discard(tuple(row[z] for z in kk))
        rows.append(tuple(row))
    return rows, total


def factor_class(name, v):
    """coarser value of a factor, for the triples"""
    if name == "storage":
        return "int" if v[0] == "u" else "heap" if v.endswith("h") else "long" if int(v[4:].strip(" ]")) > 16 else "arr"
    if name.startswith("kind"):
        return "c" if v in ("e2", "e3", "nb", "cg") else v[0]
    if name == "order":
        return v == "msb"
    if name == "ign":
        return bool(v)
    if name == "style":
        return 0 if v == () else 1 if any(x == "new = false" for x in v) else 2
    if name == "lead":
        return min(v, 1)
    return v


def class_triples(doms, rows):
    """rows to add so that every triple of factor classes, over all factors, occurs in some row"""
    n = len(doms)
    cls = [[factor_class(d[0], v) for v in d[1]] for d in doms]
    rep = [{c: [i for i, x in enumerate(cs) if x == c] for c in cs} for cs in cls]
    dom = [sorted(r, key=str) for r in rep]
    unc = {t: set(itertools.product(*[dom[q] for q in t])) for t in itertools.combinations(range(n), 3)}
    for r in rows:
        c = [cls[q][r[q]] for q in range(n)]
        for (i, j, k), u in unc.items():
            u.discard((c[i], c[j], c[k]))
    unc = {t: u for t, u in unc.items() if u}
    more = []
    rnd = 4321
    while unc:
        t = max(unc, key=lambda t: (len(unc[t]), t))
        row = [None] * n
        for q, v in zip(t, min(unc[t], key=str)):
            row[q] = v
        order = sorted((q for q in range(n) if row[q] is None), key=lambda q: -sum(len(u) for t, u in unc.items() if q in t))
        for q in order:
            best, bv = -1, None
            keys = [t for t in unc if q in t and all(z == q or row[z] is not None for z in t)]
            rnd = (rnd * 1103515245 + 12345) & 0x7FFFFFFF
            st = (rnd >> 8) % len(dom[q])
            for d in range(len(dom[q])):
                row[q] = dom[q][(st + d) % len(dom[q])]
                g = sum(tuple(row[z] for z in t) in unc[t] for t in keys)
                if g > best:
                    best, bv = g, row[q]
            row[q] = bv
        for t in list(unc):
            unc[t].discard(tuple(row[z] for z in t))
            if not unc[t]:
                del unc[t]
        k = len(more)
        more.append(tuple(rep[q][row[q]][(k * 7 + q) % len(rep[q][row[q]])] for q in range(n)))
    return more


def defval(kind, w, ty, d, array):
    """(expr, value) or None"""
    if d == "none":
        return None
    m = (1 << w) - 1
    if ty == "bool":
        return 1 if d == "hi" else 0
    if ty in ("E2", "E3", "FL3"):
        return 3 if d == "hi" else 2
    if ty[0] == "i" and ty in INTS:
        return -(1 << (w - 1)) if d == "hi" else (((0x2AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA >> 1) & (m >> 1)) or -1)
    if ty.startswith("["):
        nb = int(ty.split(";")[1].strip(" ]"))
        v = m if d == "hi" else int.from_bytes(bytes((0xA5 + 29 * i) & 0xFF for i in range(nb)), "little") & m
        if array:
            return ("[" + ", ".join(str(b) for b in v.to_bytes(nb, "little")) + "]", v)
        return (hex(v), v)
    return m if d == "hi" else 0x55555555555555555555555555555555 & m


def mkfield(name, kind, acc, d, wid, avail, N, array):
    w = {"half": N // 2, "max": N}.get(wid, wid)
    w = max(1, min(w, avail))
    ty = None
    bits = None
    if kind == "b":
        ty, w = "bool", 1
        bits = None if wid in (8, "max") else 1
    elif kind in ("e2", "e3"):
        ty, w = ("E2", 2) if kind == "e2" else ("E3" if wid != 3 else "FL3", 3)
        bits = w
        if w > avail:
            kind, w = "un", avail
    elif kind == "nb":
        for t, b in (("NB128", 128), ("NB16", 16), ("NB8", 8)):
            if b <= w:
                ty, w, bits = t, b, b
                break
        else:
            if avail >= 8:
                ty, w, bits = "NB8", 8, 8
            else:
                kind = "cn"
    if kind == "cg":
        w = min(w, 16)
        ty, bits = ("Gen<3>" if w % 2 else "Gen<{ 1 + 4 }>"), w
    if kind in ("ux", "sx"):
        for b in (128, 64, 32, 16, 8):
            if b <= max(8, w) and b <= avail:
                ty, w, bits = ("u" if kind == "ux" else "i") + str(b), b, None
                break
        else:
            kind = "un" if kind == "ux" else "sn"
    if kind in ("un", "uw", "sn", "sw", "cn", "cw"):
        w = min(w, 128)
        t = fit_uint(w)
        if kind in ("uw", "sw", "cw"):
            t = fit_uint(min(128, INTS[t] + 1))
        bits = w
        ty = {"u": t, "s": "i" + t[1:], "c": "N" + t[1:]}[kind[0]]
    if kind == "ax":
        nb = max(1, w // 8)
        if nb * 8 <= avail:
            ty, w, bits = f"[u8; {nb}]", nb * 8, None
        else:
            kind = "ap"
    if kind == "ap":
        if not array:
            w = min(w, 128)
        nb = (w + 7) // 8 + (1 if w % 8 == 0 else 0)
        ty, bits = f"[u8; {nb}]", w
    dv = defval(kind, w, ty, d, array)
    if acc == "res":
        return F("_" + name, ty, bits, default=dv)
    return F(name, ty, bits, acc=acc, default=dv)


def build(name, row, kinds, doms, extra_tags=""):
    v = dict(zip([d[0] for d in doms], [d[1][i] for d, i in zip(doms, row)]))
    st = v["storage"]
    heap = st.endswith("h")
    st = st.rstrip("h")
    array = st[0] == "["
    N = 8 * int(st.split(";")[1].strip(" ]")) if array else INTS[st]
    lead = v["lead"] if v["lead"] < N - 1 else 0
    avail = N - lead
    fs = []
    if lead:
        fs.append(F("ld", "u8", lead, default=1 if v["fill"] == "split" else None))
    a = mkfield("fa", v["kindA"], v["accA"], v["defA"], v["widA"], max(1, avail - 2) if N > 8 else max(1, avail - 1), N, array)
    avail -= a.bits
    fs.append(a)
    if avail > 0:
        b = mkfield("fb", v["kindB"], v["accB"], v["defB"], v["widB"], avail, N, array)
        avail -= b.bits
        fs.append(b)
    k = 0
    while avail > 0:
        w = min(avail, 128)
        if v["fill"] == "split" and w > 2:
            w = w // 2 + 1
        t = fit_uint(w)
        if v["fill"] == "res":
            fs.append(F(f"_r{k}", t, w, default=(1 << w) - 1 if k % 2 == 0 else None))
        else:
            fs.append(F(f"g{k}", t, w))
        avail -= w
        k += 1
    if v["pos"] == "last" and len(fs) > 1:
        fs.append(fs.pop(fs.index(a)))
    elif v["pos"] == "first":
        fs.insert(0, fs.pop(fs.index(a)))
    if v["fill"] == "res" or v["lead"] == 5:  # the documented way of leaving all padding unnamed
        for f in fs:
            if f.reserved:
                f.name = "__"
    for j, f in enumerate(fs):
        if not f.reserved and (j + row[4] + row[8]) % 3 == 0:
            f.more = ["access = rw"] if f.acc == "rw" and (j + row[0]) % 2 else ["ignore = false"]
    ex = list(v["style"])
    l = L(name, st, fs, order=v["order"], frm=v["frm"], into=v["into"], write=v["write"], heap=heap, ignored=list(v["ign"]), extra=ex,
             tags=("cover " + extra_tags).strip())
    if "sp_store" in v:
        import spell
        spell.respell(l, v)
    return l


NOIGN = [(), (), ()]


def domains(kinds, storage=None, ign=None, endian=True, kinda=None):
    e = [None, "big", "little"] if endian else [None]
    return [("storage", storage or STORAGE), ("kindA", kinda or KIND), ("accA", ACC), ("defA", DEF), ("widA", WID), ("kindB", KIND), ("accB", ACC), ("defB", DEF),
            ("widB", WID), ("order", [None, "lsb", "msb"]), ("frm", e), ("into", e), ("write", e), ("ign", ign or NOIGN + IGN),
            ("style", styles(kinds)), ("lead", LEAD), ("fill", FILL), ("pos", ["mid", "first", "last"])]


SETTINGS = {  # per property: restrict the domains to what the property is about
    "C07": dict(storage=[x for x in STORAGE if x[0] == "u"]),
    "C08": dict(storage=[x for x in STORAGE if x[0] == "["]),
    "C03": dict(kinda=["sx", "sn", "sw"]),
    "C16": dict(kinda=["ax", "ap"]),
    "C17": dict(kinda=["cn", "cw", "e2", "e3", "nb", "cg"]),
    "C24": dict(ign=IGN[1:]),
}


def rows_for(prop, tier):
    import emit
    kinds = emit.KINDS[prop]
    doms = domains(kinds, **SETTINGS.get(prop, {}))
    if prop == "C29":
        import spell
        doms += [("sp_store", spell.STORE), ("sp_tyA", spell.TYPE), ("sp_tyB", spell.TYPE), ("sp_widA", spell.WIDTH), ("sp_widB", spell.WIDTH),
                 ("sp_defA", spell.DEFX), ("sp_defB", spell.DEFX), ("args", spell.ARGS), ("wrap", spell.WRAP), ("path", spell.PATH), ("names", spell.NAMES)]
    if tier == "quick":
        rows, total = pairwise([d[1] for d in doms])
    else:
        # every triple over storage, kind, access and default of the target field and the order
        rows, total = pairwise([d[1] for d in doms], 3, lead=[0, 1, 2, 3, 9])
    if prop != "C29":
        rows = rows + class_triples(doms, rows)
    return kinds, doms, rows, total


def family(prop, tier):
    kinds, doms, rows, total = rows_for(prop, tier)
    return [build(f"cov_{i}", r, kinds, doms) for i, r in enumerate(rows)]


def pairs(tier):
    """C15: the same declaration over two storages"""
    kinds, doms, rows, total = rows_for("C15", tier)
    out = []
    arr = {8: "[u8; 1]", 16: "[u8; 2]", 32: "[u8; 4]", 64: "[u8; 8]", 128: "[u8; 16]"}
    si = [d[0] for d in doms].index("storage")
    seen = set()
    for i, r in enumerate(rows):
        a = build(f"cov_{i}", r, kinds, doms)
        if a.heap or a.array:
            # stack array against heap array, field defaults have the same spelling
            mk = [(a.backing, False, "S"), (a.backing, True, "H")]
        else:
            mk = [(a.backing, False, "I"), (arr[a.bits], False, "A")] + ([(arr[a.bits], True, "H")] if i % 3 == 0 else [])
        ls = []
        for b, heap, sfx in mk:
            fs = []
            for f in a.fields:
                d = f.default
                if isinstance(d, tuple):  # byte-array fields: integer literal or byte list, by storage
                    v = d[1]
                    d = ("[" + ", ".join(str(x) for x in v.to_bytes(f.tyb // 8, "little")) + "]", v) if b[0] == "[" else (hex(v), v)
                fs.append(F(f.name, f.ty, f.bits_attr, f.acc, d))
            ls.append(L(f"cov_{i}_{sfx}", b, fs, order=a.order, frm=a.frm, into=a.into, write=a.write, heap=heap, ignored=a.ignored, extra=a.extra, tags="pair"))
        for x, y in zip(ls, ls[1:]):
            out.append((x, y))
    return out
