"""C27: attributes written below #[bitfield] / #[bitflag] reach the generated type, and nothing else does.

Part 1 enumerates derive sets x storage x ignored members x spelling, asks the compiler which traits the generated type
implements, and compares equality, ordering and hashing on every pair of states with the model.
Part 2 enumerates attributes whose effect is a lint (must_use, deprecated, naming) and compares the compiler's verdict."""
import itertools
import os
import shutil

import batch
import common

STORE = [("u8", 8, False), ("u16", 16, False), ("u128", 128, False), ("[u8; 1]", 8, False), ("[u8; 3]", 24, False), ("[u8; 2]", 16, True)]
TR = ["PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Default", "Debug", "Clone", "Copy"]
PATH = {"PartialEq": "::core::cmp::PartialEq", "Eq": "::core::cmp::Eq", "Hash": "::core::hash::Hash", "PartialOrd": "::core::cmp::PartialOrd", "Ord": "::core::cmp::Ord",
        "Default": "::core::default::Default", "Debug": "::core::fmt::Debug", "Clone": "::core::clone::Clone", "Copy": "::core::marker::Copy"}
SETS = [(), ("PartialEq",), ("PartialEq", "Eq"), ("Hash",), ("PartialEq", "Eq", "Hash"), ("PartialEq", "PartialOrd"), ("PartialEq", "Eq", "PartialOrd", "Ord"),
        ("PartialEq", "Eq", "Hash", "PartialOrd", "Ord")]
FORMS = ["one", "split", "cfg", "path", "doc", "noise"]


def spell(traits, form):
    if not traits:
        return {"doc": ["/// documentation"], "noise": ["#[allow(dead_code)]", "#[doc(hidden)]"]}.get(form, [])
    if form == "one":
        return [f"#[derive({', '.join(traits)})]"]
    if form == "split":
        return [f"#[derive({t})]" for t in traits]
    if form == "cfg":
        return [f"#[cfg_attr(all(), derive({', '.join(traits)}))]", "#[cfg_attr(any(), derive(NoSuchDerive))]"]
    if form == "path":
        return [f"#[derive({', '.join(PATH[t].lstrip(':') for t in traits)},)]"]
    if form == "doc":
        return ["/// one", f"#[derive({traits[0]})]", "/// two", "/** three */"] + ([f"#[derive({', '.join(traits[1:])})]"] if traits[1:] else []) + ["#[doc = \"four\"]"]
    return ["#[allow(dead_code, unused)]", f"#[derive({', '.join(traits)})]", "#[doc(alias = \"other\")]", "#[must_use]", "#[non_exhaustive]"]


COMMON = """
#![allow(warnings)]
use std::hash::{Hash, Hasher};
pub fn hash<T: Hash>(t: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
pub struct Out { pub states: u64, pub trans: u64, pub viol: Vec<String>, pub n: u64 }
impl Out { pub fn bad(&mut self, l: &str, decl: &str, m: String) { if self.viol.iter().filter(|v| v.starts_with(l)).count() < 2 { self.viol.push(format!("{l}\\u{1}{m}\\u{1}--- declaration\\u{1}{}", decl.replace('\\n', "\\u{1}"))); } } }
pub fn domain(bits: u32) -> Vec<u128> {
    if bits == 8 { return (0..256).collect(); }
    let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = vec![0, m, 0x55555555555555555555555555555555 & m, 0x0123456789ABCDEFFEDCBA9876543210 & m];
    for i in 0..bits { v.push(1 << i); v.push(!(1u128 << i) & m); }
    v.sort(); v.dedup(); v
}
"""
PRES = "\n".join(f"pub struct P{t}<T>(core::marker::PhantomData<T>); pub trait F{t} {{ const V: bool = false; }} impl<T> F{t} for P{t}<T> {{}} impl<T: {PATH[t]}> P{t}<T> {{ pub const V: bool = true; }}" for t in TR)


def presence(name, have):
    return [f"const _: () = assert!(<crate::P{t}<{name}>>::V == {str(t in have).lower()}, \"{t}\"); // {t} {'is' if t in have else 'is not'} implemented" for t in TR]


def bf_module(k, st, bits, heap, traits, form, ign, own):
    """own: None, or a trait whose generated impl is switched off and derived by the user instead"""
    args = [st] + (["array_heap = true"] if heap else []) + ["bit_ops = false", "builder = false", "order = msb" if k % 2 else "order = lsb"]
    have = {"Default", "Debug", "Clone"} | (set() if heap else {"Copy"}) | set(traits)
    attrs = spell(traits, form)
    if own == "off":
        args += ["debug = false", "default = false", "copy = false"]
        have -= {"Default", "Debug", "Clone", "Copy"}
    elif own:
        flag = {"Clone": "copy"}.get(own, own.lower())
        args.append(f"{flag} = false")
        if own == "Clone" and not heap:
            attrs.append("#[derive(Clone, Copy)]")
        else:
            attrs.append(f"#[derive({own})]")
    rest = bits - 8
    fl = ["#[bits(3)] a: u8", "#[bits(5)] b: i8"] + ([f"#[bits({rest})] c: u128"] if rest else [])
    if ign:
        fl.insert(k % (len(fl) + 1), "#[bits(ignore = true)] extra: u8")
    decl = f"#[bitfield({', '.join(args)})]\n" + "\n".join(attrs) + f"\npub struct T {{ {', '.join(fl)} }}"
    N = bits // 8
    arr = st[0] == "["
    mk = f"T::from_le_bytes(x.to_le_bytes()[..{N}].try_into().unwrap())" if arr else f"T::from_be_bits(x as {st})"
    o = ["use bitfields::bitfield;", decl, f'pub const DECL: &str = r####"{decl}"####;'] + presence("T", have)
    seti = "t.extra = e;" if ign else ""
    o.append(f"fn mk(x: u128, e: u8) -> T {{ let mut t = {mk}; {seti} t }}")
    L = f"bf_{k}"
    o.append("pub fn go(o: &mut crate::Out) {")
    o.append(f"  let d = crate::domain({bits}); o.n += 1; o.states += d.len() as u64;")
    o.append(f"  for &x in &d {{ for &y in &d {{ for e in {'[(0u8, 0u8), (7, 7), (7, 8)]' if ign else '[(0u8, 0u8)]'} {{ let (p, q) = (mk(x, e.0), mk(y, e.1)); let same = x == y && e.0 == e.1; o.trans += 1;")
    if "PartialEq" in have:
        o.append(f'    if (p == q) != same || (p != q) == same {{ o.bad("{L}", DECL, format!("equality of {{x:#x}}/{{}} and {{y:#x}}/{{}} is {{}}", e.0, e.1, p == q)); }}')
    if "Hash" in have:
        o.append(f'    if same && crate::hash(&p) != crate::hash(&q) {{ o.bad("{L}", DECL, format!("equal values {{x:#x}} hash differently")); }}')
    if "Hash" in have and not arr and not ign and not heap:
        o.append(f'    if (crate::hash(&p) == crate::hash(&q)) != same {{ o.bad("{L}", DECL, format!("{{x:#x}} and {{y:#x}} hash alike")); }}')
    if "PartialOrd" in have:
        o.append("    let c = p.partial_cmp(&q); let r = q.partial_cmp(&p);")
        o.append(f'    if c.is_none() || c.map(|z| z.reverse()) != r || (c == Some(core::cmp::Ordering::Equal)) != same {{ o.bad("{L}", DECL, format!("ordering of {{x:#x}}/{{}} and {{y:#x}}/{{}} is {{c:?}} / {{r:?}}", e.0, e.1)); }}')
        if not arr and not ign:
            o.append(f'    if c != Some(x.cmp(&y)) {{ o.bad("{L}", DECL, format!("ordering of {{x:#x}} and {{y:#x}} is {{c:?}}")); }}')
    if "Ord" in have:
        o.append(f'    if Some(p.cmp(&q)) != c {{ o.bad("{L}", DECL, format!("cmp and partial_cmp disagree on {{x:#x}} {{y:#x}}")); }}')
    o.append("  } } }")
    if own == "Default":
        o.append(f'  let z = <T as Default>::default(); if z.a() != 0 || z.b() != 0 {{ o.bad("{L}", DECL, "derived default".to_string()); }}')
    o.append("}")
    return (f"bf_{k}", "\n".join(o), decl)


FL_SETS = SETS + [("Debug",), ("Default",), ("Debug", "PartialEq", "Default"), ("Clone", "Debug"), ("Clone", "Copy", "PartialEq", "Eq", "Hash", "Default", "Debug")]


def fl_module(k, ty, traits, form, cp):
    off = "Clone" in traits
    args = [ty] + (["copy = false"] if off or not cp else [])
    have = set(traits) | (set() if off or not cp else {"Clone", "Copy"})
    attrs = spell(traits, form)
    dd = "#[default] " if "Default" in traits else ""
    vals = {"A": 1, "B": 0x12, "C": 0x80, "D": 0xFE}
    body = f"#[base] #[allow(dead_code)] A = 1, /// docs\n {dd}B = 0x12, #[doc(hidden)] C = 0x80, #[cfg_attr(any(), nothing)] D = 0xFE"
    decl = f"#[bitflag({', '.join(args)})]\n" + "\n".join(a for a in attrs if "non_exhaustive" not in a) + f"\npub enum T {{ {body} }}"
    L = f"fl_{k}"
    o = ["use bitfields::bitflag;", decl, f'pub const DECL: &str = r####"{decl}"####;'] + presence("T", have)
    o.append(f"const _: () = assert!(core::mem::size_of::<T>() == core::mem::size_of::<{ty}>()); // has the size of its integer")
    for n, v in vals.items():
        o.append(f"const _: () = assert!(T::{n} as {ty} == {v}); // discriminant of {n}")
    o.append(f"const V: [{ty}; 4] = [1, 0x12, 0x80, 0xFE];")
    o.append(f"fn mk(i: usize) -> T {{ match i {{ 0 => T::A, 1 => T::B, 2 => T::C, _ => T::D }} }}")
    o.append("pub fn go(o: &mut crate::Out) { o.n += 1; o.states += 4; for i in 0..4 { for j in 0..4 { let (p, q) = (mk(i), mk(j)); let same = i == j; o.trans += 1;")
    o.append(f'  if T::from_bits(V[i]) as {ty} != mk(i) as {ty} || mk(i).into_bits() != V[i] {{ o.bad("{L}", DECL, format!("variant {{i}} does not round-trip")); }}')
    if "PartialEq" in have:
        o.append(f'  if (p == q) != same {{ o.bad("{L}", DECL, format!("equality {{i}} {{j}}")); }}')
    if "Hash" in have:
        o.append(f'  if (crate::hash(&p) == crate::hash(&q)) != same {{ o.bad("{L}", DECL, format!("hash {{i}} {{j}}")); }}')
    if "PartialOrd" in have:
        o.append(f'  if p.partial_cmp(&q) != Some(V[i].cmp(&V[j])) {{ o.bad("{L}", DECL, format!("ordering {{i}} {{j}}")); }}')
    if "Debug" in have:
        o.append(f'  if format!("{{:?}}", p) != ["A", "B", "C", "D"][i] {{ o.bad("{L}", DECL, format!("debug {{i}}")); }}')
    o.append("} }")
    if "Default" in have:
        o.append(f'  if <T as Default>::default() as {ty} != 0x12 {{ o.bad("{L}", DECL, "default variant".to_string()); }}')
    o.append("}")
    return (L, "\n".join(o), decl)


def modules(tier):
    out = []
    k = 0
    for (st, bits, heap), traits, form, ign in itertools.product(STORE, SETS, FORMS, (False, True)):
        if tier == "quick" and bits > 8 and (k // 3) % 2:
            k += 1
            continue
        out.append(bf_module(k, st, bits, heap, traits, form, ign, None))
        k += 1
    for (st, bits, heap), own, ign, traits in itertools.product(STORE, ("Default", "Debug", "Clone", "off"), (False, True), ((), ("PartialEq", "Eq", "Hash"))):
        if bits == 128 and own == "Debug" and False:
            continue
        out.append(bf_module(k, st, bits, heap, traits, "one", ign, own))
        k += 1
    for ty, traits, form, cp in itertools.product(("u8", "u16", "u32", "u64", "u128"), FL_SETS, FORMS, (True, False)):
        out.append(fl_module(k, ty, traits, form, cp))
        k += 1
    return out


# ------------------------------------------------------------------ lints
def lint_cases(tier):
    """(label, source, expected to be accepted)"""
    out = []
    n = 0
    for st, bits, heap in STORE:
        for ign in (False, True):
            for mu, dep in itertools.product((None, "#[must_use]", "#[must_use = \"why\"]"), (None, "#[deprecated]", "#[deprecated(note = \"old\")]")):
                for pos in (0, 1):
                    attrs = ["#[derive(PartialEq)]"]
                    extra = [a for a in (mu, dep) if a]
                    attrs = extra + attrs if pos else attrs + extra
                    rest = bits - 3
                    fl = f"#[bits(3)] a: u8, #[bits({rest})] b: {'u8' if rest <= 8 else 'u128'}" + (", #[bits(ignore = true)] e: u8" if ign else "")
                    args = ", ".join([st] + (["array_heap = true"] if heap else []) + ["bit_ops = false"])
                    decl = f"#[bitfield({args})]\n" + "\n".join(attrs) + f"\npub struct T {{ {fl} }}"
                    base = f"#[allow(warnings)] pub mod d {{ use bitfields::bitfield; {decl} #[allow(deprecated)] pub fn make() -> T {{ T::new() }} }}\n"
                    out.append((f"use_{n}", base + "#[deny(unused_must_use)] pub fn f() { d::make(); }", mu is None, decl))
                    out.append((f"dep_{n}", base + "#[deny(deprecated)] pub fn g(x: &d::T) {}", dep is None, decl))
                    n += 1
    for ty in ("u8", "u16", "u32", "u64", "u128"):
        for mu, dep, vdep in itertools.product((None, "#[must_use]"), (None, "#[deprecated]"), (None, "#[deprecated]", "/// d\n#[deprecated(note = \"x\")] #[allow(dead_code)]")):
            decl = f"#[bitflag({ty})]\n" + "\n".join(a for a in (mu, dep, "#[derive(Debug)]") if a) + f"\npub enum T {{ #[base] A = 0, {vdep or ''} B = 1, C = 2 }}"
            base = f"#[allow(warnings)] pub mod d {{ use bitfields::bitflag; {decl} pub fn make() -> T {{ T::A }} }}\n"
            out.append((f"fuse_{n}", base + "#[deny(unused_must_use)] pub fn f() { d::make(); }", mu is None, decl))
            out.append((f"fdep_{n}", base + "#[deny(deprecated)] pub fn g(x: &d::T) {}", dep is None, decl))
            out.append((f"fvar_{n}", base + "#[deny(deprecated)] pub fn g() { let _ = d::T::B; }", dep is None and vdep is None, decl))
            out.append((f"fvar2_{n}", base + "#[deny(deprecated)] pub fn g() { let _ = d::make() as u8; let _: u8 = { use d::*; 0 }; }", True, decl))
            n += 1
    # an attribute on one variant, whatever that variant's role and the attribute's position
    for ty, tgt, roles in itertools.product(("u8", "u32", "u128"), ("A", "B", "C"), (("A", None), (None, "A"), ("A", "B"), ("B", "A"), ("A", "A"), ("C", "B"))):
        for first, der in itertools.product((True, False), (False, True)):
            if der != (roles[1] is not None):  # #[default] is the helper attribute of derive(Default)
                continue
            vs = []
            for v, x in (("A", 0), ("B", 1), ("C", "0x80")):
                mk = (["#[base]"] if roles[0] == v else []) + (["#[default]"] if roles[1] == v else [])
                dp = ["#[deprecated]"] if v == tgt else []
                vs.append(" ".join((dp + mk if first else mk + dp) + [f"{v} = {x}"]))
            decl = f"#[bitflag({ty})]\n#[derive({'Default, ' if der else ''}PartialEq)]\npub enum T {{ {', '.join(vs)} }}"
            for v in "ABC":
                out.append((f"frole_{n}_{v}", f"#[allow(warnings)] pub mod d {{ use bitfields::bitflag; {decl} }}\n#[deny(deprecated)] pub fn g() {{ let _ = d::T::{v}; }}", v != tgt, decl))
            n += 1
    for mac, item in (("bitfield(u8, builder = false)", "pub struct lower_name { pub a: u8 }"), ("bitflag(u8)", "pub enum lower_name { #[base] A = 0, B = 1 }"),
                      ("bitfield([u8; 1], builder = false)", "pub struct lower_name { pub a: u8 }")):
        for al in (True, False):
            decl = f"#[{mac}]\n{'#[allow(non_camel_case_types)]' if al else '#[allow(dead_code)]'}\n{item}"
            out.append((f"camel_{n}", f"#[deny(non_camel_case_types)] pub mod d {{ use bitfields::{{bitfield, bitflag}}; {decl} }}", al, decl))
            n += 1
    return out


def run_lints(tier, res, rb, d):
    cases = lint_cases(tier)
    nb = 8
    seen = {}

    def go(i):
        b = cases[i::nb]
        cd = os.path.join(d, f"l{i}")
        os.makedirs(cd)
        by = {}
        for k, c in enumerate(b):
            by[f"m{k}.rs"] = c
            with open(os.path.join(cd, f"m{k}.rs"), "w") as fh:
                fh.write(c[1])
        with open(os.path.join(cd, "lib.rs"), "w") as fh:
            fh.write("#![allow(warnings)]\n" + "\n".join(f"pub mod m{k};" for k in range(len(b))))
        rc, out, err = common.sh(common.rustc_args(rb, ["--error-format=json", "--crate-type", "lib", "--emit=metadata", "--crate-name", "lints", "--out-dir", cd,
                                                        os.path.join(cd, "lib.rs")]), timeout=820)
        if rc in (-9, -15, -999):
            raise common.CheckError("compiler ended by signal or timeout")
        got, other, hard = {}, [], []
        for msg, code, spans, rendered in common.parse_diags(err):
            fs = {os.path.basename(s[0]) for s in spans} & set(by)
            for f in fs:
                got.setdefault(f, []).append(rendered)
                if code not in ("unused_must_use", "deprecated", "non_camel_case_types"):
                    hard.append((f, rendered))
            if not fs and "aborting due to" not in msg:
                other.append(rendered)
        if other:
            raise common.CheckError("unattributed compiler error: " + other[0][:1500])
        if hard:
            return [(f"lint:{by[f][0]}", f"declaration with attributes does not compile\n--- declaration\n{by[f][3]}\n{r[:1500]}") for f, r in hard[:5]]
        v = []
        for f, c in by.items():
            if (f not in got) != c[2]:
                v.append((f"lint:{c[0]}", f"{'attribute has no effect on' if not c[2] else 'unexpected lint for'} the generated type\n--- declaration\n{c[3]}\n--- probe\n{c[1][-120:]}\n" + "\n".join(got.get(f, []))[:1200]))
        return v
    for v in common.pmap(go, range(nb)):
        for x in v:
            res.violate(*x)
    return len(cases)


def run(tier, res, args):
    rb = common.build_repo()
    d = batch.workdir("C27", tier)
    try:
        ms = modules(tier)
        if args.only:
            ms = [m for m in ms if args.only == m[0]]
        nb = 8

        def main_of(live):
            o = [COMMON.replace("#![allow(warnings)]", "#![allow(warnings)]", 1).strip(), PRES]
            o += [f"mod {m};" for m in live]
            o.append("fn main() { let mut o = Out { states: 0, trans: 0, viol: vec![], n: 0 };")
            o += [f"  {m}::go(&mut o);" for m in live]
            o.append('  let mut s = format!("layouts {}\\nstates {}\\ntransitions {}\\ntraces {}\\n", o.n, o.states, o.trans, o.trans); for v in &o.viol { s.push_str("violation "); s.push_str(v); s.push(\'\\n\'); } std::fs::write(std::env::args().nth(1).unwrap(), s).unwrap(); }')
            return "\n".join(o)

        def go(i):
            b = ms[i::nb]
            mods = [(m[0], "#![allow(warnings)]\nuse crate::*;\n" + m[1], m[0]) for m in b]
            lines, dropped = batch.compile_run(d, i, mods, main_of, rb, opt=["-C", "opt-level=1", "-C", "debuginfo=0", "-C", "codegen-units=4", "-C", "overflow-checks=on"])
            return lines, dropped, {m[0]: m[2] for m in b}
        n = 0
        for lines, dropped, decls in common.pmap(go, range(nb)):
            n += batch.merge(res, lines)
            for k, msgs in dropped.items():
                res.violate(f"attr:{k}", f"attributes do not reach the generated type as written\n--- declaration\n{decls[k]}\n--- compiler\n" + "\n".join(msgs[:2])[:2000])
        nl = 0 if args.only else run_lints(tier, res, rb, d)
    finally:
        if not args.keep:
            shutil.rmtree(d, ignore_errors=True)
    res.cov["transitions"] += nl
    res.cov["traces_validated_against_impl"] += nl
    if not res.cov["samples"]:
        res.cov["samples"] = [ms[0][2].replace("\n", " "), ms[-1][2].replace("\n", " ")] if ms else ["none"]
    res.notes.update(declarations_explored=n, lint_probes=nl, exhaustive=True,
                     bounds="8 derive sets x 6 spellings x 6 storages x with/without ignored member, 13 derive sets x 6 spellings x 5 integer types for bitflags; "
                            "all pairs of 8-bit states, boundary pairs above; must_use/deprecated/naming attributes in both positions, on the type and on variants of every role")
    res.assumptions.append("rustc's trait resolution and lints report what the generated type carries")
