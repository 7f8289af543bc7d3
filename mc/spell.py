"""C29: the same declaration in other words. `respell` rewrites the source text of a declaration (never its meaning):
fragments of macro_rules, nested macros, number spellings, qualified types, argument order, default expressions."""
from layouts import CUSTOM, INTS

TYPE = ["plain", "qual", "std", "crate", "ty", "ty2", "tt", "lenx", "lens", "len_expr", "len_lit"]
STORE = ["plain", "qual", "ty", "ty2", "tt", "lenx", "lens", "len_expr", "len_lit"]
WIDTH = ["dec", "hex", "bin", "oct", "und", "lit", "expr", "tt"]
DEFX = ["plain", "hex", "und", "suf", "paren", "block", "if", "cast", "or", "deref", "ident", "match", "index", "tuple", "not", "loop", "call", "const",
        "macro", "f_expr", "f_lit", "f_tt", "f_path", "f_block", "f_op", "f_crate"]
ARGS = ["norm", "rev", "comma", "frag_ident", "frag_tt", "frag_expr"]
WRAP = ["one", "two", "three"]
PATH = ["use", "abs", "rel", "alias"]
NAMES = ["plain", "ident", "tt", "rep"]


class Sp:
    def __init__(self):
        self.params = []
        self.scope = []
        self.n = 0

    def p(self, kind, text):
        self.params.append((kind, text))
        return f"$p{len(self.params) - 1}"

    def item(self, fmt):
        self.n += 1
        self.scope.append(fmt.replace("NAME", f"KX{self.n}").replace("FNAME", f"kx{self.n}"))
        return f"KX{self.n}"


def number(n, how):
    return {"hex": hex(n), "bin": bin(n), "oct": oct(n), "und": "_".join(str(n)) + "_", "suf": f"{n}usize"}.get(how, str(n))


def spell_len(sp, n, how):
    if how == "lenx":
        return number(n, "hex")
    if how == "lens":
        return number(n, "suf")
    if how == "len_expr":
        return sp.p("expr", str(n))
    if how == "len_lit":
        return sp.p("literal", str(n))
    return str(n)


def spell_type(sp, ty, how):
    if how in ("ty", "ty2"):
        return sp.p("ty", ty)
    if how == "tt":
        return sp.p("tt", ty) if ty[0] == "[" or ty.isalnum() else sp.p("ty", ty)
    if ty.startswith("["):
        n = int(ty.split(";")[1].strip(" ]"))
        el = {"qual": "core::primitive::u8", "std": "::std::primitive::u8"}.get(how, "u8")
        return f"[{el}; {spell_len(sp, n, how)}]"
    if ty in INTS or ty == "bool":
        return {"qual": "core::primitive::", "std": "::std::primitive::"}.get(how, "") + ty
    if how == "crate":
        sp.p("tt", "_")
        return "$crate::prelude::" + ty
    return {"qual": "self::", "std": "crate::prelude::"}.get(how, "") + ty


def spell_width(sp, n, how):
    if how == "lit":
        return sp.p("literal", str(n))
    if how in ("expr", "tt"):
        return sp.p(how, str(n))
    return number(n, how)


def spell_default(sp, f, array, how):
    """text of the default expression; falls back to the plain one where the spelling does not apply"""
    plain = f.default_expr()
    v = f.default[1] if isinstance(f.default, tuple) else f.default
    integer = f.ty in INTS
    lit = integer or (f.kind == "A" and not array)
    if f.kind == "A" and not array and how not in ("f_expr", "f_lit", "f_tt", "hex", "paren", "block"):
        return plain  # documented spelling: an integer literal
    ty = f.ty
    x = f"{v}{ty}" if integer else plain      # typed, so that inference cannot matter
    other = {True: "0", False: plain}[integer]
    if how == "hex" and lit:
        return ("-" if v < 0 else "") + hex(abs(v))
    if how == "und" and integer:
        return ("-" if v < 0 else "") + "_".join(str(abs(v)))
    if how == "suf" and integer:
        return x
    if how == "paren":
        return f"({x})"
    if how == "block":
        return f"{{ {x} }}"
    if how == "if":
        return f"if 1 + 1 == 2 {{ {x} }} else {{ {other} }}"
    if how == "cast" and integer:
        return f"{x} as {ty}"
    if how == "or" and integer:
        return f"{x} | 0"
    if how == "or" and f.kind == "B":
        return f"{x} && true"
    if how == "deref":
        return f"*&{x}" if integer else "*" + sp.item(f"pub const NAME: &{ty} = &{x};")
    if how == "ident":
        return f"core::convert::identity::<{ty}>({x})"
    if how == "match":
        return f"match 3 {{ 3 => {x}, _ => {other} }}"
    if how == "index":
        return f"[{x}, {x}][1]"
    if how == "tuple":
        return f"({x}, 1u8).0"
    if how == "not" and integer:
        return f"!{~v if ty[0] == 'i' else ~v & ((1 << f.tyb) - 1)}{ty}"
    if how == "not" and f.kind == "B":
        return "!" + ("false" if v else "true")
    if how == "loop":
        return f"loop {{ break {x} }}"
    if how == "call":
        return sp.item(f"#[allow(non_snake_case)] pub const fn NAME() -> {ty} {{ {x} }}") + "()"
    if how == "const":
        return "self::" + sp.item(f"pub const NAME: {ty} = {x};")
    if how == "macro":
        return "kid!(" + x + ")"
    if how == "f_expr":
        return sp.p("expr", x if integer else plain)
    if how == "f_lit" and (lit or f.kind == "B"):
        return sp.p("literal", plain)
    if how == "f_tt" and (f.kind == "B" or (f.kind == "A" and array) or (lit and not plain.startswith("-"))):
        return sp.p("tt", plain)
    if how == "f_path":
        return sp.p("path", sp.item(f"pub const NAME: {ty} = {x};"))
    if how == "f_op" and (integer or f.kind == "B"):
        if integer:
            m = f"{~v if ty[0] == 'i' else ~v & ((1 << f.tyb) - 1)}{ty}"
        else:
            m = "false" if v else "true"
        return "!" + sp.p("expr", f"{m} & {m}" if v else f"{m} | {m}")
    if how == "f_crate" and not (f.kind == "A" and not array):
        sp.p("tt", "_")
        return f"$crate::prelude::same::<{ty}>({x})"
    if how == "f_block":
        return sp.p("block", f"{{ {x} }}")
    return plain


KIDS = "macro_rules! kid { ($e:expr) => { $e }; }\npub(crate) use kid;"


def respell(l, v):
    """v: spelling factors. Sets l.text (and l.scope for helper items)."""
    sp = Sp()
    use, path = {"use": ("", "bitfield"), "abs": ("", "::bitfields::bitfield"), "rel": ("", "bitfields::bitfield"),
                 "alias": ("pub use bitfields::bitfield as bfx;", "bfx")}[v["path"]]
    if use:
        sp.scope.append(use)
    args = v["args"]

    def val(x):
        if args.startswith("frag_") and x in ("true", "false", "msb", "lsb", "big", "little", "rw", "ro", "wo", "na"):
            k = args[5:]
            if k == "ident" and x in ("true", "false"):
                k = "literal"
            return sp.p(k, x)
        return x
    a = [spell_type(sp, l.backing, v["sp_store"])]
    rest = []
    for part in l.attr()[len(l.backing):].strip(", ").split(", "):
        if part:
            k, _, x = part.partition(" = ")
            rest.append(f"{k} = {val(x)}")
    if args == "rev":
        rest.reverse()
    a += rest
    comma = "," if args == "comma" else ""
    name = l.tname if v["names"] == "plain" else sp.p("tt" if v["names"] == "tt" else "ident", l.tname)
    lines = [f"#[{path}({', '.join(a)}{comma})]", f"struct {name} {{"]
    items = [("b", f) for f in l.fields]
    for pos, nm, ty in l.ignored:
        items.insert(min(pos, len(items)), ("i", (nm, ty)))
    reps = []
    for i, (k, f) in enumerate(items):
        if k == "i":
            lines.append(f"    #[bits(ignore = {val('true')}{comma})] {f[0]}: {f[1]},")
            continue
        sfx = "B" if f.name in ("fb", "_fb") else "A"
        b = []
        if f.default is not None:
            b.append(f"default = {spell_default(sp, f, l.array, v['sp_def' + sfx])}")
        if f.acc != "rw":
            b.append(f"access = {val(f.acc)}")
        if args == "rev":
            b.reverse()
        if f.bits_attr is not None:
            b.insert(0, spell_width(sp, f.bits_attr, v["sp_wid" + sfx]))
        at = f"#[bits({', '.join(b)}{comma})] " if b else ""
        ty = spell_type(sp, f.ty, v["sp_ty" + sfx])
        nm = f.name if v["names"] in ("plain", "rep") else sp.p(v["names"], f.name)
        lines.append(f"    {at}{nm}: {ty}" + ("," if i + 1 < len(items) or comma else ""))
    lines.append("}")
    text = "\n".join(lines)
    if v["names"] == "rep":  # the whole struct as one token stream
        sp.params.append(("rep", text))
        if len(sp.params) > 1:
            # fragments inside it must stay fragments: expand the inner macro first
            sp.params.pop()
        else:
            text = "$($b)*"
    if sp.params:
        if sp.params[0][0] == "rep":
            pat = "$($b:tt)*"
            fwd = "$($b)*"
            arg = sp.params[0][1]
        else:
            pat = "; ".join(f"$p{i}:{k}" for i, (k, _) in enumerate(sp.params))
            fwd = "; ".join(f"$p{i}" for i in range(len(sp.params)))
            arg = "; ".join(t for _, t in sp.params)
        depth = {"one": 1, "two": 2, "three": 3}[v["wrap"]]
        out = [f"macro_rules! mk0 {{ ({pat}) => {{\n{text}\n}} }}"]
        for d in range(1, depth):
            out.append(f"macro_rules! mk{d} {{ ({pat}) => {{ mk{d - 1}! {{ {fwd} }} }} }}")
        out.append(f"mk{depth - 1}! {{ {arg} }}")
        text = "\n".join(out)
    l.text, l.spelling = text, v
    l.scope = "\n".join([KIDS] + sp.scope)
    return l
