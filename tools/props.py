import json
G="bitfields_impl/src/generating/bitfield/features/"
P="bitfields_impl/src/parsing/"
H=G+"common/generator_helper.rs"
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
R=[]
R.append(p("C01","Fields tile the storage exactly, in declared order, and constants say so",
"The bit ranges of a bitfield's fields are pairwise disjoint, cover every bit of the storage exactly once, and follow declaration order from the least significant bit up (order = lsb, the default) or from the most significant bit down (order = msb). For every field that can be read or written the generated <FIELD>_BITS and <FIELD>_OFFSET constants equal its width and the index of its least significant bit, and those constants are where the getter and setter really act. Padding (underscore) fields take their declared bits like any other field.",
["programs","configurations"],"every valid declaration: any number of fields, any widths, both orders, integer / stack array / heap array storage",
"The suite fixes a few dozen layouts; the tiling is arithmetic over the running width total and must be right for every composition of widths, storage and order.",
["bitfields_impl/src/parsing/bitfields/bitfield_parser.rs",G+"field_constants_feature.rs",H],
[("offset assignment per field (lsb/msb)",P+"bitfields/bitfield_parser.rs"),("<FIELD>_BITS / <FIELD>_OFFSET constants",G+"field_constants_feature.rs")]))
R.append(p("C02","Setting a field stores its low bits there and touches nothing else",
"From any state, set_<field>(v) makes the field's bits equal to the low <width> bits of v (excess bits are dropped, never spilled) and leaves every other bit of the bitfield unchanged. <field>() returns exactly the stored bits as a value of the field's type and never changes the bitfield. So a value that fits is read back unchanged, and the last write to a field wins whatever was written to other fields in between.",
["inputs","programs","histories"],"every storage state, every field, every value of the field's type, every sequence of writes, every storage kind and order",
"Tests write a handful of values into mostly empty bitfields; a mask or shift error shows only for particular neighbours, widths, offsets or byte boundaries.",
[G+"field_setters_feature.rs",G+"field_getters_feature.rs",H],
[("setter mask-and-or",H),("getter shift-and-mask",G+"field_getters_feature.rs"),("array storage bit copy",H)]))
R.append(p("C03","Signed fields are two's complement at every width",
"A signed field of width n represents exactly -2^(n-1) ..= 2^(n-1)-1: every such value set, defaulted, built, or loaded from raw bits is read back as itself, with the sign extended from the field's own top bit. The same holds for the inverted getter and for Debug output, and the sign of one field never leaks into its neighbours.",
["inputs","programs"],"every signed field type i8..i128, every width 1..=type width, every bit pattern, integer and array storage, both orders",
"Sign extension depends on width and carrier type; the tests cover a few widths and values.",
[G+"field_getters_feature.rs",H,G+"debug_trait_feature.rs",G+"invert_bit_ops_feature.rs"],
[("sign extension",H),("getter",G+"field_getters_feature.rs")]))
R.append(p("C04","Checked setters succeed exactly when the value fits, and Err changes nothing",
"checked_set_<field>(v) returns Ok iff v is representable in the field's width (unsigned: below 2^n; signed: within the two's complement range), and then behaves as set_<field>(v). Otherwise it returns Err and leaves the whole bitfield unchanged. The builder's checked_with_<field> accepts and rejects exactly the same values.",
["inputs","programs"],"every field type and width (including types wider than the field or than the storage), every value, every prior state",
"The boundary lies at a different value for every width and type, and the error path must be free of effects from every state.",
[H,G+"field_setters_feature.rs",G+"builder_feature.rs"],
[("value-fits test",H),("checked setter",G+"field_setters_feature.rs"),("checked builder setter",G+"builder_feature.rs")]))
R.append(p("C05","Construction yields exactly the declared defaults and zeros elsewhere",
"new(), Default::default() and the builder's initial state hold each field's declared default in that field's bits and zero everywhere else, for every access level and for padding. new_without_defaults() (and the builder's counterpart) is all zeros except that padding fields keep their default. Defaults may be literals in any radix, constants, or const fn calls, and negative defaults are stored in two's complement at the field's width.",
["programs","inputs"],"every declaration: any mix of fields with and without defaults, access levels, field kinds, storage, order, with or without new()",
"Each default passes through parsing, typing, masking and shifting; tests cover few expression forms and field kinds.",
[G+"new_functions_feature.rs",G+"default_trait_feature.rs",G+"builder_feature.rs",P+"common/const_expr.rs",H],
[("new / new_without_defaults",G+"new_functions_feature.rs"),("Default impl",G+"default_trait_feature.rs"),("default expression parsing",P+"common/const_expr.rs")]))
R.append(p("C06","A builder chain equals constructing and then setting the same fields in order",
"Starting from the declared defaults (new) or from zeros (new_without_defaults), any sequence of with_<field>(v) / checked_with_<field>(v) calls followed by build() gives the same value as constructing the bitfield and assigning those fields in the same order: later calls win, unset fields keep their initial value, and calls never disturb other fields. A read-only field can be given its value through the builder. A checked call that fails yields Err instead of a builder.",
["histories","inputs","programs"],"every sequence of builder calls over every field and value, every declaration",
"Tests build once with each field set once; order, repetition and interaction between fields are not explored.",
[G+"builder_feature.rs",H],[("builder struct and setters",G+"builder_feature.rs")]))
R.append(p("C07","Integer conversions are lossless and honour the chosen endianness",
"For integer-backed bitfields, from_be_bits keeps the number as is and from_le_bits reverses its bytes, and likewise for into_be_bits / into_le_bits; from_bits / into_bits and the From conversions behave as the variant chosen by from_endian / into_endian (default big). No bit is lost or masked in either direction, including bits of read-only, write-only, no-access and padding fields. The *_with_defaults variants differ only in that every field with a declared default takes it.",
["inputs","programs","configurations"],"every integer value, every integer storage width, every from/into endianness combination, every mix of access levels and defaults",
"Byte reversal is invisible on palindromic or 8-bit values, and each of the variants is generated separately.",
[G+"from_into_bits_feature.rs",G+"from_traits_feature.rs","bitfields_impl/src/generating/common/endian_conversion.rs"],
[("from_*/into_* for integers",G+"from_into_bits_feature.rs"),("From impls",G+"from_traits_feature.rs"),("endian conversion","bitfields_impl/src/generating/common/endian_conversion.rs")]))
R.append(p("C08","Array conversions preserve every byte in the chosen order at every slice length",
"For array-backed bitfields, from_le_bytes / into_le_bytes map byte 0 to the least significant eight bits and from_be_bytes / into_be_bytes the other way round; the plain functions and From conversions follow from_endian / into_endian. Slice constructors take the first N bytes of longer slices and treat missing bytes of shorter ones as zero bytes at the end, while the checked ones return Err for short slices; writing into a slice fills at most the bitfield's N bytes, never touches bytes past them, and the checked form rejects short slices without touching them. Nothing panics at any length, for stack and heap storage alike.",
["inputs","programs","configurations"],"every byte string, every slice length 0..N+2, every endianness combination, every array length, stack and heap",
"Dozens of separately generated functions; tests cover exact lengths and few contents.",
[G+"from_into_bits_feature.rs",G+"from_traits_feature.rs"],
[("from/into bytes and slices",G+"from_into_bits_feature.rs"),("From impls for arrays",G+"from_traits_feature.rs")]))
R.append(p("C09","Whole-value writes update all writable fields and only those",
"write_bits / write_bytes (and the _le / _be variants) set every read-write and write-only field to its bits of the given value, interpreted with the selected byte order (write_endian for the plain form, default big; big takes an integer as is and an array with byte 0 least significant, little is the byte-reversed reading), and leave read-only, no-access and padding fields exactly as they were. The *_with_defaults variants additionally put every declared default back, and write_defaults only puts the defaults back.",
["inputs","programs","histories"],"every prior state, every written value, every endianness, every mix of access levels and defaults, all storage kinds",
"The result depends on the prior state of protected bits and on the byte order; tests write into freshly built bitfields.",
[G+"write_bit_ops_feature.rs",H],[("write_* functions",G+"write_bit_ops_feature.rs")]))
R.append(p("C10","Single-bit access is exact, total and honours field access",
"get_bit(i) returns bit i if it belongs to a readable field and false otherwise; set_bit(i, b) changes exactly bit i if it belongs to a writable field and nothing otherwise. The checked forms do the same and return Err exactly when i is out of range or the bit's field does not permit the access. No index, however large, panics or affects another bit.",
["inputs","programs"],"every state, every index in u32, every layout, order and storage",
"Indices past the end, across byte boundaries and inside protected fields are barely sampled.",
[G+"set_get_bit_ops_feature.rs"],[("get_bit/set_bit and checked forms",G+"set_get_bit_ops_feature.rs")]))
R.append(p("C11","Bit-range access is exact and total for every offset, length and value",
"get_bits_range / get_bytes_range return the bits offset..offset+length moved to position 0, with unreadable bits as 0; set_*_range writes the low `length` bits of the value into the writable bits of that range and changes nothing else; an empty range reads 0 and writes nothing. Ranges that start or end beyond the bitfield read 0 and write nothing, even when offset+length overflows. The checked forms return Err exactly when the range is out of bounds, contains a bit whose field forbids the access, or (set) the value has bits above `length`, and on Err nothing changes.",
["inputs","programs"],"every state, every (offset, length) in u32 x u32, every value, every layout, order and storage",
"Quadratically many ranges times access layouts, with overflow corners; tests try a few.",
[G+"set_get_bit_ops_feature.rs",H],[("range get/set and checked forms",G+"set_get_bit_ops_feature.rs")]))
R.append(p("C12","Clearing affects exactly the targeted bits",
"clear_<field>() zeroes exactly that field and clear_<field>_to_default() sets exactly that field to its declared default. clear_bits() / clear_bytes() zero the whole bitfield except that padding fields return to their default, and the _with_defaults form gives the same value as new(). The result depends on nothing else in the prior state.",
["inputs","programs","histories"],"every prior state, every field kind, access level, default, storage and order",
"Tests clear a few fully populated bitfields.",
[G+"clear_bit_ops_feature.rs",H],[("clear functions",G+"clear_bit_ops_feature.rs")]))
R.append(p("C13","Inverting flips exactly the targeted bits",
"invert_<field>() flips every bit of that field and no other bit; doing it twice restores the state. <field>_inverted() returns the field's bits flipped, as a value of the field's type, without changing anything. invert_bits() / invert_bytes() flips every bit of the writable fields and leaves read-only, no-access and padding fields unchanged.",
["inputs","programs","histories"],"every prior state, every field kind and width, access level, storage and order",
"Masks for partial bytes and signed/custom types are width dependent; tests sample few.",
[G+"invert_bit_ops_feature.rs",H],[("invert functions",G+"invert_bit_ops_feature.rs")]))
R.append(p("C14","Access protection survives every history of public operations",
"Once a bitfield is constructed, no sequence of setters, checked setters, bit and range setters, whole-value writes (without defaults) and inversions changes a bit of a read-only, no-access or padding field. Nothing read through getters, bit or range access depends on a bit of a write-only or no-access field.",
["histories","inputs","programs"],"every reachable state and every sequence of the mutating operations from it, with every argument; every arrangement of access levels",
"Needs all operation sequences from all states; each test exercises one operation on one layout.",
[G+"set_get_bit_ops_feature.rs",G+"write_bit_ops_feature.rs",G+"invert_bit_ops_feature.rs",G+"field_setters_feature.rs"],
[("per-bit access checks",G+"set_get_bit_ops_feature.rs"),("write mask",G+"write_bit_ops_feature.rs"),("invert mask",G+"invert_bit_ops_feature.rs")]))
R.append(p("C15","Integer, stack-array and heap-array storage behave identically",
"Two bitfields that declare the same fields over the same number of bits but different storage (unsigned integer, [u8; N], boxed [u8; N]) give the same results and the same resulting bits for every operation they share: construction, field access, checked access, bit and range access, clearing, inverting, building, Debug output, and conversion in either byte order (a byte array standing for the integer's bytes, most significant first). Stack and heap arrays also agree on whole-value writes and slices.",
["programs","inputs","configurations"],"every declaration expressible over several storages, every state, every shared operation with every argument",
"The three storages have separate generated code paths; tests never compare them.",
[H,G+"bitfield_struct_feature.rs",G+"set_get_bit_ops_feature.rs",G+"from_into_bits_feature.rs"],
[("storage dispatch",H),("heap storage",G+"bitfield_struct_feature.rs")]))
R.append(p("C16","Byte-array fields hold exactly their bits in little-endian byte order",
"A [u8; N] field of any width up to 8N bits, at any offset, stores and returns its bytes with byte 0 at the field's least significant bits, zero-filling the bits above its width on read and dropping them on write. Its checked setter, builder, inversion, clearing and whole-value operations obey the same rules as for other fields, in integer-, stack- and heap-backed bitfields.",
["inputs","programs"],"every array length and width (whole and partial last bytes, longer than 16 bytes), every offset, storage, order and access",
"Tests use byte-aligned array fields in few layouts.",
[H,G+"field_getters_feature.rs",G+"field_setters_feature.rs"],[("array field pack/unpack",H)]))
R.append(p("C17","Custom and nested field types pass through from_bits / into_bits faithfully",
"A field whose type is a user type, a bitflag enum or another bitfield reads as T::from_bits(the field's bits) and stores T::into_bits(value) truncated to the field's width, without disturbing its neighbours. This holds for setters, getters, checked setters, defaults, the builder and whole-value operations, at any width and offset and over every storage.",
["inputs","programs"],"every custom type width (1..128), value, offset, storage, order and access level",
"Custom types take their own code path (type unknown to the macro); tests use small enums in few layouts.",
[H,G+"field_getters_feature.rs",G+"field_setters_feature.rs",G+"builder_feature.rs"],[("custom type conversion",H)]))
R.append(p("C18","Bitflag enums decode every integer to the right variant",
"For a bitflag enum, from_bits(x) is the variant whose value equals x (read with from_endian, default big = as is, little = byte-reversed), and for every other x the base variant if one is marked, else the default-marked variant. into_bits(variant) is the variant's value written with into_endian, so from_bits inverts into_bits for every variant when both endiannesses agree. Both functions work in const contexts.",
["inputs","programs","configurations"],"every backing integer type, set of variant values, placement of base/default, endianness pair, and every input value",
"Tests decode a few values of a few enums; fallbacks and byte order need all inputs.",
["bitfields_impl/src/generating/bitflag/bitflag_generator.rs",P+"bitflags/bitflag_parser.rs","bitfields_impl/src/generating/common/endian_conversion.rs"],
[("match arms and fallback","bitfields_impl/src/generating/bitflag/bitflag_generator.rs")]))
R.append(p("C19","Attribute flags switch exactly their own part of the API on or off",
"Setting new, from_into_bits, from_traits, default, debug, copy, builder or one of the bit-operation groups to true or false adds or removes exactly the documented functions and trait impls of that group, for every combination of the other flags. bit_ops = false turns off every bit-operation group except those explicitly set to true. Whatever remains enabled compiles and is complete.",
["configurations","programs"],"all combinations of the flags (each unset / true / false), for integer, stack-array and heap-array storage",
"Tests switch one flag at a time; groups share code and could depend on each other.",
[P+"bitfields/bitfield_attribute/bitfield_arguments.rs","bitfields_impl/src/generating/bitfield/feature.rs","bitfields_impl/src/generating/bitfield/bitfield_generator.rs"],
[("flag resolution",P+"bitfields/bitfield_attribute/bitfield_arguments.rs"),("feature gating","bitfields_impl/src/generating/bitfield/feature.rs")]))
R.append(p("C20","Cargo features set the defaults and attributes override them",
"With any selection of the macro crate's cargo features, a bitfield or bitflag declared without the corresponding argument behaves exactly as if the argument implied by the feature had been written, and an explicit argument always wins over the feature. With both or neither feature of a pair enabled the built-in default applies (everything generated and derived, lsb, big, stack arrays). When bit operations are off by feature or argument, only a group argument, not a feature, switches a group back on.",
["configurations"],"feature selections (none, each single feature, each contradictory pair, all pairs in the thorough tier) x explicit argument unset/true/false",
"CI builds three feature configurations only.",
[P+"bitfields/bitfield_attribute/bitfield_arguments.rs",P+"bitflags/bitflag_arguments.rs","bitfields_impl/Cargo.toml","bitfields/Cargo.toml"],
[("cfg!(feature) defaults",P+"bitfields/bitfield_attribute/bitfield_arguments.rs"),("bitflag defaults",P+"bitflags/bitflag_arguments.rs")]))
R.append(p("C21","Invalid declarations are compile errors and valid ones compile",
"A declaration is rejected at compile time when its field widths do not add up to the storage size, a width is zero or exceeds the field type, a literal default does not fit (a signed field also takes its bit pattern as a positive literal), a custom type lacks an explicit width, an argument is unknown or has a missing or unsupported value, a field name other than padding is repeated, the storage is not an unsigned integer or byte array, or a bitflag lacks a fallback variant, has two base variants, or a variant without a value or with one that does not fit. Every declaration that satisfies the documented rules compiles.",
["programs"],"a grid of declarations around every documented rule: all storage types, total widths one below / equal / one above, all field types and widths, default literals around both range ends, all argument spellings",
"Tests pin a few dozen failing snippets; acceptance and rejection must be exact along every boundary.",
[P+"bitfields/bitfield_parser.rs",P+"common/attribute_argument_parser.rs",P+"common/const_expr.rs",P+"bitfields/bitfield_attribute/bitfield_attribute_parser.rs",P+"bitflags/bitflag_parser.rs"],
[("width and total checks",P+"bitfields/bitfield_parser.rs"),("default range check",P+"common/const_expr.rs"),("argument parsing",P+"common/attribute_argument_parser.rs")]))
R.append(p("C22","The generated per-field API matches the field's access and visibility",
"A read-write field has getter, inverted getter, setter, checked setter, clear and invert functions, builder setters and constants; a read-only field has no mutating function except its builder setters; a write-only field has no getter; a no-access field has neither accessors nor builder setters; padding fields have no accessors at all. clear_<field>_to_default exists exactly for writable fields with a default. Read-write and read-only accessors have the visibility written on the field.",
["programs","configurations"],"every access level x field kind x default presence x storage x visibility",
"Absence of a function is not something a passing test observes; tests cover few combinations.",
[G+"field_getters_feature.rs",G+"field_setters_feature.rs",G+"builder_feature.rs",G+"clear_bit_ops_feature.rs",G+"invert_bit_ops_feature.rs",G+"field_constants_feature.rs",P+"common/visibility.rs"],
[("access predicates",P+"bitfields/bitfield.rs")]))
R.append(p("C23","Debug output shows every field's name and current value in declaration order",
"The Debug output lists the bitfield's name and each field, padding included, in declaration order with its current value in decimal: negative for negative signed fields, and as a byte list for byte-array fields of array-backed bitfields. The pretty form {:#?} lists the same, one field per line. Either depends on nothing but the current state and never changes it.",
["inputs","programs"],"every state, every field kind, width, order and storage",
"Tests format a few values.",
[G+"debug_trait_feature.rs",H],[("Debug impl",G+"debug_trait_feature.rs")]))
R.append(p("C24","Ignored fields are plain members outside the bit layout",
"Fields marked ignore = true take no bits, are initialised with their type's Default by every constructor, conversion and the builder, and no bitfield operation reads or changes them. The other fields behave exactly as if the ignored ones were absent, wherever they are declared.",
["programs","histories","inputs"],"every position and type of ignored fields, every storage and order, every operation from every state",
"Tests check a couple of ignored fields after construction only.",
[G+"bitfield_struct_feature.rs",G+"new_functions_feature.rs",G+"from_into_bits_feature.rs",P+"bitfields/bitfield_parser.rs"],
[("ignored field initialisation",H)]))
R.append(p("C25","Everything documented as const works in const contexts and without std",
"Generated constructors, getters, setters, conversions, bit operations, builders and bitflag conversions of integer- and stack-array-backed bitfields can be evaluated at compile time and give there the same results as at run time. Generated code compiles in a #![no_std] crate without linking std (heap storage excepted).",
["programs","configurations"],"every generated function of every storage / order / field kind in the catalogue, called in const context and in a no_std crate",
"Tests run under std and use few const evaluations.",
[G+"bitfield_struct_feature.rs",H,"bitfields/src/lib.rs","bitfields_impl/src/generating/bitflag/bitflag_generator.rs"],
[("const fn generation",H),("derives through core",G+"bitfield_struct_feature.rs")]))
R.append(p("C26","A bitfield is a plain value: no hidden size, allocation, unsafe or sharing",
"Without ignored fields a bitfield has exactly the size and alignment of its storage (its integer, [u8; N], or a Box of it). Clones and copies hold the same bits and ignored members, and no operation on one of them ever changes the other, heap storage included. No generated operation on integer or stack-array storage allocates memory, Debug output included; on heap storage only constructors and clones do. The generated code contains no unsafe.",
["programs","histories","inputs"],"every storage, field kind, order and set of ignored members of the catalogue; every operation from every sampled state applied to the original and to the clone",
"Tests never measure size or allocation and never mutate a clone; aliasing or a hidden allocation shows only in particular operations of particular storages.",
[G+"bitfield_struct_feature.rs",H,G+"debug_trait_feature.rs",G+"from_into_bits_feature.rs"],
[("struct definition, repr and derives",G+"bitfield_struct_feature.rs"),("generated operation bodies",H)]))
R.append(p("C27","Attributes below #[bitfield] and #[bitflag] apply to the generated type",
"Every attribute written below #[bitfield] or #[bitflag], on bitflag variants too, is carried over unchanged: derived traits exist exactly when written (or generated), and must_use, deprecated and lint attributes take effect. Derived equality and hashing compare exactly the stored bits plus ignored members, and derived ordering is total and consistent with equality. A bitflag enum keeps its declared discriminants, and the size of its integer.",
["programs","inputs","configurations"],"every combination of derive sets, spellings, storages and ignored members in the catalogue; every pair of 8-bit states",
"Tests derive PartialEq on a few types; a dropped or misplaced attribute only shows for the particular combination of storage, position and ignored members.",
[G+"bitfield_struct_feature.rs","bitfields_impl/src/generating/bitflag/bitflag_generator.rs",P+"bitfields/bitfield_parser.rs",P+"bitflags/bitflag_parser.rs"],
[("user attributes on the struct",G+"bitfield_struct_feature.rs"),("user attributes on enum and variants","bitfields_impl/src/generating/bitflag/bitflag_generator.rs")]))
R.append(p("C28","Behaviour does not depend on how fields and types are named",
"Renaming fields, ignored members or the bitfield itself changes nothing but the names of the generated items: names that look like internal variables (value, mask, this, offset), std names, raw identifiers (r#type), camel case, digits and trailing underscores all give the same behaviour, as long as two generated items do not get the same name. Functions, types and modules the user has in scope under std names (a Result alias, their own Option, Box, Default or Ok, a module named core) do not affect the generated code.",
["programs"],"every name of a list covering the generated code's internal names, std names, keywords as raw identifiers and unusual spellings, at every field kind and storage",
"Tests use a, b, c; hygiene failures need a particular field name next to a particular generated function.",
[G+"common/naming_extensions.rs",H,P+"bitfields/bitfield.rs"],
[("accessor and constant names",G+"common/naming_extensions.rs"),("field name",P+"bitfields/bitfield.rs")]))
R.append(p("C29","A declaration means the same however it is spelled",
"Writing the same declaration in other words gives the same bitfield. Storage and field types, array lengths, widths, defaults, argument values and names may come through macro_rules fragments, also nested ones; numbers may be hex, binary, octal or have underscores; types may be written with their path or as $crate paths; arguments may come in any order and end in a comma. A default expression has the value it has anywhere else in Rust, whether literal, constant, function call or operators inside fragments.",
["programs","inputs"],"pairwise-complete combinations of the spellings of every position with every storage, field kind, access, default and ignored member of the covering catalogue",
"Tests write every declaration in the same plain style; a lost group, token or precedence shows only for a particular fragment at a particular position.",
[P+"common/spanned_data_type.rs",P+"common/const_expr.rs",P+"common/attribute_argument_parser.rs",P+"bitfields/bits_attribute/bits_attribute_parser.rs",H],
[("type and array length parsing",P+"common/spanned_data_type.rs"),("default expressions",P+"common/const_expr.rs"),("argument parsing",P+"common/attribute_argument_parser.rs")]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(r)+"\n" for r in R))
for r in R:
    n=r["statement"].count(". ")+1
    if n>3: print(r["id"],n)
    for f in r["anchors"]["files"]+[m["where"] for m in r["anchors"]["mechanism"]]:
        import os
        if not os.path.exists("/repo/"+f): print("missing",f)
