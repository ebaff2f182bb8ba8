"""Builder of ELF files with known debug information, DWARF 2..5 in the 32 bit format (independent of objutils)."""
import copy

from vlib import elfgen
from vlib.dwarfcodes import NAMES
from vlib.dwarfnames import ATS, TAGS
from vlib.dwarfops import CODES, CODES_WITHOUT_ADDR, expression, sleb, uleb, word

FORMS = {"addr": 0x01, "block2": 0x03, "block4": 0x04, "data2": 0x05, "data4": 0x06, "data8": 0x07, "string": 0x08, "block": 0x09, "block1": 0x0A, "data1": 0x0B,
         "flag": 0x0C, "sdata": 0x0D, "strp": 0x0E, "udata": 0x0F, "ref_addr": 0x10, "ref1": 0x11, "ref2": 0x12, "ref4": 0x13, "ref8": 0x14, "ref_udata": 0x15,
         "sec_offset": 0x17, "exprloc": 0x18, "flag_present": 0x19, "line_strp": 0x1F, "ref_sig8": 0x20, "implicit_const": 0x21}
BY_VERSION = {2: [f for f, c in FORMS.items() if c <= 0x15]}
BY_VERSION[3] = BY_VERSION[2]
BY_VERSION[4] = BY_VERSION[2] + ["sec_offset", "exprloc", "flag_present", "ref_sig8"]
BY_VERSION[5] = list(FORMS)
BLOCKS = ("block", "block1", "block2", "block4", "exprloc")
REFS = ("ref1", "ref2", "ref4", "ref8", "ref_udata")
CONSTANTS = ("data1", "data2", "data4", "data8", "udata", "sdata")
BY_NAME = {n: c for c, n in ATS.items()}
# attributes whose blocks are rendered as expressions, and whose numbers as addresses
LOCATIONS = {BY_NAME[n] for n in ("location", "GNU_call_site_value", "frame_base", "GNU_call_site_target", "vtable_elem_location", "data_member_location", "return_addr")}
# attributes whose numbers are shown by their names: some names by number (from the DWARF standard)
MEANINGS = {
    "encoding": dict(enumerate("address boolean complex_float float signed signed_char unsigned unsigned_char imaginary_float packed_decimal numeric_string edited signed_fixed unsigned_fixed decimal_float UTF".split(), 1)),
    "decimal_sign": dict(enumerate("unsigned leading_overpunch trailing_overpunch leading_separate trailing_separate".split(), 1)),
    "endianity": dict(enumerate("default big little".split())),
    "accessibility": dict(enumerate("public protected private".split(), 1)),
    "visibility": dict(enumerate("local exported qualified".split(), 1)),
    "virtuality": dict(enumerate("none virtual pure_virtual".split())),
    "language": dict(enumerate("C89 C Ada83 C_plus_plus Cobol74 Cobol85 Fortran77 Fortran90 Pascal83 Modula2 Java C99 Ada95 Fortran95 PLI ObjC ObjC_plus_plus UPC D Python OpenCL Go Modula3 Haskell C_plus_plus_03 C_plus_plus_11 OCaml Rust C11 Swift Julia Dylan C_plus_plus_14 Fortran03 Fortran08 RenderScript BLISS".split(), 1)),
    "identifier_case": dict(enumerate("case_sensitive up_case down_case case_insensitive".split())),
    "calling_convention": dict(enumerate("normal program nocall pass_by_reference pass_by_value".split(), 1)),
    "inline": dict(enumerate("not_inlined inlined declared_not_inlined declared_inlined".split())),
    "ordering": dict(enumerate("row_major col_major".split())),
    "discr_list": dict(enumerate("label range".split())),
    "defaulted": dict(enumerate("no in_class out_of_class".split())),
}
for at, prefix in (("language", "LANG"), ("encoding", "ATE")):
    MEANINGS[at].update((code, n) for code, n in NAMES[prefix].items() if " " not in n and "user" not in n and not n.startswith("HP_") and (prefix, code) not in (("ATE", 0x11), ("ATE", 0x12)))
MEANING_CODES = {BY_NAME[n]: m for n, m in MEANINGS.items()}
OTHERS = [a for a in ATS if a not in LOCATIONS and a not in MEANING_CODES]
UNKNOWN_AT = [0x2E00, 0x3F77, 0x2222]
UNKNOWN_TAG = [0x5000, 0x4F01, 0x7ABC]


class Attr:
    """raw: the decoded value; kind: how it is shown (plain, location, meaning, ref, operations); ops: operations of an expression."""

    def __init__(self, at, form, data, raw, kind="plain", ops=None, target=None, size=None):
        self.at, self.form, self.data, self.raw, self.kind, self.ops, self.target, self.size = at, form, data, raw, kind, ops, target, size

    @property
    def name(self):
        return ATS.get(self.at)


class Die:
    def __init__(self, tag):
        self.tag, self.attrs, self.children, self.offset, self.flag = tag, [], [], None, False

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


class Unit:
    def __init__(self, version, addr, type):
        self.version, self.addr, self.type = version, addr, type
        self.root = None
        self.start = None


class Debug:
    """units, and the sections which encode them"""

    def __init__(self, cls, order):
        self.cls, self.order, self.units, self.sections = cls, order, [], {}

    def by_offset(self):
        return {d.offset: d for u in self.units for d in u.root.walk()}


class Strings:
    def __init__(self, rng):
        self.rng, self.blob = rng, bytearray(rng.choice((b"", b"\0", b"some\0")))
        self.known = {}

    def ref(self, s):
        if s in self.known and self.rng.random() < 0.8:
            return self.known[s]
        if self.rng.random() < 0.02:
            self.blob += b"p" * self.rng.choice((300, 70000)) + b"\0"
        self.known[s] = len(self.blob)
        self.blob += s.encode("utf-8") + b"\0"
        return self.known[s]


WORDS = ["int", "main", "x", "", "unsigned char", "_ZN3fooEv", "GNU C17 13.3.0 -mtune=generic -O2 -g", "/usr/src/a b/c.c", "operator<<", "größe", "日本語", "😀", "a" * 300, "T<int, char const*>", "%d;(x)", "0x10"]


def text(rng):
    if rng.random() < 0.003:
        return "n" * rng.choice((1024, 4096, 10000, 65535, 65536, 70000)) + "ame"
    return rng.choice(WORDS) if rng.random() < 0.7 else "".join(chr(rng.randrange(33, 127)) for _ in range(rng.randrange(1, 30)))


def rand_attr(rng, dbg, unit, strings, lines):
    o = dbg.order
    forms = BY_VERSION[unit.version]
    k = rng.random()
    if k < 0.2:
        at, pool, kind = rng.choice(sorted(LOCATIONS)), [f for f in forms if f in BLOCKS + CONSTANTS + ("sec_offset", "implicit_const")], "location"
    elif k < 0.35:
        at, pool, kind = rng.choice(sorted(MEANING_CODES)), [f for f in forms if f in CONSTANTS + ("implicit_const",)], "meaning"
    elif k < 0.5:
        at, pool, kind = BY_NAME["name"], [f for f in forms if f in ("string", "strp", "line_strp")], "plain"
    elif k < 0.53:
        at, pool, kind = rng.choice(UNKNOWN_AT), forms, "plain"
    else:
        at, pool, kind = rng.choice(OTHERS), forms, "plain"
    form = rng.choice(pool)
    n = {"data1": 1, "data2": 2, "data4": 4, "data8": 8, "flag": 1, "addr": unit.addr, "sec_offset": 4, "ref_sig8": 8}.get(form)
    if n is not None:
        v = word(rng, 8 * n)
        if kind == "meaning" and rng.random() < 0.7:
            v = rng.choice(list(MEANING_CODES[at]) or [0]) % (1 << (8 * n))
        return Attr(at, form, v.to_bytes(n, o), v, kind)
    if form in ("udata", "sdata", "implicit_const"):
        v = word(rng, 64) if rng.random() < 0.4 else rng.randrange(40)
        if kind == "meaning" and rng.random() < 0.7:
            v = rng.choice(list(MEANING_CODES[at]) or [0])
        if form != "udata" and rng.random() < 0.4:
            v = -v if kind == "plain" else v
        pad = rng.choice((0, 0, 0, 1))
        if form == "implicit_const":
            return Attr(at, form, b"", v, kind)
        return Attr(at, form, (uleb if form == "udata" else sleb)(v, pad), v, kind)
    if form == "string":
        s = text(rng)
        return Attr(at, form, s.encode() + b"\0", s, kind)
    if form in ("strp", "line_strp"):
        s = text(rng)
        return Attr(at, form, (strings if form == "strp" else lines).ref(s).to_bytes(4, o), s, kind)
    if form == "flag_present":
        return Attr(at, form, b"", 1, kind)
    if form in BLOCKS:
        ops = None
        if kind == "location":
            data, ops = expression(rng, o, dbg.cls // 8, rng.choice((0, 1, 1, 2, 3)), CODES if unit.addr == dbg.cls // 8 else CODES_WITHOUT_ADDR)
            while len(data) > {"block1": 255, "block2": 65535}.get(form, 1 << 30):
                data, ops = expression(rng, o, dbg.cls // 8, 1, [0x91, 0x9C, 0x50])
            kind = "operations"
        else:
            data = rng.randbytes(rng.choice((0, 1, 3, 8, 127, 128, 255) + ((256, 1000) if form != "block1" else ())))
            if form != "block1" and rng.random() < 0.01:
                data = rng.randbytes(rng.choice((40000, 65535) + ((65536, 70000) if form != "block2" else ())))
        size = len(data)
        head = uleb(size) if form in ("block", "exprloc") else size.to_bytes(int(form[5]), o)
        return Attr(at, form, head + data, data, kind, ops)
    # references: the value is known after everything is placed
    size = {"ref1": 1, "ref2": 2, "ref4": 4, "ref8": 8, "ref_udata": 5, "ref_addr": unit.addr if unit.version == 2 else 4}[form]
    if kind == "location":
        kind = "plain"
    return Attr(at, form, bytes(size), None, "ref", size=size)


def rand_tree(rng, dbg, unit, strings, lines, budget, nested=0):
    known = [t for t in TAGS]
    shapes = []  # entries whose abbreviation is used again in a large tree
    root = Die(0x11 if unit.version < 5 else {1: 0x11, 2: 0x41, 3: 0x3C, 4: 0x4A, 5: 0x11, 6: 0x41}[unit.type])
    root.attrs = [rand_attr(rng, dbg, unit, strings, lines) for _ in range(rng.choice((0, 1, 3, 8)))]
    open_ = [root]
    for n in range(budget):
        d = Die(rng.choice(known) if rng.random() < 0.95 else rng.choice(UNKNOWN_TAG))
        if len(shapes) == 50:
            s = rng.choice(shapes)  # (so that there are not too many abbreviations)
            d.tag, d.attrs = s.tag, [copy.copy(a) for a in s.attrs]
        else:
            shapes.append(d)
            d.attrs = [rand_attr(rng, dbg, unit, strings, lines) for _ in range(rng.choice((0, 0, 1, 2, 3, 3, 5, 12)) if rng.random() < 0.995 else rng.choice((64, 130, 300)))]
        style = rng.random()
        parent = root if nested < 0 else open_[-1] if style < 0.5 or n < nested else rng.choice(open_)
        parent.children.append(d)
        open_.append(d)
    for d in root.walk():
        d.flag = bool(d.children) or rng.random() < 0.15
    return root


def rand_debug(rng, cls=None, order=None, units=None, budget=None, nested=0):
    dbg = Debug(cls or rng.choice((32, 64)), order or rng.choice(("little", "big")))
    strings, lines = Strings(rng), Strings(rng)
    for _ in range(units or rng.choice((1, 1, 2, 3, 5))):
        version = rng.choice((2, 3, 4, 5))
        addr = dbg.cls // 8 if rng.random() < 0.8 else rng.choice((1, 2, 4, 8))
        u = Unit(version, addr, rng.choice((1, 1, 2, 3, 4, 5, 6)) if version == 5 else None)
        u.root = rand_tree(rng, dbg, u, strings, lines, (rng.choice((0, 1, 3, 8, 25)) if rng.random() < 0.985 else 120) if budget is None else budget, nested)
        dbg.units.append(u)
    encode(rng, dbg)
    dbg.sections[".debug_str"] = bytes(strings.blob)
    dbg.sections[".debug_line_str"] = bytes(lines.blob)
    return dbg


class Table:
    """Abbreviations of one or more units"""

    def __init__(self, rng):
        self.rng, self.codes, self.entries, self.offset = rng, {}, [], None
        self.dense = rng.random() < 0.6
        self.used = set()

    def new_code(self):
        if self.dense:
            return len(self.used) + 1
        while True:
            c = self.rng.choice((self.rng.randrange(1, 200), self.rng.randrange(1, 100000), self.rng.randrange(120, 132)))
            if c not in self.used:
                return c

    def code(self, die):
        key = (die.tag, die.flag, tuple((a.at, a.form, a.raw if a.form == "implicit_const" else None) for a in die.attrs))
        if key not in self.codes or self.rng.random() < 0.03:
            if self.rng.random() < 0.1:  # not referenced
                c = self.new_code()
                self.used.add(c)
                self.entries.append((c, self.rng.choice(list(TAGS)), self.rng.random() < 0.5, ((0x03, "string", None),)))
            c = self.new_code()
            self.used.add(c)
            self.codes[key] = c
            self.entries.append((c,) + key)
        return self.codes[key]

    def blob(self):
        rows = list(self.entries)
        if not self.dense or self.rng.random() < 0.3:
            self.rng.shuffle(rows)
        out = b""
        padded = self.rng.random() < 0.2  # integers of a fixed width, as assemblers with relaxation produce

        def number(v):
            return uleb(v, self.rng.choice((0, 0, 1, 2, 3))) if padded else uleb(v)

        for c, tag, flag, attrs in rows:
            out += number(c) + number(tag) + (b"\1" if flag else b"\0")
            for at, form, const in attrs:
                out += number(at) + number(FORMS[form]) + (sleb(const) if form == "implicit_const" else b"")
            out += b"\0\0"
        return out + b"\0"


def encode(rng, dbg):
    o = dbg.order
    tables = []
    out = bytearray()
    patches = []  # (position, attr, unit)
    header_patches = []
    for u in dbg.units:
        if not tables or rng.random() < 0.6:
            tables.append(Table(rng))
        table = rng.choice(tables)
        u.start = len(out)
        out += bytes(4) + u.version.to_bytes(2, o)
        if u.version < 5:
            header_patches.append((len(out), table))
            out += bytes(4) + bytes([u.addr])
        else:
            out += bytes([u.type, u.addr])
            header_patches.append((len(out), table))
            out += bytes(4)
            if u.type in (2, 4, 5, 6):
                out += rng.randbytes(8)
            if u.type in (2, 6):
                out += rng.choice((0x18, 0x40)).to_bytes(4, o)

        def place(die):
            die.offset = len(out)
            out.extend(uleb(table.code(die), rng.choice((1, 2, 3)) if rng.random() < 0.02 else 0))
            for a in die.attrs:
                if a.kind == "ref":
                    patches.append((len(out), a, u))
                out.extend(a.data)
            if die.flag:
                for c in die.children:
                    place(c)
                out.append(0)

        place(u.root)
        if rng.random() < 0.1:
            out += bytes(rng.choice((1, 2, 3)))  # padding by null entries
        u.end = len(out)
        out[u.start : u.start + 4] = (len(out) - u.start - 4).to_bytes(4, o)
    entries = {id(u): list(u.root.walk()) for u in dbg.units}
    everything = [d for u in dbg.units for d in entries[id(u)]]
    for pos, a, u in patches:
        if a.form == "ref_addr":
            fits = [d for d in everything if d.offset < 1 << (8 * a.size)]
            if not fits:
                fits = [dbg.units[0].root]
            a.target = rng.choice(fits)
            a.raw = a.target.offset
            out[pos : pos + a.size] = a.raw.to_bytes(a.size, o)
            continue
        inside = [d for d in entries[id(u)] if d.offset - u.start < (1 << (8 * a.size) if a.form != "ref_udata" else 1 << 35)]
        a.target = rng.choice(inside)
        a.raw = a.target.offset
        rel = a.raw - u.start
        out[pos : pos + a.size] = rel.to_bytes(a.size, o) if a.form != "ref_udata" else uleb(rel, 5 - len(uleb(rel)))
    ab = bytearray()
    rng.shuffle(tables)
    for t in tables:
        if rng.random() < 0.01:  # not used by any unit
            for c in range(1, rng.choice((20, 6000, 20000))):
                ab += uleb(c) + b"\x34\0\x03\x08\0\0"
            ab += b"\0"
        t.offset = len(ab)
        ab += t.blob()
    for pos, t in header_patches:
        out[pos : pos + 4] = t.offset.to_bytes(4, o)
    dbg.sections[".debug_info"] = bytes(out)
    dbg.sections[".debug_abbrev"] = bytes(ab)


def elf_file(rng, dbg, extra=()):
    elf = elfgen.Elf(dbg.cls, dbg.order)
    names = [n for n, c in dbg.sections.items() if c or n not in (".debug_str", ".debug_line_str")] + list(extra)
    secs = [elfgen.Sec(n, content=dbg.sections.get(n, b"\1\2\3")) for n in names]
    shstr = elfgen.Sec(".shstrtab", elfgen.SHT_STRTAB)
    secs.append(shstr)
    rng.shuffle(secs)
    table, offs = elfgen.string_table(rng, [s.name for s in secs] + [""])
    shstr.content, shstr.size = table, len(table)
    elf.sections = [elfgen.Sec("", elfgen.SHT_NULL)] + secs
    for s in elf.sections:
        s.name_off = offs[s.name]
    elf.shstrndx = elf.sections.index(shstr)
    return elf.build(rng)
