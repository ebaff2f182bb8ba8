"""Builder of ELF files with known contents (independent of objutils)."""
import struct

SHT_NULL, SHT_PROGBITS, SHT_SYMTAB, SHT_STRTAB, SHT_NOTE, SHT_NOBITS, SHT_DYNSYM = 0, 1, 2, 3, 7, 8, 11
SHF_WRITE, SHF_ALLOC, SHF_EXECINSTR = 1, 2, 4
SPECIAL = {0: "SHN_UNDEF", 0xFFF1: "SHN_ABS", 0xFFF2: "SHN_COMMON"}


class Sec:
    def __init__(self, name, type=SHT_PROGBITS, flags=0, addr=0, content=b"", size=None, link=0, info=0, align=1, entsize=0):
        self.name, self.type, self.flags, self.addr, self.content, self.link, self.info, self.align, self.entsize = name, type, flags, addr, content, link, info, align, entsize
        self.size = len(content) if size is None else size
        self.offset = None
        self.name_off = 0
        self.notes = []

    @property
    def has_contents(self):
        return self.type not in (SHT_NULL, SHT_NOBITS) and self.size > 0

    @property
    def image(self):
        return self.content if self.has_contents else None


class Elf:
    """cls: 32/64; order: 'little'/'big'."""

    def __init__(self, cls, order):
        self.cls, self.order = cls, order
        self.e = "<" if order == "little" else ">"
        self.hdr = dict(ei_version=1, ei_osabi=0, ei_abiversion=0, e_type=2, e_machine=62, e_version=1, e_entry=0, e_flags=0)
        self.sections = []
        self.segments = []
        self.shstrndx = None
        self.extended = ()  # numbers which are kept in the first section header

    @property
    def addr_bits(self):
        return self.cls

    def pack_header(self):
        h = self.hdr
        ident = b"\x7fELF" + bytes([1 if self.cls == 32 else 2, 1 if self.order == "little" else 2, h["ei_version"], h["ei_osabi"], h["ei_abiversion"]])
        fmt = "HHIIIIIHHHHHH" if self.cls == 32 else "HHIQQQIHHHHHH"
        return ident.ljust(16, b"\0") + struct.pack(
            self.e + fmt, h["e_type"], h["e_machine"], h["e_version"], h["e_entry"], h["e_phoff"], h["e_shoff"], h["e_flags"], h["e_ehsize"],
            h["e_phentsize"], h["e_phnum"], h["e_shentsize"], h["e_shnum"], h["e_shstrndx"])

    def pack_section(self, s):
        fmt = "IIIIIIIIII" if self.cls == 32 else "IIQQQQIIQQ"
        return struct.pack(self.e + fmt, s.name_off, s.type, s.flags, s.addr, s.offset, s.size, s.link, s.info, s.align, s.entsize)

    def pack_segment(self, p):
        if self.cls == 32:
            return struct.pack(self.e + "IIIIIIII", p["p_type"], p["p_offset"], p["p_vaddr"], p["p_paddr"], p["p_filesz"], p["p_memsz"], p["p_flags"], p["p_align"])
        return struct.pack(self.e + "IIQQQQQQ", p["p_type"], p["p_flags"], p["p_offset"], p["p_vaddr"], p["p_paddr"], p["p_filesz"], p["p_memsz"], p["p_align"])

    def pack_symbol(self, s):
        info = s["bind"] << 4 | s["type"]
        if self.cls == 32:
            return struct.pack(self.e + "IIIBBH", s["name_off"], s["value"], s["size"], info, s["other"], s["shndx"])
        return struct.pack(self.e + "IBBHQQ", s["name_off"], info, s["other"], s["shndx"], s["value"], s["size"])

    @property
    def sym_size(self):
        return 16 if self.cls == 32 else 24

    def build(self, rng=None, alias=False):
        """Places everything; returns the file. alias: plain sections may share file contents with others (or the headers)."""
        rng = rng or _NoRandom()
        ehsize, phent, shent = (52, 32, 40) if self.cls == 32 else (64, 56, 64)
        parts = []  # (kind, object, bytes, alignment)
        for s in self.sections:
            if s.has_contents:
                parts.append(("sec", s, s.content, rng.choice([1, 1, 4, 8, 16])))
            elif s.offset is None:
                s.offset = rng.choice([0, 64, 0x1000]) if s.type != SHT_NULL else 0
        parts.append(("sh", None, bytes(shent * len(self.sections)), 8))
        if self.segments:
            parts.append(("ph", None, bytes(phent * len(self.segments)), 8))
        rng.shuffle(parts)
        blob = bytearray(ehsize)
        shoff = phoff = 0
        for kind, s, data, align in parts:
            blob += rng.randbytes(rng.choice([0, 0, 1, 3, 20]))
            blob += bytes(-len(blob) % align)
            if kind == "sec":
                s.offset = len(blob)
            elif kind == "sh":
                shoff = len(blob) if self.sections else 0
            else:
                phoff = len(blob)
            blob += data
        blob += rng.randbytes(rng.choice([0, 0, 5]))
        self.hdr.update(e_phoff=phoff, e_shoff=shoff, e_ehsize=ehsize, e_phentsize=phent, e_phnum=len(self.segments), e_shentsize=shent, e_shnum=len(self.sections),
                        e_shstrndx=self.shstrndx or 0)
        if "sections" in self.extended:
            self.hdr["e_shnum"], self.sections[0].size = 0, len(self.sections)
        if "segments" in self.extended:
            self.hdr["e_phnum"], self.sections[0].info = 0xFFFF, len(self.segments)
        if "names" in self.extended:
            self.hdr["e_shstrndx"], self.sections[0].link = 0xFFFF, self.shstrndx
        blob[:ehsize] = self.pack_header()
        shared = []
        for s in self.sections if alias and rng.random() < 0.3 else ():
            if s.has_contents and s.type not in (18, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_NOTE) and s.name not in (".comment", ".ARM.attributes") and rng.random() < 0.3:
                s.offset = rng.choice([0, 0, rng.randint(0, len(blob) - s.size), len(blob) - s.size] + [min(t.offset, len(blob) - s.size) for t in self.sections])
                shared.append(s)
        for i, s in enumerate(self.sections):
            blob[shoff + i * shent : shoff + (i + 1) * shent] = self.pack_section(s)
        for i, p in enumerate(self.segments):
            blob[phoff + i * phent : phoff + (i + 1) * phent] = self.pack_segment(p)
        for s in shared:
            s.content = bytes(blob[s.offset : s.offset + s.size])
        return bytes(blob)


class _NoRandom:
    choice = staticmethod(lambda seq: seq[0])
    shuffle = staticmethod(lambda seq: None)
    randbytes = staticmethod(lambda n: bytes(n))


def string_table(rng, names):
    """Table holding all names; suffixes are shared sometimes. -> (bytes, {name: offset})"""
    out = bytearray(b"\0")
    offs = {"": 0}
    order = sorted(set(names), key=lambda n: (-len(n), n)) if rng is None or rng.random() < 0.5 else sorted(set(names))
    for n in order:
        if n in offs:
            continue
        b = n.encode() + b"\0"
        p = out.find(b)
        if p >= 0:
            offs[n] = p
        else:
            offs[n] = len(out)
            out += b
    return bytes(out), offs


def note(order, name, type, desc, align):
    """One note entry; name is stored with its terminator."""
    nb = name.encode() + b"\0" if name else b""
    w = lambda v: v.to_bytes(4, order)
    b = w(len(nb)) + w(len(desc)) + w(type) + nb
    b += bytes(-len(b) % align)
    b += desc
    return b + bytes(-len(b) % align)


# -- random files ------------------------------------------------------------------------
NAMES = [".text", ".data", ".bss", ".rodata", ".init", ".fini", ".debug_info", ".debug_line", ".dwo_x", ".vectors", ".isr", ".data.rel.ro", ".text.main", "boot", "ram", ".x", ".calib", ".debug_frame", ".debug_gdb_scripts", ".debug_info.dwo",
         ".symbols", "a", "A" * 60, ".te", ".tex", "_s$1", ".text2", ".dat", "x.text", ".gr\u00f6\u00dfe", "\u30c7\u30fc\u30bf"]
SYMS = ["main", "_start", "foo", "bar", "foo.1", "_Z3fooi", "__bss_start", "_end", "counter", "Counter", "x", "y", "table", "$d", "$a", "file.c", "crt0.S", "fo", "foobar", "a" * 100, "_edata", "_", "main2", "_main", "gr\u00f6\u00dfe", "Gr\u00f6\u00dfe", "\u5909\u6570", "\U0001f600"]


def rand_word(rng, bits):
    k = rng.random()
    if k < 0.3:
        return rng.choice([0, 1, 2, 4, 0x1000, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1])
    if k < 0.6:
        return rng.getrandbits(16)
    return rng.getrandbits(bits)


class Info:
    """What a file contains."""

    def __init__(self, elf):
        self.elf = elf
        self.symbols = []  # dicts incl. section_name, access
        self.comment = None

    @property
    def notes(self):
        """(section name, type, name, desc) by section name, in file order."""
        return [(s.name,) + n for s in sorted(self.elf.sections, key=lambda s: s.name) for n in s.notes]


def rand_elf(rng, disjoint=False, machine=None, small=False, many=False, huge=False, crowd=False, undebugged=False):
    """A random file with everything in it. crowd: a symbol table of more than 65536 entries. undebugged: no sections with debugging information. disjoint: allocated contents do not overlap in memory."""
    cls, order = rng.choice([32, 64]), rng.choice(["little", "big"])
    elf = Elf(cls, order)
    info = Info(elf)
    h = elf.hdr
    h.update(ei_version=rng.choice([1, 1, rng.randrange(256)]), ei_osabi=rng.choice([0, 3, 97, rng.randrange(256)]), ei_abiversion=rng.randrange(256),
             e_type=rng.choice([1, 2, 3, 4, rng.getrandbits(16)]), e_machine=rng.choice([3, 62, 8, 20, 183, 83, 40, rng.getrandbits(16)]) if machine is None else machine,
             e_version=rng.choice([1, rng.getrandbits(32)]), e_entry=rand_word(rng, cls), e_flags=rng.getrandbits(32))
    S = elf.sections
    S.append(Sec("", SHT_NULL))
    if rng.random() < 0.1:  # extended numbering leaves values in the null section
        S[0].info, S[0].link = rng.getrandbits(32), rng.getrandbits(32)
    n = rng.choice([0, 1, 2, 3, 5]) if small else rng.randint(300, 1500) if huge else rng.choice([0, 1, 2, 4, 6, 10, 20])
    cursor = rng.choice([0, 0x1000, 0x8000, (1 << cls) // 2 - 40, (1 << cls) - 0x8000]) if not huge else rng.choice([0, 0x1000, 1 << 31])
    for _ in range(n):
        name = rng.choice(NAMES if not undebugged else [n for n in NAMES if not n.startswith((".debug", ".dwo"))]) if not huge or rng.random() < 0.1 else ".text.f%d" % rng.randrange(100000)
        typ = rng.choice([SHT_PROGBITS] * 5 + [SHT_NOBITS, SHT_NOBITS, 4, 5, 6, 9, 14, 15, 17, 0x60000001, 0x6FFFFFF6, 0x70000001, 0x70000003, 0x80000001, 0xFFFFFFFF, SHT_NULL])
        flags = rng.choice([0, SHF_ALLOC, SHF_ALLOC, SHF_ALLOC | SHF_WRITE, SHF_ALLOC | SHF_EXECINSTR, SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR, 0x30, 0x32, 0x400 | SHF_ALLOC, SHF_WRITE, rand_word(rng, cls)])
        size = rng.choice([0, 1, 4, 16, 33, rng.randint(0, 200)])
        if typ == SHT_NOBITS and rng.random() < 0.3:
            size = rand_word(rng, cls)
        content = rng.randbytes(size) if typ not in (SHT_NULL, SHT_NOBITS) else b""
        addr = rand_word(rng, cls)
        if disjoint:
            addr = cursor
            cursor += (size if typ != SHT_NOBITS else 16) + rng.choice([0, 0, 1, 16, 0x100])
        if rng.random() < 0.02:
            name = "." + "s" * rng.choice((255, 256, 1023, 1024, 2500, 5000, 40000))
        S.append(Sec(name, typ, flags, addr, content, size, rng.choice([0, 1, rng.getrandbits(32)]), rng.choice([0, rng.getrandbits(32)]), rng.choice([0, 1, 4, 16, rand_word(rng, cls)]), rng.choice([0, 4, rand_word(rng, cls)])))
    for _ in range(rng.choice([0, 1, 1, 2]) if not huge else rng.randint(20, 80)):
        align = rng.choice([1, 4, 4, 8])
        name = rng.choice([".note.gnu.build-id", ".note.ABI-tag", ".note", ".note.go"])
        blob, entries = b"", []
        for _ in range(rng.choice([1, 1, 2, 3])):
            nm, t, d = rng.choice(["GNU", "Go", "", "stapsdt", "X" * 20, "CORE", "Ger\u00e4t"]), rng.getrandbits(32), rng.randbytes(rng.choice([0, 1, 4, 16, 20, 37]))
            blob += note(order, nm, t, d, 8 if align == 8 else 4)
            entries.append((t, nm, d.hex()))
        S.append(Sec(name, SHT_NOTE, rng.choice([0, SHF_ALLOC]), 0 if not disjoint else cursor, blob, align=align))
        S[-1].notes = entries
        cursor += len(blob) + 16
    if rng.random() < 0.6:
        lines = [rng.choice(["GCC: (GNU) 13.3.0", "clang version 18", "x", "Linker: LLD", "a b  c", "f\u00fcr \u03bcC", " "]) for _ in range(rng.choice([1, 1, 2, 3]))]
        blob = b"".join(rng.choice([b"", b"", b"\0"]) + ln.encode() + b"\0" for ln in lines)
        S.append(Sec(".comment", SHT_PROGBITS, 0x30, 0, blob, entsize=1))
        info.comment = "\n".join(lines)
    shstr = None
    if rng.random() < 0.97:
        shstr = Sec(".shstrtab", SHT_STRTAB)
        S.append(shstr)
    tables = []
    stem = "_ZN%d" % rng.getrandbits(16) + "x" * rng.choice((0, 0, 40, 90)) if huge else ""  # (string tables beyond 64K)
    for kind in rng.choice([["symtab"], ["symtab"], ["symtab", "dynsym"], ["dynsym"], []]):
        sym = Sec("." + kind, SHT_SYMTAB if kind == "symtab" else SHT_DYNSYM, 0, 0, b"", align=8, entsize=elf.sym_size)
        st = Sec(".strtab" if kind == "symtab" else ".dynstr", SHT_STRTAB)
        S += [sym, st]
        tables.append((sym, st))
    wide = None
    if rng.random() < 0.06 and any(sym.type == SHT_SYMTAB for sym, _ in tables):
        wide = Sec(".symtab_shndx", 18, align=4, entsize=4)
        S.append(wide)
    body = S[1:]
    rng.shuffle(body)
    S[1:] = body
    for sym, st in tables:
        sym.link = S.index(st)
        k = 65536 + rng.randint(1, 2000) if crowd else rng.randint(2000, 6000) if huge else rng.choice([20, 40, 60]) if many else rng.choice([0, 1, 3, 8, 20])
        entries = [dict(name="", value=0, size=0, bind=0, type=0, other=0, shndx=0)] if k else []
        for _ in range(k):
            shndx = rng.choice([0, 0xFFF1, 0xFFF2]) if crowd else rng.choice([0, 0xFFF1, 0xFFF2] + [rng.randrange(len(S))] * 4 + [len(S) + rng.randint(0, 50)])
            entries.append(dict(name=rng.choice(SYMS + [""]) if not huge or rng.random() < 0.2 else "f%x" % rng.getrandbits(30) + stem, value=rand_word(rng, cls), size=rand_word(rng, cls), bind=rng.choice([0, 1, 2, 1, 2, 10, 13, 15, 3]),
                                type=rng.choice([0, 1, 2, 3, 4, 5, 6, 1, 2, 10, 13, 15, 7]), other=rng.choice([0, 0, 1, 2, 3, rng.randrange(256)]), shndx=shndx))
            if rng.random() < 0.01 and not huge and not crowd:  # (like those of C++ templates)
                entries[-1]["name"] = "_Z" + "n" * rng.choice((255, 256, 1023, 1024, 2500, 5000, 40000)) + rng.choice("ab")
        for e in entries[1:] if many else ():
            if rng.random() < 0.08:  # like those of linker scripts
                e.update(name=rng.choice(["__bss_start", "_end", "_edata", "_", "_stack", "__heap_size"]), shndx=0xFFF1, type=rng.choice([0, 0, 0, 1]))
            if rng.random() < 0.5:
                e.update(bind=rng.choice([0, 1, 2]), type=rng.choice([0, 1, 2, 3, 4]))
        table, offs = string_table(rng, [e["name"] for e in entries])
        if rng.random() < 0.1 and not any(e["name"] for e in entries):
            table = b""
        st.content, st.size = table, len(table)
        real = {}
        if wide and sym.type == SHT_SYMTAB:
            for n, e in enumerate(entries):
                if n and 0 < e["shndx"] < len(S) and rng.random() < 0.5:
                    real[n], e["real"], e["shndx"] = e["shndx"], e["shndx"], 0xFFFF
            wide.content = b"".join(real.get(n, 0).to_bytes(4, order) for n in range(len(entries)))
            wide.size, wide.link = len(wide.content), S.index(sym)
        for e in entries:
            e["name_off"] = offs[e["name"]]
            if not e["name"] and rng.random() < 0.3:
                e["name_off"] = len(table)  # conventional "no name"
            e["table"] = sym
        sym.content = b"".join(elf.pack_symbol(e) for e in entries)
        sym.size = len(sym.content)
        info.symbols += entries
    if shstr is not None:
        table, offs = string_table(rng, [s.name for s in S])
        shstr.content, shstr.size = table, len(table)
        for s in S:
            s.name_off = offs[s.name]
        elf.shstrndx = S.index(shstr)
    else:
        for s in S:
            s.name = ""
            s.name_off = rng.choice([0, 5])
        elf.shstrndx = 0
        info.comment = None
    for e in info.symbols:
        n = e.get("real", e["shndx"])
        e["section_name"] = (SPECIAL.get(n) if "real" not in e else None) or (S[n].name if n < len(S) else str(n))
        e["access"] = S[n].flags if 0 < n < len(S) else 0
    if rng.random() < 0.05 and not info.symbols:
        # no section headers at all
        elf.sections = []
        elf.shstrndx = 0
        info.comment = None
    for _ in range(rng.choice([0, 0, 1, 2, 4]) if not huge else rng.randint(20, 300)):
        elf.segments.append(dict(p_type=rng.choice([0, 1, 2, 3, 4, 6, 7, 0x6474E550, 0x70000001, rng.getrandbits(32)]), p_offset=rand_word(rng, cls), p_vaddr=rand_word(rng, cls),
                                 p_paddr=rand_word(rng, cls), p_filesz=rand_word(rng, cls), p_memsz=rand_word(rng, cls), p_flags=rng.choice([4, 5, 6, 7, rng.getrandbits(32)]), p_align=rand_word(rng, cls)))
    if elf.sections and rng.random() < 0.06:
        elf.extended = [k for k in ["sections", "segments"] + ["names"] * (elf.shstrndx != 0) if rng.random() < 0.6]
    return info
