"""C15: ELF metadata is reported exactly as encoded in the file."""
import enum
import os
import re
import subprocess

from objutils.elf import ElfParser, defs, model

from vlib import elfgen
from vlib.core import Stream, attempt
from vlib.elfnames import NAMES

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("synthetic ELF files (32/64 bit, little/big endian) with arbitrary header, section, segment, symbol, note and comment contents whose encoding is known, "
        "opened directly, through the class of every accessor and again from the side-car database; objects of gcc and clang for a dozen targets compared with "
        "readelf; every machine code with arbitrary flags; the enumerations against the names of elf.h; damaged and foreign files; distinct = distinct (class, byte order, number of sections, symbols, segments and notes / program, target)")
REQUIRED = {"files": 600, "sections": 3000, "symbols": 1500, "segments": 300, "notes": 150, "comments": 150, "reopened": 600, "rejected files": 200, "fields above 2**63": 100,
            "machines named": 100, "machine flags": 100, "names of codes": 250, "huge files": 4, "long names": 30, "symbol tables beyond 65536": 1, "files with extended numbering": 15}
TIME_QUICK = 200

HDR = ["ei_version", "ei_osabi", "ei_abiversion", "e_type", "e_machine", "e_version", "e_entry", "e_phoff", "e_shoff", "e_flags", "e_ehsize", "e_phentsize", "e_phnum",
       "e_shentsize", "e_shnum", "e_shstrndx"]
SHF = {"flag_writeable": 1, "flag_alloc": 2, "flag_executable": 4, "flag_merge": 0x10, "flag_strings": 0x20, "flag_info_link": 0x40, "flag_link_order": 0x80,
       "flag_os_nonconforming": 0x100, "flag_group": 0x200, "flag_tls": 0x400, "flag_ordered": 0x40000000, "flag_exclude": 0x80000000}
SEGMENT = ["p_type", "p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz", "p_flags", "p_align"]


def symbol_key(s):
    return tuple(str(x) for x in s)


def compare(case, ep, info, blob):
    """Everything the parser reports against what was encoded."""
    elf = info.elf
    case.equal(ep.ei_class, 1 if elf.cls == 32 else 2, "wrong header field (ei_class)")
    case.equal(ep.ei_data, 1 if elf.order == "little" else 2, "wrong header field (ei_data)")
    case.equal(ep.endianess, elf.e, "wrong byte order")
    case.equal(bool(ep.b64), elf.cls == 64, "wrong class")
    for f in HDR:
        case.equal(getattr(ep, f), elf.hdr[f], "wrong header field (%s)" % f)
    case.equal(ep.header_bytes, blob[:16], "wrong header bytes")
    # program headers
    segs = list(ep.segments)
    case.equal(len(segs), len(elf.segments), "wrong number of segments")
    for got, want in zip(segs, elf.segments):
        for f in SEGMENT:
            case.equal(getattr(got, f), want[f], "wrong segment field (%s)" % f)
        case.seen("segments")
        case.seen("fields above 2**63", sum(v >= 1 << 63 for v in want.values()))
    # sections
    secs = ep.sections.fetch()
    case.equal(len(secs), len(elf.sections), "wrong number of sections")
    case.equal(sorted(s.index for s in secs), list(range(len(elf.sections))), "wrong section indices")
    for got in secs:
        want = elf.sections[got.index]
        w = dict(section_name=want.name, sh_name=want.name_off, sh_type=want.type, sh_flags=want.flags, sh_addr=want.addr, sh_offset=want.offset, sh_size=want.size,
                 sh_link=want.link, sh_info=want.info, sh_addralign=want.align, sh_entsize=want.entsize)
        for f, v in w.items():
            if getattr(got, f) != v:
                case.fail("wrong section field (%s)" % f, "section %d %r: %r instead of %r" % (got.index, want.name, getattr(got, f), v))
            case.ev()
        img = got.section_image
        case.check((None if img is None else bytes(img)) == want.image, "wrong section contents", "section %d %r" % (got.index, want.name))
        case.check(bool(got.has_content) == want.has_contents, "wrong section property (has_content)")
        for f, mask in SHF.items():
            case.check(bool(getattr(got, f)) == (want.flags & mask == mask), "wrong section property (%s)" % f, "flags %#x" % want.flags)
        case.check(bool(got.is_debug) == want.name.startswith(".debug"), "wrong section property (is_debug)")
        case.check(bool(got.is_dwo) == want.name.startswith(".dwo"), "wrong section property (is_dwo)")
        case.seen("sections")
    for name in {s.name for s in elf.sections} | {".no_such_section"}:
        got = ep.sections.get(name)
        match = [s for s in elf.sections if s.name == name]
        case.check((got is None) == (not match), "wrong result of sections.get()", name)
        if got is not None:
            case.check(elf.sections[got.index].name == name, "wrong result of sections.get()", name)
    # symbols
    groups = ep.symbols.fetch()
    got = []
    for name, group in groups.items():
        for s in group:
            case.check(s.section_name == name, "symbol in wrong group")
            got.append((s.symbol_name, s.st_name, s.st_value, s.st_size, s.st_bind, s.st_type, s.st_other, s.st_shndx, s.section_name, s.access))
            flags = s.access
            case.check(bool(s.weak) == (s.st_bind == 2) and bool(s.local) == (s.st_bind == 0) and bool(s.global_) == (s.st_bind == 1), "wrong symbol property (binding)", "st_bind %d" % s.st_bind)
            case.check(bool(s.absolute) == (s.st_shndx == 0xFFF1) and bool(s.undefined) == (s.st_shndx == 0), "wrong symbol property (section index)", "st_shndx %#x" % s.st_shndx)
            case.check(bool(s.hidden) == (s.st_other & 3 in (1, 2)), "wrong symbol property (visibility)", "st_other %#x" % s.st_other)
            case.check(bool(s.writeable) == bool(flags & 1) and bool(s.allocate) == bool(flags & 2) and bool(s.executeable) == bool(flags & 4), "wrong symbol property (access)", "%#x" % flags)
    want = [(e["name"], e["name_off"], e["value"], e["size"], e["bind"], e["type"], e["other"], e["shndx"], e["section_name"], e["access"]) for e in info.symbols]
    case.seen("symbols", len(want))
    case.seen("fields above 2**63", sum(e["value"] >= 1 << 63 for e in info.symbols))
    if sorted(got, key=symbol_key) != sorted(want, key=symbol_key):
        missing = [w for w in want if w not in got]
        extra = [g for g in got if g not in want]
        field = ""
        if missing and extra:
            for names, m, x in [(("name", "st_name", "value", "size", "binding", "type", "st_other", "st_shndx", "section", "access"), missing[0], extra[0])]:
                bad = [n for n, p, q in zip(names, m, x) if p != q]
                field = bad[0] if len(bad) == 1 else ""
        case.fail("wrong symbols" + (" (%s)" % field if field else ""), "missing %r, unexpected %r" % (missing[:2], extra[:2]))
    case.ev()
    # notes and comment
    notes = [(n.section_name, n.type, n.name, n.desc) for n in ep.notes]
    case.equal(notes, info.notes, "wrong notes")
    case.seen("notes", len(notes))
    case.equal(ep.comment or None, info.comment, "wrong compiler comment")
    case.seen("comments", info.comment is not None)
    m = ep.machine_data
    case.check(isinstance(m, str) and m == ep.machine_data, "machine description changes")
    names = {62: "X86_64", 3: "386", 8: "MIPS", 20: "PPC", 40: "ARM", 183: "AARCH64", 83: "AVR"}
    if elf.hdr["e_machine"] in names:
        case.check(m.split(" ")[0] == names[elf.hdr["e_machine"]], "wrong machine", "%s for %d" % (m, elf.hdr["e_machine"]))


def close(ep):
    ep.db.close()


def huge(case):
    """Hundreds of sections, thousands of symbols."""
    synthetic(case, True)
    case.seen("huge files")


def crowd(case):
    """More symbols than 16 bits can count."""
    synthetic(case, crowd=True)


def synthetic(case, huge=False, crowd=False):
    rng = case.rng
    info = elfgen.rand_elf(rng, huge=huge, crowd=crowd)
    elf = info.elf
    blob = elf.build(rng, alias=True)
    path = os.path.join(case.scratch, "f.elf")
    with open(path, "wb") as f:
        f.write(blob)
    case.note(file="%d bits %s endian, %d bytes" % (elf.cls, elf.order, len(blob)), sections=[(s.name, s.type, hex(s.flags), hex(s.addr), s.size) for s in elf.sections])
    ep = ElfParser(path)
    compare(case, ep, info, blob)
    case.seen("files")
    case.seen("long names", any(len(e["name"]) > 1000 for e in info.symbols) or any(len(s.name) > 1000 for s in elf.sections))
    case.seen("symbol tables beyond 65536", any(s.type in (2, 11) and s.size // elf.sym_size > 65536 for s in elf.sections))
    case.seen("files with extended numbering", bool(elf.extended) or any("real" in s for s in info.symbols))
    close(ep)
    ep = ElfParser(path)
    compare(case, ep, info, blob)
    case.seen("reopened")
    close(ep)
    with open(path, "rb") as f:
        case.check(f.read() == blob, "file changed")
    case.distinct(elf.cls, elf.order, len(elf.sections), len(info.symbols), len(elf.segments), len(info.notes))
    case.sample("%d-bit %s endian: %d sections, %d segments, %d symbols, %d notes" % (elf.cls, elf.order, len(elf.sections), len(elf.segments), len(info.symbols), len(info.notes)))


def two_files(case):
    """Files of different kind open at the same time do not influence each other."""
    rng = case.rng
    opened = []
    for i in range(3):
        info = elfgen.rand_elf(rng, small=True)
        blob = info.elf.build(rng, alias=True)
        path = os.path.join(case.scratch, "f%d.elf" % i)
        with open(path, "wb") as f:
            f.write(blob)
        opened.append((ElfParser(path), info, blob))
    rng.shuffle(opened)
    for ep, info, blob in opened:
        compare(case, ep, info, blob)
        case.seen("files")
    for ep, _, _ in opened:
        close(ep)


def rejected(case):
    rng = case.rng
    info = elfgen.rand_elf(rng, small=True)
    blob = info.elf.build(rng)
    k = rng.choice(["magic", "magic", "truncated header", "text", "empty", "data encoding", "zeros", "short"])
    if k == "magic":
        b = bytearray(blob)
        i = rng.randrange(4)
        b[i] ^= 1 << rng.randrange(8)
        bad = bytes(b)
    elif k == "truncated header":
        bad = blob[: rng.randint(1, info.elf.hdr["e_ehsize"] - 1)]
    elif k == "text":
        bad = b"S00600004844521B\r\n" * 10
    elif k == "empty":
        bad = b""
    elif k == "data encoding":
        bad = blob[:5] + bytes([rng.choice([0, 3, 255])]) + blob[6:]
    elif k == "zeros":
        bad = bytes(len(blob))
    else:
        bad = b"\x7fELF"[: rng.randint(1, 4)]
    path = os.path.join(case.scratch, "bad.elf")
    with open(path, "wb") as f:
        f.write(bad)
    for attempt_no in range(2):  # also when a side-car file was left behind
        out = attempt(ElfParser, path)
        if out.ok:
            close(out.value)
        case.check(not out.ok, "file accepted that is not an ELF file (%s)" % k, "attempt %d" % attempt_no)
        case.seen("rejected files")
    # the right contents are accepted afterwards
    tmp = path + ".new"
    with open(tmp, "wb") as f:
        f.write(blob)
    os.replace(tmp, path)
    ep = ElfParser(path)
    compare(case, ep, info, blob)
    close(ep)
    case.distinct("rejected", k, len(bad) if k in ("truncated header", "short") else 0)


# -- real objects against readelf -------------------------------------------------------------
SRC = {
    "small.c": "int counter = 7; static int hidden_one; extern int other(int); const char *msg = \"hello\"; __attribute__((weak)) int weak_one(void) { return counter; }\n"
    "__attribute__((visibility(\"hidden\"))) int hid(int x) { hidden_one += x; return hidden_one; }\n__thread int tls_var = 3; int common_like; int use(void) { return other(weak_one() + hid(2)) + tls_var + common_like; }\n",
    "tables.c": "const unsigned char rom[300] = {1,2,3}; unsigned char ram[77]; __attribute__((section(\".calib\"))) int calib = 5; __attribute__((section(\".isr\"))) void isr(void) { ram[0]++; }\n"
    "static int f(int a) { return a ? a * f(a - 1) : 1; } int g(int a) { return f(a) + rom[a]; } static const char local_str[] = \"abc\"; const char *get(void) { return local_str; }\n",
    "main.c": "static int x[10]; int y = 1; int main(int argc, char **argv) { x[argc] = y; return x[0]; }\n",
}
TARGETS = ["x86_64-linux-gnu", "i386-linux-gnu", "arm-none-eabi", "armeb-none-eabi", "aarch64-none-elf", "aarch64_be-none-elf", "mips-linux-gnu", "mipsel-linux-gnu", "mips64-linux-gnu",
           "powerpc-linux-gnu", "powerpc64-linux-gnu", "powerpc64le-linux-gnu", "riscv32-none-elf", "riscv64-none-elf", "sparc-none-elf", "sparcv9-none-elf", "s390x-linux-gnu", "avr-none-elf", "msp430-none-elf",
           "hexagon-none-elf", "m68k-none-elf", "loongarch64-linux-gnu"]
PROGRAMS = []


def tool(name):
    for d in ("/usr/bin", "/usr/local/bin", "/bin"):
        if os.access(os.path.join(d, name), os.X_OK):
            return os.path.join(d, name)
    return None


def prepare(base, tier):
    """Compile the programs once; PROGRAMS is inherited by the workers."""
    gcc, clang, lld, readelf = tool("gcc"), tool("clang"), tool("ld.lld"), tool("readelf")
    PROGRAMS.clear()
    if not readelf:
        return
    d = os.path.join(base, "programs")
    os.makedirs(d)
    for n, t in SRC.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    jobs = []
    if gcc:
        for n in SRC:
            for i, opt in enumerate((["-O0"], ["-O2", "-g"], ["-Os", "-fPIC", "-ffunction-sections", "-fdata-sections"])):
                jobs.append(("gcc %s %s" % (n, " ".join(opt)), "gcc%d_%s.o" % (i, n), [gcc, *opt, "-c", n]))
        jobs.append(("gcc linked", "linked_gcc.elf", [gcc, "-g", "main.c"]))
        jobs.append(("gcc static pie", "pie_gcc.elf", [gcc, "-static-pie", "-nostdlib", "-nostartfiles", "tables.c"]))
        jobs.append(("gcc shared", "shared_gcc.so", [gcc, "-shared", "-fPIC", "tables.c"]))
    if clang:
        for t in TARGETS:
            for n in ("small.c", "tables.c"):
                jobs.append(("clang %s %s" % (t, n), "%s_%s.o" % (t, n), [clang, "--target=" + t, "-g", "-ffreestanding", "-c", n]))
            if lld and tier == "thorough" or t in ("armeb-none-eabi", "powerpc64-linux-gnu", "i386-linux-gnu"):
                jobs.append(("clang+lld %s" % t, "%s_linked.elf" % t, [clang, "--target=" + t, "-ffreestanding", "-nostdlib", "-fuse-ld=" + (lld or ""), "-Wl,-e,main", "main.c"]))
    running = []
    for text, out, cmd in jobs:
        running.append((text, out, subprocess.Popen(cmd + ["-w", "-o", out], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        if len(running) % 16 == 0:
            for r in running:
                r[2].wait()
    for text, out, p in running:
        if p.wait() == 0 and os.path.exists(os.path.join(d, out)):
            r = subprocess.run([readelf, "-W", "-h", "-S", "-l", "-s", "-n", out], cwd=d, capture_output=True)
            PROGRAMS.append((text, os.path.join(d, out), r.stdout.decode("latin1")))
    print("%d programs compiled" % len(PROGRAMS))


def num(s):
    return int(s, 16) if s.lower().startswith("0x") else int(s)


BIND = {"LOCAL": 0, "GLOBAL": 1, "WEAK": 2, "UNIQUE": 10}
TYPE = {"NOTYPE": 0, "OBJECT": 1, "FUNC": 2, "SECTION": 3, "FILE": 4, "COMMON": 5, "TLS": 6, "IFUNC": 10}
VIS = {"DEFAULT": 0, "INTERNAL": 1, "HIDDEN": 2, "PROTECTED": 3}
FLAGS = {"W": 1, "A": 2, "X": 4, "M": 0x10, "S": 0x20, "I": 0x40, "L": 0x80, "O": 0x100, "G": 0x200, "T": 0x400, "C": 0x800}
SHTYPES = {"NULL": 0, "PROGBITS": 1, "SYMTAB": 2, "STRTAB": 3, "RELA": 4, "HASH": 5, "DYNAMIC": 6, "NOTE": 7, "NOBITS": 8, "REL": 9, "DYNSYM": 11, "INIT_ARRAY": 14, "FINI_ARRAY": 15, "GROUP": 17}


def programs(case):
    if not PROGRAMS:
        return
    text, path, out = PROGRAMS[case.index % len(PROGRAMS)]
    local = os.path.join(case.scratch, "p.elf")
    with open(path, "rb") as f:
        blob = f.read()
    with open(local, "wb") as f:
        f.write(blob)
    case.note(program=text)
    ep = ElfParser(local)
    hdr = dict(re.findall(r"^  ([A-Z][^:\n]*):\s+(.*)$", out.split("Section Headers:")[0], re.M))
    case.equal(ep.e_entry, num(hdr["Entry point address"]), "wrong header field (e_entry)")
    case.equal(ep.e_shnum, num(hdr["Number of section headers"].split()[0]), "wrong header field (e_shnum)")
    case.equal(ep.e_phnum, num(hdr["Number of program headers"].split()[0]), "wrong header field (e_phnum)")
    case.equal(ep.e_shoff, num(hdr["Start of section headers"].split()[0]), "wrong header field (e_shoff)")
    case.equal(ep.e_flags, num(hdr["Flags"].split(",")[0].split()[0]), "wrong header field (e_flags)")
    case.equal(ep.e_shstrndx, num(hdr["Section header string table index"].split()[0]), "wrong header field (e_shstrndx)")
    case.equal(ep.b64, hdr["Class"] == "ELF64", "wrong class")
    case.equal(ep.endianess, "<" if "little" in hdr["Data"] else ">", "wrong byte order")
    # sections
    got = {s.index: s for s in ep.sections.fetch()}
    rows = re.findall(r"^  \[ *(\d+)\] (.{0,17}\S*)\s+(\S+)\s+([0-9a-f]{8,16}) ([0-9a-f]{6,}) ([0-9a-f]{6,}) ([0-9a-f]{2,}) +([A-Za-z]*) +(\d+) +(\d+) +(\d+)$", out, re.M)
    case.equal(len(got), len(rows), "wrong number of sections")
    for idx, name, typ, addr, off, size, es, flags, link, inf, align in rows:
        s = got[int(idx)]
        name = name.strip()
        want = (int(addr, 16), int(off, 16), int(size, 16), int(es, 16), int(link), int(inf), int(align))
        case.equal((s.sh_addr, s.sh_offset, s.sh_size, s.sh_entsize, s.sh_link, s.sh_info, s.sh_addralign), want, "wrong section fields", name)
        case.check(s.section_name == name, "wrong section field (name)", "%r, %r" % (s.section_name, name))
        if typ in SHTYPES:
            case.equal(s.sh_type, SHTYPES[typ], "wrong section field (sh_type)", name)
        for letter, bit in FLAGS.items():
            case.check(bool(s.sh_flags & bit) == (letter in flags), "wrong section field (sh_flags)", "%s: %#x, %r" % (name, s.sh_flags, flags))
        if typ not in ("NULL", "NOBITS") and int(size, 16):
            case.check(bytes(s.section_image) == blob[want[1] : want[1] + want[2]], "wrong section contents", name)
        case.seen("sections")
    # segments
    segs = re.findall(r"^  (\S+)\s+0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) ([RWE ]{3}) (0x[0-9a-f]+|0)$", out, re.M)
    case.equal(len(segs), ep.e_phnum, "program headers not understood") if ep.e_phnum == len(segs) else None
    for s, w in zip(ep.segments, segs if len(segs) == ep.e_phnum else []):
        flags = sum(v for c, v in zip("RWE", (4, 2, 1)) if c in w[6])
        case.equal((s.p_offset, s.p_vaddr, s.p_paddr, s.p_filesz, s.p_memsz, s.p_flags & 7, s.p_align), tuple(int(x, 16) for x in w[1:6]) + (flags, num(w[7])), "wrong segment fields", w[0])
        case.seen("segments")
    # symbols
    want = []
    for value, size, typ, bind, vis, ndx, name in re.findall(r"^ +\d+: ([0-9a-f]+) +(\S+) (\S+) +(\S+) +(\S+) +(?:\[[^]]*\] +)?(\S+)(?: (.*))?$", out, re.M):
        shndx = {"UND": 0, "ABS": 0xFFF1, "COM": 0xFFF2}.get(ndx)
        if shndx is None and not ndx.isdigit():
            continue
        want.append((name.split("@")[0].split(" [")[0].strip(), int(value, 16), num(size), BIND.get(bind), TYPE.get(typ), VIS.get(vis), int(ndx) if shndx is None else shndx))
    have = [(s.symbol_name.split("@")[0] if s.st_type != 3 else None, s.st_value, s.st_size, s.st_bind, s.st_type, s.st_other & 3, s.st_shndx) for g in ep.symbols.fetch().values() for s in g]
    have = [x for x in have if x[6] < 0xFF00 or x[6] in (0xFFF1, 0xFFF2)]
    want = [((None,) + w[1:] if w[4] == 3 else w) for w in want]
    key = lambda x: tuple(str(v) for v in x)
    # readelf abbreviates nothing with -W, but names unknown types by number
    known = lambda xs: sorted([x for x in xs if x[3] in BIND.values() and x[4] in TYPE.values()], key=key)
    case.check([x[:1] + x[1:] for x in known(have)] == known(want), "symbols differ from readelf",
               "missing %r, unexpected %r" % ([x for x in known(want) if x not in have][:3], [x for x in known(have) if x not in want][:3]))
    case.seen("symbols", len(want))
    for s in (s for g in ep.symbols.fetch().values() for s in g):
        if 0 < s.st_shndx < ep.e_shnum:
            case.check(s.section_name == got[s.st_shndx].section_name and s.access == got[s.st_shndx].sh_flags, "wrong symbol section", s.symbol_name)
    # notes
    n = len(re.findall(r"^  (?:GNU|Linux|stapsdt|LLVM|Android|Xen)\s+0x", out, re.M))
    case.check(len(ep.notes) == n, "wrong number of notes", "%d, readelf shows %d" % (len(ep.notes), n))
    m = re.search(r"Build ID: ([0-9a-f]+)", out)
    if m:
        case.check(any(x.type == 3 and x.name == "GNU" and x.desc == m[1] for x in ep.notes), "wrong note (build id)")
    if ep.comment is not None:
        data = [s for s in got.values() if s.section_name == ".comment"][0].section_image
        case.equal(ep.comment, "\n".join(x.decode() for x in bytes(data).split(b"\0") if x), "wrong compiler comment")
    case.seen("programs")
    case.seen("files")
    case.distinct("program", text)
    close(ep)


# -- names of codes ---------------------------------------------------------------------------
MACHINES = sorted({v for k, v in NAMES.items() if k.startswith("EM_") and v != 41} | {65535, 0xFEBA, 261, 400})
ALIASES = {93: "ARC_A5", 135: "SCORE", 165: "I8051", 168: "ECOG1", 180: "L1OM"}  # (other names in use for these machines)
AVR = {1: "1", 2: "2", 3: "3", 4: "4", 5: "5", 6: "6", 25: "25", 31: "31", 35: "35", 51: "51", 100: "100", 101: "101", 102: "102", 103: "103", 104: "104", 105: "105", 106: "106", 107: "107"}


def machines(case):
    """The description of the machine, for every machine known to the ELF specification."""
    rng = case.rng
    code = MACHINES[case.index // 2 % len(MACHINES)] if case.index % 2 else 83
    info = elfgen.rand_elf(rng, small=True, machine=code)
    flags = info.elf.hdr["e_flags"] = rng.choice([rng.choice(sorted(AVR)) | rng.choice([0, 0x80]), rng.getrandbits(32), rng.getrandbits(8), 0])
    blob = info.elf.build(rng)
    path = os.path.join(case.scratch, "m.elf")
    with open(path, "wb") as f:
        f.write(blob)
    for again in range(2):
        ep = ElfParser(path)
        try:
            m = ep.machine_data
            case.equal((ep.e_machine, ep.e_flags), (code, flags), "wrong header field")
        finally:
            close(ep)
        name, rest = m.split(" ", 1)
        names = [k[3:] for k, v in NAMES.items() if k.startswith("EM_") and v == code] + [ALIASES.get(code, "")]
        if names[:-1]:
            case.check(name in names or name == "???", "wrong machine", "%s for %d (%s)" % (m, code, names))
            case.seen("machines named", name in names)
        if code == 83:
            case.equal(re.findall(r"\[(avr:[^]]*)\]", rest), [", ".join(["avr:" + AVR.get(flags & 0x7F, "<unknown>")] + (["link-relax"] if flags & 0x80 else []))], "wrong machine flags", "%#x" % flags)
            case.seen("machine flags")
    case.distinct("machine", code)


def codes(case):
    """The published enumerations against the names and codes of the specification."""
    known = 0
    for cname, c in vars(defs).items():
        if isinstance(c, type) and issubclass(c, enum.Enum) and c.__module__ == defs.__name__:
            for name, member in c.__members__.items():
                if name in NAMES:
                    known += 1
                    case.check(member.value == NAMES[name] and c(NAMES[name]) is member, "wrong code", "%s.%s = %#x, expected %#x" % (cname, name, member.value, NAMES[name]))
                if name.startswith("E_AVR_MACH_AVR") and name[14:].isdigit():
                    case.check(member.value == int(name[14:]), "wrong code", name)
    case.seen("names of codes", known)
    for bits in range(16):
        case.equal(defs.program_header_flags_name(bits), "".join(ch if bits & v else "-" for ch, v in (("R", 4), ("W", 2), ("X", 1))), "wrong segment flags shown")
    for name, v in NAMES.items():
        if name.startswith("PT_") and name not in ("PT_LOOS", "PT_HIOS", "PT_LOPROC", "PT_HIPROC") and v < 8:
            case.equal(defs.program_header_name(v), name[3:], "wrong segment type shown")
        if name.startswith("SHN_"):
            got = defs.special_section_name(v)
            case.check(got == str(v) or NAMES.get(got) == v, "wrong special section", "%s for %#x" % (got, v))
    for v in (1, 5, 77, 0xFEFF, 0xFF77):
        case.equal(defs.special_section_name(v), str(v), "wrong special section")
    for v in (100, 0x12345678):
        case.check(int(defs.program_header_name(v), 16) == v, "wrong segment type shown")


STREAMS = [
    Stream("crowd", crowd, 3, 12),
    Stream("huge", huge, 8, 160),
    Stream("synthetic", synthetic, 1600, 30000),
    Stream("two files", two_files, 100, 2000),
    Stream("rejected", rejected, 160, 2000),
    Stream("programs", programs, 72, 200),
    Stream("machines", machines, 2 * len(MACHINES), 8 * len(MACHINES)),
    Stream("codes", codes, 1, 1),
]
