"""C20: DWARF debug entries are reported with their exact tree and values."""
import contextlib
import io
import json
import os
import re
import subprocess

from sqlalchemy.orm import selectinload

from objutils.dwarf import DwarfProcessor, constants
from objutils.elf import ElfParser, model

from vlib import dwarfgen as dg
from vlib.core import Stream, attempt
from vlib.dwarfcodes import NAMES as CODES
from vlib.dwarfnames import ATS, TAGS
from vlib.dwarfops import differences, parse as rendered

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("ELF files with generated debug information (1..5 units of DWARF 2..5, all unit types, random trees, all supported forms, shared and separate "
        "abbreviation tables, sparse codes, several address sizes; both byte orders and word sizes) and programs compiled by gcc and clang for several targets: "
        "every entry, attribute, value, reference and position is compared with the encoded tree (or with the output of readelf); several files are processed "
        "interleaved and repeatedly in one process; distinct = distinct (version, form, class of attribute, word size, byte order, class of value)")
REQUIRED = {"files": 250, "units": 500, "entries": 3000, "attributes": 8000, "references": 1000, "stored entries": 3000, "JSON forms": 50, "expressions": 300, "type and skeleton units": 50, "interleaved files": 100,
            "read again": 100, "compiled programs": 10, "entries of compiled programs": 1500,
            "names of codes": 600, "large files": 3, "files with deep trees": 15}
CPU_LIMIT = 240.0


def value_class(v):
    return v.bit_length() // 8 if isinstance(v, int) else min(len(v), 2)


def compare_shown(case, shown, a, where, as_shown=lambda v: v):
    """The rendering of an attribute (as_shown: how a plain value appears)."""
    if a.kind == "ref":
        case.seen("references")
        case.check(isinstance(shown, str) and int(shown, 16) == a.raw, "shown reference differs", "%s: %r" % (where, shown))
    elif a.kind == "operations":
        diff = differences(shown, a.ops)
        case.check(diff is None, "shown expression differs", "%s: %s" % (where, diff), rendering=shown)
        case.seen("expressions")
    elif a.kind == "location":
        case.check(isinstance(shown, str) and int(shown, 16) == a.raw, "shown location differs", "%s: %r" % (where, shown))
    elif a.kind == "meaning":
        m = re.match(r"(.*) \((-?0x-?[0-9a-f]+)\)$", shown) if isinstance(shown, str) else None
        case.check(m is not None and int(m.group(2), 16) == a.raw, "shown value differs", "%s: %r for %r" % (where, shown, a.raw))
        meaning = dg.MEANING_CODES[a.at].get(a.raw)
        if meaning is not None:
            case.check(m.group(1).split("DW_DEFAULTED_")[-1] == meaning, "meaning of a value differs", "%s: %r, expected %s" % (where, shown, meaning))
    elif a.kind == "plain":
        case.check(shown == as_shown(a.raw), "shown value differs", "%s: %r for %r" % (where, shown, a.raw))
    else:
        case.check(str(a.raw) in str(shown), "shown value differs", "%s: %r for %r" % (where, shown, a.raw))


def compare_attr(case, got, a, unit, dbg, where):
    name, da = got
    want = a.name
    where = "%s: %s (%s, DWARF %d)" % (where, want or hex(a.at), a.form, unit.version)
    if want is not None:
        case.check(name.rstrip("_") == want, "name of an attribute differs", "%s: got %r" % (where, name))
    else:
        case.check(isinstance(name, str) and "%x" % a.at in name.lower(), "unknown attribute is not identified", "%s: got %r" % (where, name))
    raw, shown = da.raw_value, da.display_value
    case.check(raw == a.raw and isinstance(raw, int) == isinstance(a.raw, int), "value of an attribute differs", "%s: got %r, expected %r" % (where, raw, a.raw))
    compare_shown(case, shown, a, where)
    case.distinct(unit.version, a.form, a.kind, dbg.cls, dbg.order, value_class(a.raw))


def compare(case, result, dbg):
    where = "%d bit %s endian" % (dbg.cls, dbg.order)
    case.equal(len(result.die_entries), len(dbg.units), "number of units differs", where)
    count = 0
    for n, (root, unit) in enumerate(zip(result.die_entries, dbg.units)):
        stack = [(root, unit.root, "unit %d" % n)]
        case.seen("units")
        case.seen("type and skeleton units", 1 if unit.type in (2, 4, 5, 6) else 0)
        while stack:
            got, want, path = stack.pop()
            at = "%s, %s entry 0x%x" % (where, path, want.offset)
            tag = TAGS.get(want.tag)
            if tag is not None:
                case.check(got.name == tag, "tag of an entry differs", "%s: got %s, expected %s" % (at, got.name, tag))
            else:
                case.check("%x" % want.tag in got.name.lower(), "unknown tag is not identified", "%s: got %s" % (at, got.name))
            case.equal([g[0].rstrip("_") for g in got.attributes if not g[0].startswith("Unknown")], [a.name for a in want.attrs if a.name], "attributes of an entry differ", at)
            case.equal(len(got.attributes), len(want.attrs), "attributes of an entry differ", at)
            for g, a in zip(got.attributes, want.attrs):
                compare_attr(case, g, a, unit, dbg, at)
            case.equal(len(got.children), len(want.children), "number of children differs", at)
            case.check(result.die_map.get(want.offset) is got, "entry is not found by its offset", at)
            case.seen("entries")
            case.seen("attributes", len(want.attrs))
            count += 1
            stack += [(g, w, path + "/%d" % i) for i, (g, w) in enumerate(zip(got.children, want.children))]
    case.equal(len(result.die_map), count, "number of entries differs", where)


def stored(v):
    """A value as a column of type VARCHAR gives it back."""
    return str(v) if isinstance(v, int) else bytes(v) if isinstance(v, (bytes, bytearray)) else v


def compare_rows(case, session, before, result, dbg):
    """The entries added to the database are those of the section, in its order."""
    rows = session.query(model.DebugInformationEntry).options(selectinload(model.DebugInformationEntry.attributes)).filter(model.DebugInformationEntry.rid > before).order_by(model.DebugInformationEntry.rid).all()
    want = [result.die_map[k] for k in sorted(result.die_map)]
    case.equal([r.tag for r in rows], [d.name for d in want], "stored entries differ")
    for row, die in zip(rows, want):
        got = [(a.name, stored(a.raw_value), stored(a.display_value)) for a in sorted(row.attributes, key=lambda a: a.rid)]
        case.equal(got, [(n, stored(a.raw_value), stored(a.display_value)) for n, a in die.attributes], "stored attributes differ", die.name)
    case.seen("stored entries", len(rows))


def plain(v):
    return v.hex() if isinstance(v, (bytes, bytearray)) else v


def compare_json(case, result):
    """The JSON form of an entry (of everything) says what the entry says."""
    def tree(d):
        todo = [d]
        while todo:
            e = todo.pop()
            yield e
            todo += reversed(e.children)

    def jtree(d):
        todo = [d]
        while todo:
            e = todo.pop()
            yield e
            todo += reversed(e["children"])

    def same(got, want):
        ours = [(e.name, [[n, {"raw_value": plain(a.raw_value), "display_value": plain(a.display_value)}] for n, a in e.attributes], len(e.children)) for e in tree(want)]
        case.equal([(e["name"], e["attributes"], len(e["children"])) for e in jtree(got)], ours, "JSON form of an entry differs")

    out = attempt(result.toJSON)
    case.check(out.ok, "JSON form can not be written", repr(out))
    got = json.loads(out.value)
    case.check(set(got) == {"die_map", "die_entries"} and len(got["die_entries"]) == len(result.die_entries) and set(got["die_map"]) == {str(k) for k in result.die_map}, "JSON form differs")
    for g, w in zip(got["die_entries"], result.die_entries):
        same(g, w)
    for k in case.rng.sample(sorted(result.die_map), min(3, len(result.die_map))):
        same(got["die_map"][str(k)], result.die_map[k])
        out = attempt(result.die_map[k].toJSON)
        case.check(out.ok, "JSON form can not be written", repr(out))
        same(json.loads(out.value), result.die_map[k])
    case.seen("JSON forms")


class File:
    def __init__(self, case, dbg, name):
        self.dbg = dbg
        self.path = os.path.join(case.scratch, name)
        with open(self.path, "wb") as f:
            f.write(dg.elf_file(case.rng, dbg, case.rng.sample([".debug_line", ".debug_aranges", ".text", ".debug_frame", ".data"], case.rng.randrange(3))))
        self.ep = ElfParser(self.path)
        self.dp = DwarfProcessor(self.ep)

    def read(self, case):
        session = self.ep.session
        before = max((r for r, in session.query(model.DebugInformationEntry.rid)), default=0)
        out = attempt(self.dp.do_dbg_info)
        if not out.ok:
            case.fail("debug information can not be read", "%r (versions %s)" % (out, [u.version for u in self.dbg.units]), file=self.path)
        compare(case, out.value, self.dbg)
        session.expire_all()
        compare_rows(case, session, before, out.value, self.dbg)
        if case.rng.random() < 0.4 and len(out.value.die_map) < 300:
            compare_json(case, out.value)
        case.seen("files")

    def close(self):
        self.ep.db.close()


def quiet(fn):
    def run(case):
        with contextlib.redirect_stdout(io.StringIO()):
            fn(case)
    return run


@quiet
def single(case):
    dbg = dg.rand_debug(case.rng)
    case.sample("%d bit %s endian, units %s with %s entries" % (dbg.cls, dbg.order, [(u.version, u.type, u.addr) for u in dbg.units], [sum(1 for _ in u.root.walk()) for u in dbg.units]))
    f = File(case, dbg, "a.elf")
    try:
        f.read(case)
        if case.rng.random() < 0.25:
            f.read(case)
            case.seen("read again")
    finally:
        f.close()
    if case.rng.random() < 0.2:  # from the cached file information
        f.ep = ElfParser(f.path)
        f.dp = DwarfProcessor(f.ep)
        try:
            f.read(case)
            case.seen("read again")
        finally:
            f.close()


@quiet
def large(case):
    """Units with thousands of entries, deep trees and offsets beyond 64K."""
    rng = case.rng
    k = case.index % 3
    if k == 0:
        dbg = dg.rand_debug(rng, units=rng.choice((1, 2)), budget=rng.randint(1100, 2500), nested=rng.choice((0, 50, 200)))
    elif k == 1:  # all children of one entry
        dbg = dg.rand_debug(rng, units=1, budget=rng.randint(1100, 2500), nested=-1)
    else:
        dbg = dg.rand_debug(rng, units=rng.randint(257, 400), budget=3)
    f = File(case, dbg, "a.elf")
    try:
        f.read(case)
    finally:
        f.close()
    case.seen("large files")


@quiet
def nested(case):
    """Entries nested deeply."""
    rng = case.rng
    depth = rng.choice((20, 60, 70, 100, 127, 128, 129, 150, 200))
    f = File(case, dg.rand_debug(rng, units=rng.choice((1, 2)), budget=depth + rng.randint(0, 40), nested=depth), "a.elf")
    try:
        f.read(case)
    finally:
        f.close()
    case.seen("files with deep trees")
    case.distinct("depth", depth)


@quiet
def interleaved(case):
    rng = case.rng
    files = []
    try:
        for n in range(rng.choice((2, 3))):
            files.append(File(case, dg.rand_debug(rng, budget=rng.choice((1, 4, 8))), "f%d.elf" % n))
            if rng.random() < 0.3:
                rng.choice(files).read(case)
                case.seen("read again")
        order = files * 2 if rng.random() < 0.4 else files[:]
        rng.shuffle(order)
        for f in order:
            f.read(case)
            case.seen("interleaved files")
    finally:
        for f in files:
            f.close()


@quiet
def broken(case):
    """A truncated file (whatever is reported for it), then an intact one."""
    rng = case.rng
    dbg = dg.rand_debug(rng, units=2, budget=5)
    good = dg.rand_debug(rng, units=2, budget=5)
    info = dbg.sections[".debug_info"]
    dbg.sections[".debug_info"] = info[: rng.randrange(12, len(info))] if rng.random() < 0.7 and len(info) > 12 else info[:12] + rng.randbytes(40)
    f = File(case, dbg, "bad.elf")
    try:
        attempt(f.dp.do_dbg_info)
    finally:
        f.close()
    g = File(case, good, "good.elf")
    try:
        g.read(case)
    finally:
        g.close()


# -- compiled programs against readelf ----------------------------------------------------------
C = r"""
struct pt { int x, y; unsigned f : 3; struct pt *next; union { char c; double d; } u; };
typedef struct pt pt_t; enum color { RED, GREEN = 7, BLUE = -3 };
static volatile const int table[3][4] = {{1}}; enum color col = BLUE; __thread int tls; extern int ext;
int (*handler)(pt_t *, const char *); static inline int sq(int v) { return v * v; }
int sum(int n, ...) { __builtin_va_list a; int s = 0; __builtin_va_start(a, n); while (n--) s += __builtin_va_arg(a, int); __builtin_va_end(a); return s; }
int walk(pt_t *p, int k) { int acc = 0; for (int i = 0; i < k; i++) { pt_t *q = p; while (q) { int l = sq(q->x) + table[i % 3][1]; acc += l; q = q->next; } } return acc; }
float ratio(double a, long double b) { return a / b; } unsigned long long big = 0x8000000000000001ull; _Bool flag = 1; char name[32];
int vla(int n) { int a[n]; a[0] = n; return a[n - 1] + tls; }
int main(void) { pt_t p = {1, 2, 3}; return walk(&p, 2) + sum(2, 1, 2) + (handler ? handler(&p, name) : 0) + vla(3) + (int)ratio(1, 2); }
"""
CPP = r"""
namespace ns { template <class T, int N> struct Box { T v[N]; virtual ~Box() {} virtual T get(int i) const { return v[i]; } protected: int k = N; }; enum class E : unsigned char { A = 1, B = 200 }; }
struct D : protected virtual ns::Box<char, 2> { D() = default; D(const D &) = delete; char get(int) const { return 1; } static const int s = 5; mutable int m; };
int operator+(const D &d, int x) { auto f = [x](auto y) { return x + y; }; return f(d.m) + static_cast<int>(ns::E::B); }
template <typename... A> int pack(A &&...a) { return sizeof...(a); } int r = pack(1, 'c', 2.0); inline namespace v1 { constexpr long big = -5; }
int main() { D d; try { throw 1; } catch (int e) { r = e; } return d + int(big) + r; }
"""
PROGRAMS = []
KNOWN = set(ATS.values())


def tool(name):
    for d in ("/usr/bin", "/usr/local/bin", "/bin"):
        if os.access(os.path.join(d, name), os.X_OK):
            return os.path.join(d, name)
    return None


def prepare(base, tier):
    gcc, gxx, clang, lld, readelf = tool("gcc"), tool("g++"), tool("clang"), tool("ld.lld"), tool("readelf")
    PROGRAMS.clear()
    if not readelf:
        return
    d = os.path.join(base, "programs")
    os.makedirs(d)
    for n, t in (("c.c", C), ("p.cpp", CPP)):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    jobs = []
    opts = ["-O0", "-O2"] if tier == "quick" else ["-O0", "-O1", "-O2", "-Os", "-O3"]
    for v in (2, 3, 4, 5):
        for i, opt in enumerate(opts):
            if gcc:
                jobs.append(("gcc -gdwarf-%d %s" % (v, opt), [gcc, "-gdwarf-%d" % v, opt, "-nostdlib", "-nostartfiles", "-Wl,-e,main", "c.c"]))
            if gxx:
                jobs.append(("g++ -gdwarf-%d %s" % (v, opt), [gxx, "-gdwarf-%d" % v, opt, "-std=c++20", "p.cpp"]))
                if v == 5:
                    jobs.append(("g++ types %s" % opt, [gxx, "-gdwarf-5", "-fdebug-types-section", opt, "-std=c++20", "p.cpp"]))
        if gcc:
            jobs.append(("gcc strict %d" % v, [gcc, "-gdwarf-%d" % v, "-gstrict-dwarf", "-nostdlib", "-nostartfiles", "-Wl,-e,main", "c.c"]))
        if clang and lld and v < 5:
            for t in ("armeb-none-eabi", "powerpc64-linux-gnu", "mips-linux-gnu", "i386-linux-gnu") + (() if tier == "quick" else ("arm-none-eabi", "aarch64-none-elf", "riscv32-none-elf", "powerpc-linux-gnu", "mips64-linux-gnu")):
                jobs.append(("clang %s dwarf %d" % (t, v), [clang, "--target=" + t, "-gdwarf-%d" % v, "-O1", "-ffreestanding", "-fPIC", "-nostdlib", "-fuse-ld=" + lld,
                                                             "-Wl,-e,main,--unresolved-symbols=ignore-all", "c.c"]))
    running = []
    for n, (label, cmd) in enumerate(jobs):
        running.append((label, "p%d.elf" % n, subprocess.Popen(cmd + ["-w", "-o", "p%d.elf" % n], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        if len(running) % 12 == 0:
            for r in running:
                r[2].wait()
    for label, out, p in running:
        if p.wait() == 0 and os.path.exists(os.path.join(d, out)):
            r = subprocess.run([readelf, "-W", "--debug-dump=info", out], cwd=d, capture_output=True)
            PROGRAMS.append((label, os.path.join(d, out), r.stdout.decode("utf-8", "replace")))
    for label in [j[0] for j in jobs if j[0] not in [p[0] for p in PROGRAMS]]:
        print("not compiled: " + label)
    print("%d of %d programs compiled" % (len(PROGRAMS), len(jobs)))


ENTRY = re.compile(r"^ <([0-9a-f]+)><([0-9a-f]+)>: Abbrev Number: (\d+)(?: \((?:DW_TAG_)?(.*)\))?")
ATTR = re.compile(r"^    <([0-9a-f]+)>   (?:DW_AT_)?(\S+|Unknown AT value: \S+)\s*: ?(.*)$")


def parse_readelf(text):
    """-> [(depth, offset, tag, [(name, text)])]"""
    out = []
    for line in text.split("\n"):
        m = ENTRY.match(line)
        if m:
            if m.group(3) != "0":
                out.append((int(m.group(1), 16), int(m.group(2), 16), m.group(4), []))
            continue
        m = ATTR.match(line)
        if m and out:
            out[-1][3].append((m.group(2), m.group(3).lstrip("\t ")))
        if line.startswith("Contents of the .debug_types"):
            break
    return out


def expected_value(text):
    """What readelf prints about a value -> (kind, value, operations) or None if not compared."""
    t = text.strip()
    m = re.match(r"\((?:indirect|indirect line) string, offset: 0x[0-9a-f]+\): (.*)$", t)
    if m:
        return "string", m.group(1), None
    form = None
    m = re.match(r"\((\w+)\) ?(.*)$", t)
    if m and m.group(1) in dg.FORMS:
        form, t = m.groups()
    if form == "string":
        return "string", t, None
    if form in ("strp", "line_strp"):
        return "string", re.sub(r"^\(offset: (0x)?[0-9a-f]+\): ", "", t), None
    m = re.match(r"<0x([0-9a-f]+)>", t)
    if m:
        return "int", int(m.group(1), 16), None
    m = re.match(r"(\d+) byte block: ([0-9a-f ]*)(?:\t\((.*)\))?", t)
    if m:
        ops = None
        if m.group(3) and "entry_value" not in t:
            ops = [re.match(r"DW_OP_(\w+)", o).group(1) for o in m.group(3).split("; ") if o.startswith("DW_OP_")]
        return "block", "".join("%02x" % int(h, 16) for h in m.group(2).split()), ops
    m = re.match(r"(?:signature: )?(0x[0-9a-f]+|-?\d+)(?=\t| |$)", t)
    if m:
        return "int", int(m.group(1), 0), None
    return None


@quiet
def programs(case):
    if not PROGRAMS:
        return
    label, path, text = PROGRAMS[case.index % len(PROGRAMS)]
    local = os.path.join(case.scratch, "p.elf")
    with open(path, "rb") as f, open(local, "wb") as g:
        g.write(f.read())
    want = parse_readelf(text)
    case.check(len(want) > 3, "machinery: readelf output not understood", label)
    ep = ElfParser(local)
    try:
        out = attempt(DwarfProcessor(ep).do_dbg_info)
    finally:
        ep.db.close()
    case.check(out.ok, "debug information of a compiled program can not be read", "%s: %r" % (label, out))
    flat = []

    def walk(die, depth):
        flat.append((depth, die))
        for c in die.children:
            walk(c, depth + 1)

    for root in out.value.die_entries:
        walk(root, 0)
    by_id = {id(d): off for off, d in out.value.die_map.items()}
    case.equal(len(flat), len(want), "number of entries differs from readelf", label)
    for (depth, die), (wdepth, woff, wtag, wattrs) in zip(flat, want):
        at = "%s: entry 0x%x" % (label, woff)
        case.check((depth, by_id.get(id(die))) == (wdepth, woff), "place of an entry differs from readelf", "%s: depth %d offset %s, expected depth %d" % (at, depth, by_id.get(id(die)), wdepth))
        if wtag and wtag in TAGS.values():
            case.equal(die.name, wtag, "tag differs from readelf", at)
        names = [n.rstrip("_") for n, _ in die.attributes]
        wanted = [n for n, _ in wattrs]
        case.check(len(names) == len(wanted) and all(n == w or (n.startswith("Unknown") and w not in KNOWN) for n, w in zip(names, wanted)), "attributes differ from readelf",
                   "%s: %s, expected %s" % (at, names, wanted))
        for (name, da), (_, wtext) in zip(die.attributes, wattrs):
            exp = expected_value(wtext)
            raw, where = da.raw_value, "%s %s: %r, readelf has %r" % (at, name, da.raw_value, wtext)
            if exp is None:
                case.seen("values not compared")
                continue
            kind, value, ops = exp
            if kind == "string":
                case.check(isinstance(raw, str) and raw.strip() == value.strip(), "value differs from readelf", where)
            elif kind == "int":
                case.check(isinstance(raw, int) and (raw - value) % (1 << 64) == 0, "value differs from readelf", where)
            else:
                case.check(isinstance(raw, bytes) and raw.hex() == value, "value differs from readelf", where)
                if ops is not None and isinstance(da.display_value, str):
                    case.equal([o for o, _ in rendered(da.display_value)], ops, "operations differ from readelf", where)
                    case.seen("expressions")
            case.seen("compared values")
        case.seen("entries of compiled programs")
    case.seen("compiled programs")
    case.distinct("program", label)


PREFIX = {"Tag": "TAG", "Children": "CHILDREN", "AttributeEncoding": "AT", "AttributeForm": "FORM", "UnitHeader": "UT", "Operation": "OP", "BaseTypeEncoding": "ATE", "DecimalSign": "DS", "Endianity": "END",
          "Accessibility": "ACCESS", "Visibility": "VIS", "Virtuality": "VIRTUALITY", "IdentifierCase": "ID", "CallingConvention": "CC", "Inline": "INL", "Ordering": "ORD", "DiscriminantDescriptor": "DSC",
          "LineNumberStandard": "LNS", "LineNumberExtended": "LNE", "MacroInformation": "MACINFO", "ExceptionHeaderEncoding": "EH_PE", "CFIExtensions": "CFA", "Languages": "LANG", "Defaulted": "DEFAULTED"}


def codes(case):
    """The published enumerations against the names and codes of the specification."""
    known = 0
    for cname, prefix in PREFIX.items():
        c = getattr(constants, cname)
        by_code = {code: [n.lower() for n in names.split()] for code, names in CODES[prefix].items()}
        by_name = {n: code for code, names in by_code.items() for n in names}
        for name, member in c.__members__.items():
            low = re.sub("^dw_%s_" % prefix.lower(), "", name.lower()).rstrip("_")
            if low in ("lo_user", "hi_user"):
                continue
            if low in by_name:
                known += 1
                case.equal((int(member), c(by_name[low])), (by_name[low], member), "wrong code", "%s.%s" % (cname, name))
            else:
                names = by_code.get(int(member), ["user"])
                vendor = low.split("_")[0] + "_"
                case.check(int(member) >= 0x40 and (vendor in ("hp_", "vms_", "upc_", "gi_") or any("user" in n or n.endswith("_" + low) for n in names)) or low in ("unkown", "padding"), "wrong name of a code",
                           "%s.%s = %#x, expected %s" % (cname, name, int(member), names))
    case.seen("names of codes", known)


STREAMS = [Stream("codes", codes, 1, 1), Stream("large", large, 6, 160), Stream("nested", nested, 24, 600), Stream("single", single, 350, 8000), Stream("interleaved", interleaved, 100, 3000), Stream("broken", broken, 30, 1200), Stream("programs", programs, 40, 90)]
