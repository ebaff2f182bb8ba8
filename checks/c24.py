"""C24: command line tools report and extract exactly what the files contain."""
import os
import re
import runpy
import shutil
import signal
import subprocess
import sys
import time
import traceback

from checks import c17, c18, c20
from vlib import dumpparse, dwarfgen, elfgen, gen, hexio
from vlib.core import REPO, VERIF, Stream
from vlib.formats import FORMATS, NAMES, FormatError

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("the five tools run as programs (forked with their own argument list, standard output and exit status, and as real processes, by module and by entry point) on generated hex files of all 13 types, "
        "synthetic ELF files of known contents, and objects of the installed compilers, with option combinations in any order; stdout parsed and compared with the known contents, "
        "written hex files decoded by independent decoders; missing, foreign and damaged inputs; distinct = distinct (tool, options, outcome, classes of inputs)")
REQUIRED = {"runs": 2200, "hex files": 550, "hex dumps": 200, "sections listed": 3000, "images extracted": 250, "refused extractions": 20, "symbols listed": 1800, "partial symbol lists": 150,
            "unusable inputs": 400, "ELF files described": 150, "large ELF files described": 3, "attribute listings": 80, "real processes": 60, "second runs": 200,
            "files with debugging information": 60, "debugging entries shown": 3500, "values shown": 9000, "public names shown": 600, "programs with debugging information": 10}
TIME_QUICK = 300
LIMITS = {"ihex": (1 << 32) - 1, "srec": (1 << 32) - 1, "titxt": 0xFFFF, "shf": (1 << 64) - 1}
TOOLS = ["oj_hex_info", "oj_elf_extract", "oj_elf_syms", "oj_elf_info", "oj_elf_arm_attrs"]


# -- running -----------------------------------------------------------------------------
def run_forked(tool, args, cwd, out, err, limit=60.0):
    """The tool as a program in a forked child: (exit status)."""
    sys.__stdout__.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.setpgid(0, 0)
            os.chdir(cwd)
            for path, fd in ((out, 1), (err, 2)):
                f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(f, fd)
            null = os.open(os.devnull, os.O_RDONLY)
            os.dup2(null, 0)
            sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
            sys.stdout.reconfigure(encoding="utf-8", errors="backslashreplace")
            sys.argv = [tool] + args
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                runpy.run_module("objutils.scripts." + tool, run_name="__main__", alter_sys=True)
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code & 0xFF if isinstance(e.code, int) else 1
                if code == 1 and not isinstance(e.code, int):
                    print(e.code, file=sys.stderr)
            except BaseException:
                code = 1
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    end = time.monotonic() + limit
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            return -os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)
        if time.monotonic() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
        time.sleep(0.002)


def run_process(rng, tool, args, cwd, out, err, limit=120.0):
    cmd = [sys.executable, "-m", "objutils.scripts." + tool] if rng.random() < 0.5 else [sys.executable, "-c", "import sys; from objutils.scripts.%s import main; sys.exit(main())" % tool]
    env = dict(os.environ, PYTHONPATH=os.path.join(VERIF, "vlib", "site") + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8:backslashreplace")
    with open(out, "wb") as o, open(err, "wb") as e:
        try:
            return subprocess.run(cmd + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=o, stderr=e, timeout=limit).returncode
        except subprocess.TimeoutExpired:
            return None


def run(case, tool, args, cwd, real=False):
    d = os.path.join(case.scratch, "std")
    os.makedirs(d, exist_ok=True)
    out, err = os.path.join(d, "out"), os.path.join(d, "err")
    case.note(command=" ".join([tool] + args))
    if real:
        status = run_process(case.rng, tool, args, cwd, out, err)
        case.seen("real processes")
    else:
        status = run_forked(tool, args, cwd, out, err)
    case.check(status is not None, "tool does not end", "%s %r" % (tool, args))
    with open(out, encoding="utf-8") as o, open(err, encoding="utf-8", errors="replace") as e:
        text, errors = o.read(), e.read()
    case.note(status=status, stdout=text, stderr=errors)
    case.seen("runs")
    return status, text, errors


def folder(case):
    cwd = os.path.join(case.scratch, case.rng.choice(["work", "a folder", "w.x"]))
    os.makedirs(cwd, exist_ok=True)
    return cwd


def place(case, cwd, data, suffix):
    """Write an input file; returns (path for the command line, real path)."""
    rng = case.rng
    name = rng.choice(["f", "prog", "a b", "x.y", "A-1", "_", "d\u00fc"]) + suffix
    path = os.path.join(cwd, name)
    if os.path.exists(path):  # objutils maps its input files
        os.unlink(path)
    with open(path, "wb") as f:
        f.write(data)
    return rng.choice([name, path, os.path.join(".", name)]), path


def shuffled_args(rng, positional, options):
    """options: list of lists; positionals keep their order."""
    out = [[p] for p in positional]
    for o in options:
        out.insert(rng.randint(0, len(out)), o)
    return [a for part in out for a in part]


def option(rng, short, long, value):
    k = rng.random()
    if k < 0.3 and not value.startswith("-") and value:
        return [short, value]
    if k < 0.5 and value and not value.startswith("="):
        return [short + value]
    if k < 0.7 and not value.startswith("-"):
        return [long, value]
    return [long + "=" + value]


# -- hex files -----------------------------------------------------------------------------
def check_hex_listing(case, text, mem, dump):
    lines = text.split("\n")
    heads = [i for i, ln in enumerate(lines) if ln.split() == ["Num", "Address", "Length"]]
    case.check(len(heads) == 1, "no table of sections", text)
    rows, total, rest = [], None, []
    for i in range(heads[0] + 1, len(lines)):
        ln = lines[i]
        if re.fullmatch(r"-+", ln) or not ln.strip():
            continue
        m = re.fullmatch(r"(\d+)\s+0x([0-9a-f]+)\s+(\d+)", ln)
        if m:
            rows.append((int(m[1]), int(m[2], 16), int(m[3])))
            continue
        m = re.fullmatch(r"\s*(\d+) total bytes", ln)
        case.check(m is not None, "unknown line in the table", ln)
        total = int(m[1])
        rest = lines[i + 1 :]
        break
    runs = gen.runs(mem)
    case.equal(rows, [(i, a, len(d)) for i, (a, d) in enumerate(runs)], "wrong sections listed")
    case.equal(total, len(mem), "wrong total")
    case.seen("sections listed", len(rows))
    if dump:
        try:
            shown = dumpparse.parse_image("\n".join(rest))
        except dumpparse.DumpError as e:
            case.fail("malformed dump", str(e))
        case.check([(a, bytes(d)) for a, d in shown] == [(a, bytes(d)) for a, d in runs], "wrong dump", "%r" % (shown[:3],))
        case.seen("hex dumps")
    else:
        case.check(not "".join(rest).strip(), "unexpected output", "\n".join(rest))


def huge(case):
    """Hexfiles of hundreds of kilobytes or thousands of sections."""
    hex_info(case, huge=True)
    case.seen("huge files")


def hex_info(case, real=False, huge=False):
    rng = case.rng
    fmt = NAMES[case.index % len(NAMES)]
    f = FORMATS[fmt]
    limit = min(f.read_max, rng.choice([0xFFFF, 0xFFFFFF, 0xFFFFFFFF, f.read_max]))
    mem = gen.rand_mem(rng, limit, max_sections=rng.choice([1, 4, 12]), big=rng.random() < 0.05)
    if huge:
        mem = gen.huge_mem(rng, min(limit, 0xFFFFFFFF), 1 + case.index % 2)
    data = f.generate(rng, mem)
    cwd = folder(case)
    given, path = place(case, cwd, data, rng.choice([".hex", ".txt", ""]))
    dump = rng.random() < 0.5
    args = shuffled_args(rng, [fmt, given], [[rng.choice(["-d", "--dump"])]] if dump else [])
    case.note(mem=gen.mem_hex(mem), text=data)
    status, out, err = run(case, "oj_hex_info", args, cwd, real)
    case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (out + err)[-1500:]))
    check_hex_listing(case, out, mem, dump)
    with open(path, "rb") as fh:
        case.check(fh.read() == data, "input file changed")
    case.check(os.listdir(cwd) == [os.path.basename(path)], "unexpected output", "%r" % os.listdir(cwd))
    case.seen("hex files")
    case.distinct("hex", fmt, dump, min(len(gen.runs(mem)), 4), max(mem).bit_length() // 4)
    case.sample(" ".join(args))


# -- ELF files -------------------------------------------------------------------------------
def make_elf(case, machine=None, small=False, many=False, simple_names=True):
    """A synthetic file (with plain names, so that lines of output are unambiguous)."""
    rng = case.rng
    info = elfgen.rand_elf(rng, disjoint=True, machine=machine, small=small, many=many)
    return info


def check_extraction(case, text, want, info, out_path, ft, n):
    lines = text.split("\n")
    rows = []
    for ln in lines:
        m = re.fullmatch(r"(.*?)\s*0x([0-9a-f]{8,}) (\d+)", ln)
        if m:
            rows.append((m[1].rstrip(), int(m[2], 16), int(m[3])))
    S = info.elf.sections
    case.equal(rows, [(S[i].name, a, len(c)) for a, c, i in want], "wrong sections listed")
    case.seen("sections listed", len(rows))
    m = re.findall(r"\[(\d+) total bytes\]", text)
    case.check([int(x) for x in m] == [n], "wrong total", "%r instead of %d" % (m, n))


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return f.read()


def extract(case, real=False):
    rng = case.rng
    info = make_elf(case, small=rng.random() < 0.3)
    data = info.elf.build(rng)
    cwd = folder(case)
    given, path = place(case, cwd, data, rng.choice([".elf", ".o", ""]))
    top = max([s.addr + s.size for s in info.elf.sections if s.has_contents and s.flags & 2] or [0])
    for n in range(rng.choice([1, 1, 2, 3])):
        inc = rng.choice(c17.SEC_PATTERNS) if rng.random() < 0.3 else ""
        exc = rng.choice(c17.SEC_PATTERNS) if rng.random() < 0.3 else ""
        good = [t for t in LIMITS if LIMITS[t] >= top - 1]
        ft = rng.choice(good if good and rng.random() < 0.6 else sorted(LIMITS))
        opts = []
        if ft != "ihex" or rng.random() < 0.5:
            opts.append(option(rng, "-t", "--file-type", ft))
        join = rng.random() < 0.5
        if join:
            opts.append([rng.choice(["-j", "--join"])])
        if exc:
            opts.append(option(rng, "-e", "--exclude_pattern", exc))
        if inc:
            opts.append(option(rng, "-i", "--include_pattern", inc))
        want = c17.image_sections(info, inc, exc)
        mem = {a + i: b for a, c, _ in want for i, b in enumerate(c)}
        out_name = rng.choice(["out.hex", "o%d" % n, os.path.join(cwd, "o u t")])
        out_path = os.path.join(cwd, out_name)
        old = read(out_path)
        if old is None and rng.random() < 0.4:
            old = b"former contents\n"
            with open(out_path, "wb") as f:
                f.write(old)
        args = shuffled_args(rng, [given, out_name], opts)
        case.note(sections=[(s.name, s.type, hex(s.flags), hex(s.addr), s.size) for s in info.elf.sections], file_type=ft)
        status, text, err = run(case, "oj_elf_extract", args, cwd, real)
        got = read(out_path)
        if not mem:
            case.check(got == old, "file written without an image", "%r" % got)
            case.seen("empty images")
        elif max(mem) > LIMITS[ft]:
            case.check(status != 0 and (text + err).strip(), "impossible extraction not reported", "status %r" % status)
            case.check(got == old, "output changed by a refused extraction", "%r" % got)
            case.seen("refused extractions")
        else:
            case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (text + err)[-1500:]))
            case.check(got is not None, "no output written")
            try:
                d = FORMATS[ft].decode(got)
            except (FormatError, UnicodeDecodeError) as e:
                case.fail("malformed %s file extracted" % ft, str(e))
            case.check(d.mem == mem, "wrong program image extracted", gen.mem_diff(d.mem, mem))
            check_extraction(case, text, want, info, out_path, ft, len(mem))
            case.seen("images extracted")
        case.seen("second runs", n > 0)
        case.distinct("extract", ft, join, bool(inc), bool(exc), "empty" if not mem else max(mem) > LIMITS[ft], min(len(want), 3), n > 0)
    case.check(read(path) == data, "input file changed")
    case.sample(" ".join(args))


BIND_NAMES = {0: "LOCAL", 1: "GLOBAL", 2: "WEAK", 10: "GNU_UNIQUE", 13: "LOPROC", 15: "HIPROC"}
TYPE_NAMES = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC", 3: "SECTION", 4: "FILE", 5: "COMMON", 6: "TLS", 8: "RELC", 9: "SRELC", 10: "GNU_IFUNC", 13: "LOPROC", 15: "HIPROC"}


def parse_symbols(case, text):
    """[(section, [(name, value, size, bind, type, access)])]"""
    lines = text.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    lines.append("")
    start = 1 if lines and lines[0].startswith("Calculated") else 0
    out, i = [], start
    while i < len(lines) - 1:
        # "", "===", name, "===", "", "Name", "Value ...", "-----"
        head = lines[i : i + 8]
        ok = len(head) == 8 and head[0] == "" and head[4] == "" and head[1] == head[3] == "=" * len(head[2]) and head[5].strip() == "Name" and head[6].split() == ["Value", "Size", "Bind", "Type", "Access"] and re.fullmatch("-+", head[7])
        case.check(bool(ok), "malformed list of symbols", "line %d: %r" % (i, head))
        i += 8
        syms = []
        while i < len(lines) - 1 and lines[i] != "":
            m = re.fullmatch(r"([0-9a-f]{8,})\s+(\d+) (\S+)\s+(\S+)\s+([A ][W ][X ])", lines[i + 1].ljust(0)) if i + 1 < len(lines) else None
            case.check(m is not None, "malformed list of symbols", "line %d: %r" % (i, lines[i : i + 2]))
            syms.append((lines[i].rstrip(" "), int(m[1], 16), int(m[2]), m[3], m[4], m[5]))
            case.check(i + 2 < len(lines) and lines[i + 2] == "", "malformed list of symbols", "line %d" % (i + 2))
            i += 3
        out.append((head[2], syms))
    return out


def value_name(names, value, shown):
    """The shown text stands for the value (numbers for values without a name)."""
    if value in names:
        return shown == names[value]
    return re.search(r"(?<!\d)(%d|0x%x)(?!\d)" % (value, value), shown) is not None


def symbols(case, real=False):
    rng = case.rng
    info = make_elf(case, many=rng.random() < 0.7)
    data = info.elf.build(rng)
    cwd = folder(case)
    given, path = place(case, cwd, data, rng.choice([".elf", ".o", ""]))
    for n in range(rng.choice([1, 2, 3])):
        kw, tests, names = c17.criteria(rng, info)
        while len(names) > 1 and rng.random() < 0.5:
            kw, tests, names = c17.criteria(rng, info)
        opts = []
        for crit, short, long in (("sections", "-s", "--sections"), ("name_pattern", "-p", "--pattern"), ("types_str", "-t", "--types"), ("access", "-a", "--access"), ("bindings", "-b", "--bindings")):
            if kw.get(crit):
                opts.append(option(rng, short, long, kw[crit]))
        order = rng.choice([None, "N", "V"])
        if order:
            opts.append(option(rng, "-o", "--order-by", order))
        args = shuffled_args(rng, [given], opts)
        case.note(query=kw, symbols=info.symbols[:30])
        status, text, err = run(case, "oj_elf_syms", args, cwd, real)
        case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (text + err)[-1500:]))
        groups = parse_symbols(case, text)
        want = [e for e in info.symbols if all(t(e) for t in tests)]
        case.equal(sorted(g for g, _ in groups), sorted({e["section_name"] for e in want}), "wrong groups of symbols")
        for g, syms in groups:
            mine = [(e["name"], e["value"], e["size"], e["bind"], e["type"], "".join(c if e["access"] & m else " " for c, m in (("A", 2), ("W", 1), ("X", 4)))) for e in want if e["section_name"] == g]
            case.check(len(mine) == len(syms), "wrong symbols listed", "section %r: %d instead of %d" % (g, len(syms), len(mine)))
            left = list(mine)
            for s in syms:
                hit = next((w for w in left if w[:3] == s[:3] and value_name(BIND_NAMES, w[3], s[3]) and value_name(TYPE_NAMES, w[4], s[4]) and w[5] == s[5]), None)
                if hit is None:
                    near = [w for w in mine if w[:3] == s[:3]] or [w for w in mine if w[0] == s[0]]
                    case.fail("wrong symbols listed", "%r in %r, expected %r" % (s, g, near[:3] or mine[:3]))
                left.remove(hit)
            keys = [s[0] if order == "N" else s[1] for s in syms]
            case.check(keys == sorted(keys), "symbols listed in wrong order", "%s: %r" % (order, keys[:20]))
            case.ev()
        case.seen("symbols listed", len(want))
        case.seen("partial symbol lists", 0 < len(want) < len(info.symbols))
        case.seen("second runs", n > 0)
        case.distinct("symbols", tuple(names), order, "none" if not want else "all" if len(want) == len(info.symbols) else "some", n > 0)
    case.check(read(path) == data, "input file changed")
    case.sample(" ".join(args))


ET = {0: "NONE", 1: "REL", 2: "EXEC", 3: "DYN", 4: "CORE"}
SHT = {0: "NULL", 1: "PROGBITS", 2: "SYMTAB", 3: "STRTAB", 4: "RELA", 5: "HASH", 6: "DYNAMIC", 7: "NOTE", 8: "NOBITS", 9: "REL", 11: "DYNSYM", 14: "INIT_ARRAY", 15: "FINI_ARRAY", 17: "GROUP",
       0x6FFFFFF6: "GNU_HASH", 0x70000001: "ARM_EXIDX", 0x70000003: "ARM_ATTRIBUTES"}
PT = {0: "NULL", 1: "LOAD", 2: "DYNAMIC", 3: "INTERP", 4: "NOTE", 6: "PHDR", 7: "TLS", 0x6474E550: "GNU_EH_FRAME", 0x70000001: "ARM_EXIDX"}


HARMLESS = (".debug_frame", ".debug_gdb_scripts", ".debug_info.dwo")  # do not say that there are units


def elf_info(case, real=False):
    rng = case.rng
    info = make_elf(case, small=rng.random() < 0.4)
    if case.index % 40 == 17:  # (a large one)
        info = elfgen.rand_elf(rng, disjoint=True, huge=True, undebugged=True)
    for _ in range(100):
        if not any(s.name.startswith((".debug", ".dwo")) and s.name not in HARMLESS and s.content for s in info.elf.sections) and info.elf.sections and info.elf.shstrndx:
            break
        info = make_elf(case, small=rng.random() < 0.4)
    elf, h = info.elf, info.elf.hdr
    data = elf.build(rng)
    cwd = folder(case)
    given, path = place(case, cwd, data, rng.choice([".elf", ".o", ""]))
    for n in range(rng.choice([1, 1, 2])):
        status, text, err = run(case, "oj_elf_info", [given], cwd, real)
        case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (text + err)[-1500:]))
        case.seen("debugging sections without units", any(s.name.startswith(".debug") for s in elf.sections))
        lines = text.split("\n")
        facts = dict(ln.split(None, 1) for ln in lines[:8] if len(ln.split(None, 1)) == 2)
        case.check(facts.get("Class:", "").startswith(str(elf.cls)), "wrong class shown", "%r" % facts)
        case.check(("Little" if elf.order == "little" else "Big") in facts.get("Data:", ""), "wrong byte order shown", "%r" % facts)
        shown = facts.get("Type:", "").split(" ")[0]
        case.check(value_name(ET, h["e_type"], shown) or h["e_type"] not in ET, "wrong file type shown", "%r for %d" % (shown, h["e_type"]))
        m = re.search(r"OS/ABI\s+(\S+) / v(\d+)", text)
        case.check(m is not None and int(m[2]) == h["ei_abiversion"], "wrong ABI version shown", "%r" % (m and m[0]))
        # the tables
        names = ["Sections", "Segments"] + ([".comment"] if info.comment else []) + [n[0] for n in info.notes]
        titles = [i for i, ln in enumerate(lines) if i >= 1 and i + 1 < len(lines) and ln and set(lines[i - 1]) == {"="} and lines[i - 1] == lines[i + 1] and len(ln) == len(lines[i - 1])]
        case.equal([lines[i] for i in titles], names, "wrong parts shown")
        parts = [lines[a + 2 : b - 1 if b is not None else None] for a, b in zip(titles, [*titles[1:], None])]
        rows = []
        for ln in parts[0]:
            m = re.fullmatch(r"(.{25,}?) (\S+)\s+([0-9a-f]{8,}) ([0-9a-f]{8,}) ([0-9a-f]{6,}) +(\d+)", ln)
            if m and m[2] != "Type":
                rows.append((m[1].rstrip(" "), m[2], int(m[3], 16), int(m[4], 16), int(m[5], 16), int(m[6])))
        case.equal([(r[0], *r[2:]) for r in rows], [(s.name, s.addr, s.offset, s.size, s.align) for s in elf.sections], "wrong sections shown")
        for r, s in zip(rows, elf.sections):
            case.check(s.type not in SHT or r[1] == SHT[s.type], "wrong section type shown", "%r for %#x" % (r[1], s.type))
        case.seen("sections listed", len(rows))
        rows = []
        for ln in parts[1]:
            m = re.fullmatch(r"(\S+)\s+0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) 0x([0-9a-f]+) ([R-][W-][X-])\s+(\d+)", ln)
            if m:
                rows.append((m[1], *[int(x, 16) for x in m.groups()[1:6]], m[7], int(m[8])))
        want = [(p["p_offset"], p["p_vaddr"], p["p_paddr"], p["p_filesz"], p["p_memsz"], "".join(c if p["p_flags"] & b else "-" for c, b in (("R", 4), ("W", 2), ("X", 1))), p["p_align"]) for p in elf.segments]
        case.equal([r[1:] for r in rows], want, "wrong segments shown")
        for r, p in zip(rows, elf.segments):
            case.check(p["p_type"] not in PT or r[0] == PT[p["p_type"]], "wrong segment type shown", "%r for %#x" % (r[0], p["p_type"]))
        rest = parts[2:]
        if rest and any(s.name.startswith(".debug") for s in elf.sections):
            # something about them may follow
            size = len(info.comment.split("\n")) + 1 if len(rest) == 1 and info.comment else 4
            rest[-1] = rest[-1][:size]
        if info.comment:
            case.check("\n".join(rest[0]).strip("\n") == info.comment.strip("\n"), "wrong comment shown", "%r instead of %r" % (rest[0], info.comment))
            rest = rest[1:]
        for part, (_, typ, name, desc) in zip(rest, info.notes):
            row = [ln for ln in part if ln.strip() and not re.fullmatch("-+", ln)][1:]
            case.check([ln.split() for ln in row] == [[str(typ)] + ([name] if name else []) + ([desc] if desc else [])], "wrong note shown", "%r instead of %r" % (row, (typ, name, desc)))
        case.seen("ELF files described")
        case.seen("large ELF files described", len(elf.sections) > 300)
        case.seen("second runs", n > 0)
    case.check(read(path) == data, "input file changed")
    case.distinct("info", elf.cls, elf.order, min(len(elf.sections), 8), len(elf.segments), bool(info.comment), len(info.notes))


def arm_attrs(case, real=False):
    rng = case.rng
    arm = rng.random() < 0.85
    while True:
        info = elfgen.rand_elf(rng, small=True, machine=40 if arm else rng.choice([3, 62, 8, 83]))
        if info.elf.shstrndx and len(info.elf.sections) > 1:
            break
    elf = info.elf
    victims = [i for i, s in enumerate(elf.sections) if i and s.type == 1 and s.name != ".comment"]
    want = []
    if victims and rng.random() < 0.95:
        parts = []
        for v in rng.sample(c18.VENDORS, rng.choice([0, 0, 1])) + ["aeabi"]:
            if v in [n for n, _ in want]:
                continue
            attrs = []
            for _ in range(rng.choice([1, 2, 5, 12])):
                tag, value = c18.rand_attribute(case, rng)
                if tag not in c18.TAGS or tag == 20:
                    continue
                k = c18.kind_of(tag)
                if k == "s":
                    value = value.strip()[:60]
                elif k == "c":
                    continue
                attrs.append((tag, value))
            want.append((v, attrs))
            parts.append((v, b"".join(c18.encode_attribute(rng, t, x) for t, x in attrs)))
        new = elfgen.Sec(".ARM.attributes", 0x70000003, 0, 0, c18.section(elf.order, parts))
        elf.sections[rng.choice(victims)] = new
        strtab = elf.sections[elf.shstrndx]
        new.name_off = len(strtab.content)
        strtab.content += b".ARM.attributes\0"
        strtab.size = len(strtab.content)
    cwd = folder(case)
    data = elf.build(rng)
    given, path = place(case, cwd, data, rng.choice([".elf", ".o", ""]))
    case.note(expected=want)
    status, text, err = run(case, "oj_elf_arm_attrs", [given], cwd, real)
    if not arm:
        case.check(status not in (0, None) and text.strip(), "foreign machine not reported", "status %r" % status)
        case.seen("unusable inputs")
        return
    case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (text + err)[-1500:]))
    squeezed = " ".join(text.split())
    at = 0
    for v, attrs in want:
        bar = "=" * len(v)
        head = "%s %s %s Name Value Description" % (bar, v, bar)
        i = squeezed.find(head, at)
        case.check(i >= 0, "vendor not listed", v)
        at = i + len(head)
        m = re.compile(r" -+").match(squeezed, at)
        at = m.end() if m else at
        for tag, value in attrs:
            title, _, meanings = c18.TAGS[tag]
            meaning = meanings.get(value, value) if meanings else value
            # names and meanings are defined for the vendor "aeabi"
            wanted = " ".join(("%s %s %s" % (title, value, meaning)).split())
            if v == "aeabi":
                have = squeezed[at : at + 1 + len(wanted)].strip()
                case.check(have == wanted, "wrong attribute listed", "%r instead of %r" % (have, wanted))
                at += 1 + len(wanted)
            case.seen("attributes listed")
        if v == "aeabi":
            case.check(squeezed[at:].strip() == "" or squeezed[at:].strip().startswith("="), "unexpected attribute", squeezed[at : at + 100])
    case.check(want or not re.search(r"^Name\s+Value", text, re.M), "attributes listed of a file without any")
    case.seen("attribute listings")
    case.distinct("attributes", elf.cls, elf.order, tuple((n, len(a)) for n, a in want))


# -- unusable inputs ---------------------------------------------------------------------------
PROSE = [b"the quick zebra jumps\nover the lazy quokka\n", b"#include <stdio.h>\nint main(void) { return 0; }\n", b"", b"\n\n", b"\xff\xfe\x00zzz\x80\x81" * 5, b"qwxyz", b"<html><zq></html>\n", bytes(64)]


def unusable(case, real=False):
    rng = case.rng
    tool = TOOLS[case.index % len(TOOLS)]
    cwd = folder(case)
    kind = rng.choice(["missing", "missing", "prose", "prose", "prose", "folder", "damaged"])
    path = os.path.join(cwd, "input.x")
    if kind == "prose":
        data = rng.choice(PROSE)
        with open(path, "wb") as f:
            f.write(data)
    elif kind == "folder":
        os.makedirs(path)
    elif kind == "damaged":
        if tool == "oj_hex_info":
            # one digit of a checksum
            text = b"S1051000AAFF42\n" if case.index % 2 else b":02100000AAFF46\n"
            data = text
        else:
            info = elfgen.rand_elf(rng, small=True)
            blob = bytearray(info.elf.build(rng))
            k = rng.choice(["magic", "header", "class"])
            if k == "magic":
                blob[rng.randrange(4)] ^= 1 << rng.randrange(8)
            elif k == "header":
                del blob[rng.randint(1, info.elf.hdr["e_ehsize"] - 1) :]
            else:
                blob[5] = rng.choice([0, 3, 255])
            data = bytes(blob)
        with open(path, "wb") as f:
            f.write(data)
    given = rng.choice(["input.x", path])
    out_path = os.path.join(cwd, "out.hex")
    old = None
    if rng.random() < 0.5:
        old = b"former contents"
        with open(out_path, "wb") as f:
            f.write(old)
    fmt = ("srec" if case.index % 2 else "ihex") if kind == "damaged" else NAMES[case.index // len(TOOLS) % len(NAMES)]
    args = {"oj_hex_info": [fmt, given] + rng.choice([[], ["-d"]]), "oj_elf_extract": [given, "out.hex"] + rng.choice([[], ["-t", "srec"], ["-j"]])}.get(tool, [given])
    for n in range(rng.choice([1, 2])):
        status, text, err = run(case, tool, args, cwd, real)
        case.check(status != 0, "success reported for an unusable file", "%s, %s: %r" % (kind, fmt, text))
        case.check(bool((text + err).strip()), "no message for an unusable file", kind)
        case.check(read(out_path) == old, "output written for an unusable file", kind)
        case.check(not re.search(r"^\d{3}\s+0x|total bytes|^Value +Size|^PROGBITS", text, re.M), "contents reported for an unusable file", text)
        case.seen("unusable inputs")
    # the same file name with proper contents works afterwards
    if tool == "oj_elf_extract" and kind in ("prose", "damaged", "missing"):
        info = elfgen.rand_elf(rng, disjoint=True, small=True)
        if os.path.exists(path):
            os.unlink(path)
        with open(path, "wb") as f:
            f.write(info.elf.build(rng))
        want = c17.image_sections(info, "", "")
        mem = {a + i: b for a, c, _ in want for i, b in enumerate(c)}
        status, text, err = run(case, tool, [given, "out.hex", "-t", "shf"], cwd, real)
        got = read(out_path)
        if mem:
            case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (text + err)[-1500:]))
            try:
                case.check(FORMATS["shf"].decode(got).mem == mem, "wrong program image extracted")
            except FormatError as e:
                case.fail("malformed shf file extracted", str(e))
        else:
            case.check(got == old, "file written without an image")
    case.distinct("unusable", tool, kind, fmt if tool == "oj_hex_info" else "", old is None)


# -- objects of the installed compilers against binutils -----------------------------------------
PROGRAMS = []
SOURCE = ("#include <stddef.h>\nint counter = 7; static int hidden_one; const char *msg = \"hello\"; __attribute__((weak)) int weak_one(void) { return counter; }\n"
          "unsigned char ram[%d]; const unsigned char rom[%d] = {1,2,3,%d}; __attribute__((section(\".calib\"))) int calib[%d] = {5,%d};\n"
          "static int f(int a) { return a ? a * f(a - 1) : hidden_one++; } int g(int a) { return f(a) + rom[a] + ram[a] + weak_one(); }\nint main(void) { return g(calib[0]); }\n")


def prepare(base, tier):
    import random

    PROGRAMS.clear()
    DEBUG.clear()
    need = ["gcc", "objcopy", "readelf"]
    if not all(shutil.which(n) for n in need):
        return
    rng = random.Random(11)
    d = os.path.join(base, "programs")
    os.makedirs(d)
    jobs = []
    for i in range(8 if tier == "quick" else 30):
        src = os.path.join(d, "p%d.c" % i)
        with open(src, "w") as f:
            f.write(SOURCE % tuple(rng.randint(1, 200) for _ in range(5)))
        out = os.path.join(d, "p%d.elf" % i)
        low = rng.choice([0x1000, 0x8000])
        cmd = ["gcc", rng.choice(["-O0", "-Os", "-O2"]), *rng.choice([[], ["-g"]]), "-w", "-nostdlib", "-static", "-ffreestanding", "-fno-pic", "-no-pie", "-fno-stack-protector", "-Wl,-e,main", "-Wl,-z,max-page-size=4096",
               "-Wl,-Ttext-segment=%#x" % (low * rng.choice([1, 1, 0x100])), src, "-o", out]
        jobs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for out, p in jobs:
        if p.wait() == 0:
            r = subprocess.run(["readelf", "-sW", out], capture_output=True)
            o = subprocess.run(["objcopy", "-O", "srec", out, out + ".srec"], capture_output=True)
            if r.returncode == 0 and o.returncode == 0:
                with open(out + ".srec", "rb") as f:
                    mem = FORMATS["srec"].decode(f.read().replace(b"\r\n", b"\n")).mem
                PROGRAMS.append((out, mem, r.stdout.decode("latin1")))
    jobs = []
    for n, src in enumerate((c20.C, "int other = 5; typedef struct { char c; long l; } pair_t; pair_t pair; int second(int a) { return a + other; }\n")):
        with open(os.path.join(d, "u%d.c" % n), "w") as f:
            f.write(src)
    for cc in ("gcc", "clang"):
        for v in ("2", "3", "4", "5") if cc == "gcc" else ("2", "4"):
            for opts in (["-O0"], ["-O2", "-gpubnames"], ["-c", "-g3"], ["-c", "-ffunction-sections", "-gpubnames"]) if tier != "quick" or v in "45" else (["-O1", "-gpubnames"], ["-c"]):
                if shutil.which(cc):
                    out = "d%d.elf" % len(jobs)
                    cmd = [cc, "-gdwarf-" + v, *opts, "-w", "-o", out, "u0.c"] + ([] if "-c" in opts else ["u1.c", "-nostdlib", "-nostartfiles", "-ffreestanding", "-static", "-Wl,-e,main,--unresolved-symbols=ignore-all"])
                    jobs.append((" ".join(cmd[:-1]), os.path.join(d, out), subprocess.Popen(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for label, out, p in jobs:
        if p.wait() == 0 and os.path.exists(out):
            r = subprocess.run(["readelf", "-W", "--debug-dump=info", out], capture_output=True)
            DEBUG.append((label, out, r.stdout.decode("utf-8", "replace")))
    print("%d of %d programs with debugging information compiled" % (len(DEBUG), len(jobs)))


def compiled(case):
    if not PROGRAMS:
        return
    rng = case.rng
    source, mem, listing = PROGRAMS[case.index % len(PROGRAMS)]
    cwd = folder(case)
    path = os.path.join(cwd, "prog.elf")
    shutil.copy(source, path)
    ft = rng.choice([t for t in LIMITS if LIMITS[t] >= max(mem)])
    status, text, err = run(case, "oj_elf_extract", ["prog.elf", "out", "-t", ft] + rng.choice([[], ["-j"]]), cwd)
    case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (text + err)[-1500:]))
    try:
        got = FORMATS[ft].decode(read(os.path.join(cwd, "out"))).mem
    except FormatError as e:
        case.fail("malformed %s file extracted" % ft, str(e))
    case.check(got == mem, "program image differs from objcopy", gen.mem_diff(got, mem))
    case.seen("compiled programs")
    status, text, err = run(case, "oj_elf_syms", ["prog.elf"], cwd)
    case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (text + err)[-1500:]))
    have = sorted((s[0], s[1], s[2], s[4], s[3]) for _, g in parse_symbols(case, text) for s in g if s[4] != "SECTION")
    want = []
    for ln in listing.split("\n"):
        m = re.match(r"\s*\d+: ([0-9a-f]+)\s+(\S+) (\S+)\s+(\S+)\s+(\S+)\s+(\S+)(?: (.*))?$", ln)
        if m and m[3] != "SECTION":
            want.append(((m[7] or "").strip(), int(m[1], 16), int(m[2], 0), m[3], m[4]))
    case.check(have == sorted(want), "symbols differ from readelf", "missing %r, unexpected %r" % ([w for w in want if w not in have][:3], [h for h in have if h not in want][:3]))
    case.distinct("compiled", case.index % len(PROGRAMS), ft)


# -- debugging information ------------------------------------------------------------------
DEBUG = []
DIE = re.compile(r" *<(\d+)><([0-9a-f]+)>: Abbrev Number: (\d+) \((.*)\)")
DIE_ATTR = re.compile(r" *<([0-9a-f]+)> (\S.*?): (.*)", re.S)
UNIT = re.compile(r"Compilation Unit @ offset 0x([0-9a-f]+):\s+Length: +0x([0-9a-f]+).*\s+Version: +(\d+)\s+Abbrev Offset: +0x([0-9a-f]+)\s+Pointer Size: +(\d+)")
PUBLIC = re.compile(r"^ENTRY .*?offset = (\d+)\s+name = (None|.*?)(?: \(total \d+\)| \(truncated, total \d+\))?\s+stop = ", re.S | re.M)


def printed_tree(text):
    """-> [(depth, offset, tag, [(name, text)])]"""
    out = []
    for line in text.split("\n"):
        m = DIE.fullmatch(line)
        if m:
            out.append((int(m[1]), int(m[2], 16), m[4], []))
            continue
        m = DIE_ATTR.fullmatch(line)
        if m and out and not line.endswith("Abbrev Number: 0 ---"):
            out[-1][3].append((m[2], m[3]))
    return out


def public_names(rng, dbg):
    """.debug_pubnames for some units; -> contents, [(offset, name)] with the ends of the sets"""
    o, out, shown = dbg.order, b"", []
    for u in rng.sample(dbg.units, rng.randint(1, len(dbg.units))):
        body = b""
        for d in u.root.walk():
            if d is not u.root and rng.random() < 0.5:
                name = rng.choice(["main", "x", "counter", "_ZN3fooEv", "a::b<int>", "operator()", "v" * 40, "gr\u00f6\u00dfe", "\u5909\u6570"])
                body += (d.offset - u.start).to_bytes(4, o) + name.encode() + b"\0"
                shown.append((d.offset - u.start, name))
        body += bytes(4)
        if rng.random() < 0.3:
            body += bytes(rng.choice((1, 2, 3, 4, 6)))  # filled up to the next boundary
        shown.append((0, None))
        size = u.end - u.start
        head = (2).to_bytes(2, o) + u.start.to_bytes(4, o) + size.to_bytes(4, o)
        out += (len(head) + len(body)).to_bytes(4, o) + head + body
    return out, shown


def address_ranges(rng, dbg):
    o, out = dbg.order, b""
    for u in rng.sample(dbg.units, rng.randint(1, len(dbg.units))):
        n = dbg.cls // 8
        head = (2).to_bytes(2, o) + u.start.to_bytes(4, o) + bytes([n, 0])
        head += bytes(-(len(head) + 4) % (2 * n))
        body = b"".join(rng.randrange(1, 1 << 8 * n).to_bytes(n, o) + rng.randrange(1, 5000).to_bytes(n, o) for _ in range(rng.choice([0, 1, 1, 2, 7]))) + bytes(2 * n)
        out += (len(head) + len(body)).to_bytes(4, o) + head + body
    return out


def line_program(rng, dbg):
    o, out = dbg.order, b""
    for _ in dbg.units:
        head = bytes([1, 1, 0xFB, 14, 13, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1]) + rng.choice([b"", b"inc\0", b"a\0b c\0"]) + b"\0" + b"".join(n + bytes([0, 0, 0]) for n in rng.choice([[b"f.c\0"], [b"f.c\0", b"g\xc3\xb6.h\0"], []])) + b"\0"
        body = bytes([0, 1 + dbg.cls // 8, 2]) + rng.randbytes(dbg.cls // 8) + bytes([0x13, 0x83, 2, 4, 0, 1, 1])
        body = (2).to_bytes(2, o) + len(head).to_bytes(4, o) + head + body
        out += len(body).to_bytes(4, o) + body
    return out


def debug_info(case, real=False):
    rng = case.rng
    dbg = dwarfgen.rand_debug(rng, budget=rng.choice([None, None, 3, 60]))
    names = None
    if rng.random() < 0.6:
        dbg.sections[".debug_pubnames"], names = public_names(rng, dbg)
    if rng.random() < 0.6:
        dbg.sections[".debug_aranges"] = address_ranges(rng, dbg)
    if rng.random() < 0.4:
        dbg.sections[".debug_line"] = line_program(rng, dbg)
    if rng.random() < 0.3:
        dbg.sections[".debug_macinfo"] = b"".join(rng.choice([b"\1\5A 1\0", b"\2\6A\0", b"\1\7gr\xc3\xb6\xc3\x9fe 1\0", b"\3\0\1", b"\4"]) for _ in range(rng.randrange(1, 9))) + b"\0"
    elif rng.random() < 0.3:
        dbg.sections[".debug_macro"] = (4).to_bytes(2, dbg.order) + b"\2" + bytes(4) + b"\1\5A 1\0\0"
    for n in (".debug_line", ".debug_macinfo", ".debug_macro", ".debug_pubnames", ".debug_aranges", ".debug_types", ".debug_info.dwo"):
        if n not in dbg.sections and rng.random() < 0.05:  # such as in objects without functions
            dbg.sections[n] = b""
            case.seen("empty debugging sections")
    data = dwarfgen.elf_file(rng, dbg, rng.choice([[], [".text"], [".debug_frame"], [".data", ".debug_ranges", ".debug_loc"]]))
    cwd = folder(case)
    given, path = place(case, cwd, data, rng.choice([".elf", ".o", ""]))
    for n in range(rng.choice([1, 1, 1, 2])):
        status, text, err = run(case, "oj_elf_info", [given], cwd, real)
        case.check(status == 0, "tool fails on a valid file", "status %r: %s" % (status, (text + err)[-1500:]))
        units = [tuple(int(g, b) for g, b in zip(m, (16, 16, 10, 16, 10))) for m in UNIT.findall(text)]
        case.equal([(u[0], u[1], u[2], u[4]) for u in units], [(u.start, u.end - u.start - 4, u.version, u.addr) for u in dbg.units], "wrong units shown")
        got = printed_tree(text)
        want = []
        for u in dbg.units:
            todo = [(0, u.root)]
            while todo:
                level, d = todo.pop()
                want.append((level, u, d))
                todo += [(level + 1, c) for c in reversed(d.children)]
        case.equal([g[:2] for g in got], [(level, d.offset) for level, _, d in want], "wrong entries shown")
        for g, (level, u, d) in zip(got, want):
            at = "entry 0x%x of a unit of version %d" % (d.offset, u.version)
            tag = c20.TAGS.get(d.tag)
            case.check(g[2] == tag if tag else "%x" % d.tag in g[2].lower(), "wrong tag shown", "%s: %r, expected %s" % (at, g[2], tag or hex(d.tag)))
            case.equal([a[0].rstrip("_") for a in g[3] if not a[0].startswith("Unknown")], [a.name for a in d.attrs if a.name], "wrong attributes shown", at)
            case.equal(len(g[3]), len(d.attrs), "wrong attributes shown", at)
            for (name, shown), a in zip(g[3], d.attrs):
                c20.compare_shown(case, shown, a, "%s: %s (%s)" % (at, name, a.form), str)
            case.seen("debugging entries shown")
            case.seen("values shown", len(d.attrs))
        if names is not None:
            have = [(int(o), None if s == "None" else s) for o, s in PUBLIC.findall(text)]
            case.equal([h[0] for h in have], [w[0] for w in names], "wrong public names shown")
            for h, w in zip(have, names):
                case.check(w[1] is None or (h[1] or "").strip("u'\".") == w[1][: len((h[1] or "").strip("u'\"."))] != "", "wrong public names shown", "%r, expected %r" % (h, w))
                case.seen("public names shown")
        case.seen("files with debugging information")
        case.seen("second runs", n > 0)
    case.check(read(path) == data, "input file changed")
    case.distinct("debug info", dbg.cls, dbg.order, tuple(sorted({u.version for u in dbg.units})), names is not None, len(dbg.units))


def debug_programs(case):
    if not DEBUG:
        return
    label, source, text = DEBUG[case.index % len(DEBUG)]
    cwd = folder(case)
    shutil.copy(source, os.path.join(cwd, "prog.elf"))
    status, out, err = run(case, "oj_elf_info", ["prog.elf"], cwd)
    case.check(status == 0, "tool fails on a valid file", "%s: status %r: %s" % (label, status, (out + err)[-1500:]))
    got, want = printed_tree(out), c20.parse_readelf(text)
    case.check(len(want) > 5, "machinery: readelf output not understood", label)
    case.equal([g[:2] for g in got], [w[:2] for w in want], "entries differ from readelf", label)
    for g, w in zip(got, want):
        at = "%s: entry 0x%x" % (label, w[1])
        if w[2] in c20.TAGS.values():
            case.equal(g[2], w[2], "tag differs from readelf", at)
        names, wanted = [a[0].rstrip("_") for a in g[3]], [a[0] for a in w[3]]
        case.check(len(names) == len(wanted) and all(n == x or (n.startswith("Unknown") and x not in c20.KNOWN) for n, x in zip(names, wanted)), "attributes differ from readelf", "%s: %s, expected %s" % (at, names, wanted))
        for (name, shown), (_, wtext) in zip(g[3], w[3]):
            exp = c20.expected_value(wtext)
            if exp and exp[0] == "string" and "-c" not in label.split():
                case.check(shown.strip() == exp[1].strip(), "value differs from readelf", "%s %s: %r, readelf has %r" % (at, name, shown, wtext))
                case.seen("values shown")
        case.seen("debugging entries shown")
    case.seen("programs with debugging information")
    case.distinct("debug program", label)


def processes(case):
    """The same as real processes."""
    fn = [hex_info, extract, symbols, elf_info, arm_attrs, unusable, debug_info][case.index % 7]
    fn(case, real=True)


STREAMS = [
    Stream("huge", huge, 4, 200),
    Stream("hex info", hex_info, 13 * 45, 13 * 1500),
    Stream("extract", extract, 350, 8000),
    Stream("symbols", symbols, 300, 7000),
    Stream("info", elf_info, 200, 4000),
    Stream("debug info", debug_info, 80, 2500),
    Stream("debug programs", debug_programs, 20, 120),
    Stream("attributes", arm_attrs, 150, 3000),
    Stream("unusable", unusable, 400, 6000),
    Stream("compiled", compiled, 16, 120),
    Stream("processes", processes, 60, 1200),
]
