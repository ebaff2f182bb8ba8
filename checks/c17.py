"""C17: ELF queries and image extraction select exactly the requested items."""
import os
import re

from sqlalchemy import not_

from objutils.elf import ElfParser, model

from vlib import elfgen
from vlib.core import Stream, attempt

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("synthetic ELF files with many symbols and sections of all bindings, types and access flags, queried with every combination of the criteria (lists, patterns, orders), "
        "each query compared with a filter over the known contents; extraction with and without joining, patterns and callback; repeated queries on one parser and on a reopened one; "
        "distinct = distinct (criteria given, result empty/partial/all)")
REQUIRED = {"symbol queries": 6000, "queries with unknown words": 300, "symbols selected": 8000, "section queries": 2000, "images": 1500, "image sections": 1500, "callbacks": 800, "gcc symbols": 300, "single lookups": 2000, "attribute queries": 3000,
            "partial results": 2000, "huge files": 3}

BINDS = {"g": 1, "l": 0, "w": 2}
TYPES = {"notype": 0, "object": 1, "func": 2, "section": 3, "file": 4, "common": 5, "tls": 6}
ACCESS = {"a": 2, "w": 1, "x": 4}
PATTERNS = ["main", "m", "foo", "foo$", "^foo", r"foo\.", ".*", ".", "_", "_.*", "[A-Z]", "(?i)counter", "fo+", "x|y", "bar|baz", "", r"\$", ".*o", "a{3,}", "$", "Foo", r"\w+$", "oo", "ain", "(foo|bar)$", "[^_]"]
SEC_PATTERNS = [r"\.text", ".text", r"\.data$", r"\.(text|data)", ".*", "", r"\.te", "text", "^\\.", "[a-z]", "A+", r"\.debug", r"\.bss|\.data", "(?i)A", r".*\d$", r"\.nothing", r"\.dat"]


def letters(rng, d):
    items = [k if rng.random() < 0.7 else k.upper() for k in rng.sample(sorted(d), rng.randint(1, min(3, len(d))))]
    if rng.random() < 0.15:
        items.append(rng.choice(items))
    return join_list(rng, items), {d[i.lower()] for i in items}


def join_list(rng, items):
    out = items[0]
    for i in items[1:]:
        out += rng.choice([",", ",", " ", ", ", " ,"]) + i
    if rng.random() < 0.1:
        out = rng.choice([" ", ","]) + out
    if rng.random() < 0.1:
        out += rng.choice([" ", ","])
    return out


def symbol_id(s):
    return (s.symbol_name, s.st_name, s.st_value, s.st_size, s.st_bind, s.st_type, s.st_other, s.st_shndx, s.section_name, s.access)


def known_id(e):
    return (e["name"], e["name_off"], e["value"], e["size"], e["bind"], e["type"], e["other"], e["shndx"], e["section_name"], e["access"])


def key(x):
    return tuple(str(v) for v in x)


def rich(rng, disjoint=True, huge=False):
    """File with many symbols."""
    info = elfgen.rand_elf(rng, disjoint=disjoint, many=rng.random() < 0.6, huge=huge)
    return info


def some_names(rng, pool):
    names = rng.sample(pool, min(len(pool), rng.randint(1, 3))) if pool else []
    if rng.random() < 0.3 or not names:
        names.append(rng.choice([".nothing", ".tex", ".TEXT", "te%", ".t_xt"]))
    rng.shuffle(names)
    return [n for n in names if n and " " not in n and "," not in n] or [".nothing"]


UNKNOWN = {
    "bindings": ["x", "q", "global", "lo", "0", "gl", "_", "-"],
    "access": ["r", "q", "alloc", "0", "-", "_"],
    "types_str": ["type", "fun", "functions", "obj", "t", "c", "stt_func", "loos", "0", "ls", "not", "common_", "-"],
}


def criteria(rng, info):
    """Random criteria for symbols: (keyword arguments, predicates, names)."""
    kw, tests, given = {}, [], []
    pool = sorted({e["section_name"] for e in info.symbols})
    for crit in ("sections", "name_pattern", "bindings", "access", "types_str"):
        if rng.random() < 0.45:
            continue
        if rng.random() < 0.1:
            kw[crit] = rng.choice([None, ""])
            continue
        given.append(crit)
        if crit == "sections":
            names = some_names(rng, pool)
            kw[crit] = join_list(rng, names)
            tests.append(lambda e, names=names: e["section_name"] in names)
        elif crit == "name_pattern":
            p = rng.choice(PATTERNS[:-1]) if rng.random() < 0.8 else re.escape(rng.choice(elfgen.SYMS)[: rng.randint(1, 4)])
            kw[crit] = p
            if p:
                tests.append(lambda e, p=p: re.match(p, e["name"]) is not None)
        elif crit == "bindings":
            kw[crit], want = letters(rng, BINDS)
            tests.append(lambda e, want=want: e["bind"] in want)
        elif crit == "access":
            kw[crit], want = letters(rng, ACCESS)
            tests.append(lambda e, mask=sum(want): e["access"] & mask != 0)
        else:
            kw[crit], want = letters(rng, TYPES)
            tests.append(lambda e, want=want: e["type"] in want)
        if crit in UNKNOWN and rng.random() < 0.15:  # Nothing is of a kind that does not exist.
            if rng.random() < 0.5:
                kw[crit] += rng.choice([",", " "]) + rng.choice(UNKNOWN[crit])
            else:
                kw[crit] = rng.choice(UNKNOWN[crit])
                tests.append(lambda e: False)
            given.append("unknown")
    return kw, tests, given


def query_symbols(case, ep, info):
    rng = case.rng
    kw, tests, given = criteria(rng, info)
    by_value = None
    if rng.random() < 0.7:
        kw["order_by_value"] = by_value = rng.random() < 0.5
    case.note(query=kw, symbols=info.symbols[:40])
    if "unknown" in given:  # Could be refused as well.
        given.remove("unknown")
        case.seen("queries with unknown words")
        out = attempt(ep.symbols.fetch, **kw)
        if isinstance(out.exc, (ValueError, KeyError, TypeError)):
            return kw
        if not out.ok:
            raise out.exc
        got = out.value
    else:
        got = ep.symbols.fetch(**kw)
    want = [e for e in info.symbols if all(t(e) for t in tests)]
    flat = []
    for name, group in got.items():
        case.check(len(group) > 0, "empty group of symbols", name)
        for s in group:
            case.check(s.section_name == name, "symbol in wrong group", "%r in %r" % (s.symbol_name, name))
        values = [s.st_value for s in group] if by_value is not False else [s.symbol_name for s in group]
        case.check(values == sorted(values), "symbols of a section in wrong order", "%r: %r" % (kw, values))
        flat += group
    a, b = sorted(map(symbol_id, flat), key=key), sorted(map(known_id, want), key=key)
    if a != b:
        missing, extra = [x for x in b if x not in a], [x for x in a if x not in b]
        case.fail("wrong symbols selected" + (" (%s)" % given[0] if len(given) == 1 else ""), "query %r: missing %r, unexpected %r" % (kw, missing[:3], extra[:3]))
    case.ev()
    case.seen("symbol queries")
    case.seen("symbols selected", len(want))
    case.seen("partial results", 0 < len(want) < len(info.symbols))
    case.distinct("symbols", tuple(given), by_value, "none" if not want else "all" if len(want) == len(info.symbols) else "some", kw.get("access"), kw.get("bindings"))
    return kw


def query_sections(case, ep, info):
    rng = case.rng
    kw, tests = {}, []
    secs = info.elf.sections
    if rng.random() < 0.5:
        names = some_names(rng, sorted({s.name for s in secs}))
        kw["sections"] = join_list(rng, names)
        tests.append(lambda s: s.name in names)
    if rng.random() < 0.5:
        p = rng.choice(SEC_PATTERNS)
        kw["name_pattern"] = p
        if p:
            tests.append(lambda s: re.match(p, s.name) is not None)
    if rng.random() < 0.6:
        kw["order_by_address"] = rng.random() < 0.5
    case.note(query=kw, sections=[s.name for s in secs])
    got = ep.sections.fetch(**kw)
    want = sorted(i for i, s in enumerate(secs) if all(t(s) for t in tests))
    case.equal(sorted(s.index for s in got), want, "wrong sections selected", "%r" % kw)
    values = [s.sh_addr for s in got] if kw.get("order_by_address", True) else [s.section_name for s in got]
    case.check(values == sorted(values), "sections in wrong order", "%r: %r" % (kw, values))
    for s in got:
        case.check(s.section_name == secs[s.index].name and s.sh_addr == secs[s.index].addr, "wrong section selected")
    case.seen("section queries")
    case.seen("partial results", 0 < len(want) < len(secs))
    case.distinct("sections", tuple(sorted(kw)), len(want) == 0, len(want) == len(secs))


SYMBOL_ATTRS = {
    "hidden": lambda e: e["other"] & 3 in (1, 2), "weak": lambda e: e["bind"] == 2, "local": lambda e: e["bind"] == 0, "global_": lambda e: e["bind"] == 1,
    "absolute": lambda e: e["shndx"] == 0xFFF1, "undefined": lambda e: e["shndx"] == 0,
    "writeable": lambda e: e["access"] & 1, "allocate": lambda e: e["access"] & 2, "executeable": lambda e: e["access"] & 4,
}
SECTION_ATTRS = {
    "flag_writeable": 1, "flag_alloc": 2, "flag_executable": 4, "flag_merge": 0x10, "flag_strings": 0x20, "flag_info_link": 0x40, "flag_link_order": 0x80,
    "flag_os_nonconforming": 0x100, "flag_group": 0x200, "flag_tls": 0x400, "flag_ordered": 0x40000000, "flag_exclude": 0x80000000,
}


def attributes(case, ep, info):
    """Queries by the attributes of the database model, alone, negated, and combined with one another."""
    rng = case.rng
    crit, tests = [], []
    for _ in range(rng.randint(1, 2)):
        kind, positive = rng.random(), rng.random() < 0.7
        if kind < 0.8:
            name = rng.choice(sorted(SYMBOL_ATTRS))
            col, test = getattr(model.Elf_Symbol, name), SYMBOL_ATTRS[name]
        else:
            mask = rng.choice([1, 2, 3, 4, 5, 6, 7, 0x12])
            name = "test_access(%#x)" % mask
            col, test = model.Elf_Symbol.test_access(mask), lambda e, mask=mask: e["access"] & mask == mask
        crit.append((name, positive, col if positive else not_(col)))
        tests.append(lambda e, test=test, positive=positive: bool(test(e)) == positive)
    got = ep.query(model.Elf_Symbol)
    for _, _, c in crit:
        got = got.filter(c)
    got = got.all()
    label = [c[:2] for c in crit]
    case.note(query=label, symbols=info.symbols[:40])
    want = [e for e in info.symbols if all(t(e) for t in tests)]
    case.equal(sorted(map(symbol_id, got), key=key), sorted(map(known_id, want), key=key), "wrong symbols selected by attribute (%s)" % label[0][0], "%r" % label)
    case.seen("attribute queries")
    case.seen("symbols selected", len(want))
    case.distinct("attribute", tuple(label), bool(want), len(want) == len(info.symbols))
    secs = info.elf.sections
    name, positive = rng.choice(sorted(SECTION_ATTRS) + ["has_content", "is_debug"] * 3), rng.random() < 0.7
    if name == "has_content":
        test = lambda s: s.has_contents
    elif name == "is_debug":
        test = lambda s: s.name.startswith(".debug")
    else:
        test = lambda s: s.flags & SECTION_ATTRS[name]
    col = getattr(model.Elf_Section, name)
    got = sorted(s.index for s in ep.query(model.Elf_Section).filter(col if positive else not_(col)).all())
    want = [i for i, s in enumerate(secs) if bool(test(s)) == positive]
    case.equal(got, want, "wrong sections selected by attribute (%s)" % name, "%s %r of %r" % (name, positive, [(s.name, s.type, s.flags, s.size) for s in secs]))
    case.seen("attribute queries")
    case.seen("partial results", 0 < len(want) < len(secs))
    case.distinct("section attribute", name, positive, bool(want))


def lookups(case, ep, info):
    rng = case.rng
    for _ in range(3):
        name = rng.choice(elfgen.SYMS + ["nothing"])
        sec = rng.choice([None, None] + sorted({e["section_name"] for e in info.symbols if e["section_name"]}) + [".nothing"])
        got = ep.symbols.get(name, sec) if sec is not None or rng.random() < 0.5 else ep.symbols.get(name)
        want = [known_id(e) for e in info.symbols if e["name"] == name and (sec is None or e["section_name"] == sec)]
        case.check((symbol_id(got) in want) if got is not None else not want, "wrong result of symbols.get()", "%r in %r: %r" % (name, sec, got))
        sname = rng.choice(elfgen.NAMES)
        if rng.random() < 0.3:  # near misses
            sname = rng.choice((sname.swapcase(), sname[:-1] + "_", sname[:2] + "%", sname + " ", sname[:-1], "%", sname + "x", "*"))
        got = ep.sections.get(sname)
        want = [i for i, s in enumerate(info.elf.sections) if s.name == sname]
        case.check((got.index in want) if got is not None else not want, "wrong result of sections.get()", sname)
        case.seen("single lookups", 2)


def gcc_symbols(case, ep, info):
    got = ep.symbols.fetch_gcc_special_symbols()
    want = sorted((known_id(e) for e in info.symbols if e["shndx"] == 0xFFF1 and e["name"].startswith("_") and e["type"] == 0), key=key)
    case.equal(sorted(map(symbol_id, got), key=key), want, "wrong special symbols")
    values = [s.st_value for s in got]
    case.check(values == sorted(values), "special symbols in wrong order")
    case.seen("gcc symbols", len(want))


def image_sections(info, inc, exc):
    """(address, contents, index) of the sections of the program image, by address."""
    want = [(s.addr, s.content, i) for i, s in enumerate(info.elf.sections)
            if s.has_contents and s.flags & elfgen.SHF_ALLOC and (not inc or re.match(inc, s.name)) and (not exc or not re.match(exc, s.name))]
    want.sort(key=lambda t: t[0])
    return want


def image(case, ep, info):
    rng = case.rng
    kw, told = {}, []
    if rng.random() < 0.5:
        kw["join"] = rng.random() < 0.5
    inc = rng.choice(SEC_PATTERNS) if rng.random() < 0.5 else ""
    exc = rng.choice(SEC_PATTERNS) if rng.random() < 0.4 else ""
    if inc or rng.random() < 0.2:
        kw["include_pattern"] = inc
    if exc or rng.random() < 0.2:
        kw["exclude_pattern"] = exc
    if rng.random() < 0.6:
        kw["callback"] = lambda state, section: told.append((state, section.index if section is not None else None))
    want = image_sections(info, inc, exc)
    case.note(query={k: v for k, v in kw.items() if k != "callback"}, sections=[(s.name, s.type, hex(s.flags), hex(s.addr), s.size) for s in info.elf.sections])
    img = ep.create_image(**kw)
    mem = {}
    for addr, content, _ in want:
        for i, b in enumerate(content):
            mem[addr + i] = b
    have, total = {}, 0
    for s in img:
        total += s.length
        for i, b in enumerate(bytes(s.data)):
            have[s.start_address + i] = b
    case.check(have == mem and total == len(mem), "wrong program image", "%r: %d bytes instead of %d" % (sorted(kw), total, len(mem)))
    starts = [(s.start_address, s.length) for s in img]
    if kw.get("join", True):
        runs = []
        for a, c, _ in want:
            if runs and runs[-1][0] + runs[-1][1] == a:
                runs[-1] = (runs[-1][0], runs[-1][1] + len(c))
            else:
                runs.append((a, len(c)))
        case.equal(starts, runs, "sections of the program image not joined")
    else:
        case.equal(starts, [(a, len(c)) for a, c, _ in want], "sections of the program image not kept")
    if "callback" in kw:
        case.check(told[:1] == [("start", None)] and told[-1:] == [("stop", None)] and len(told) >= 2, "callback not told about start and stop", "%r" % told[:5])
        case.equal([t for t in told[1:-1]], [("section", i) for _, _, i in want], "callback not told about the sections")
        case.seen("callbacks")
    case.seen("images")
    case.seen("image sections", len(want))
    case.distinct("image", tuple(sorted(kw)), kw.get("join"), bool(inc), bool(exc), min(len(want), 3))


def huge(case):
    """Hundreds of sections, thousands of symbols."""
    queries(case, True)
    case.seen("huge files")


def queries(case, huge=False):
    rng = case.rng
    info = rich(rng, huge=huge)
    blob = info.elf.build(rng, alias=True)
    path = os.path.join(case.scratch, "f.elf")
    with open(path, "wb") as f:
        f.write(blob)
    if rng.random() < 0.3:
        ElfParser(path).db.close()
    ep = ElfParser(path)
    todo = [query_symbols] * 14 + [query_sections] * 6 + [image] * 5 + [lookups] * 2 + [attributes] * 4 + [gcc_symbols]
    rng.shuffle(todo)
    for fn in todo[:12] if huge else todo:
        fn(case, ep, info)
    # bad patterns are errors and leave the parser usable
    out = attempt(ep.symbols.fetch, name_pattern="(")
    if info.symbols:
        case.check(not out.ok, "invalid pattern accepted")
    ep.session.rollback()
    query_symbols(case, ep, info)
    image(case, ep, info)
    ep.db.close()
    case.sample("%d symbols, %d sections" % (len(info.symbols), len(info.elf.sections)))


def two_parsers(case):
    """Interleaved queries on files opened at the same time."""
    rng = case.rng
    opened = []
    for i in range(2):
        info = rich(rng)
        path = os.path.join(case.scratch, "f%d.elf" % i)
        with open(path, "wb") as f:
            f.write(info.elf.build(rng, alias=True))
        opened.append((ElfParser(path), info))
    for _ in range(10):
        ep, info = rng.choice(opened)
        rng.choice([query_symbols, query_sections, image, lookups, attributes])(case, ep, info)
    for ep, _ in opened:
        ep.db.close()


STREAMS = [
    Stream("huge", huge, 6, 120),
    Stream("queries", queries, 500, 8000),
    Stream("two parsers", two_parsers, 60, 1000),
]
