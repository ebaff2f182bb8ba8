"""C04: corruption of a checksummed record is never accepted silently."""
import logging
import os

import objutils

from vlib import gen, hexio
from vlib.core import Stream, attempt
from vlib.formats import FORMATS

PROPERTY = "C04"
LEVEL = "fault_enumeration"
RULE = ("for each generated file: every single-digit substitution (all 15 other digits) at every checksum-covered position of one data record, every single-byte "
        "deletion and a byte insertion at every position; loaded and judged; distinct = distinct (codec, field, kind of fault, digit before and after / record length)")
REQUIRED = {"faults injected": 400000, "faults rejected": 380000, "records with special checksums": 200, "huge files": 7, "records without a group": 300}
ASSUMPTIONS = ["record type digits and (EMON52, SHF) addresses are outside the checksums of their formats",
               "deletions leave at least one data byte in the record",
               "Four Packed Code: whole groups of five digits; the change of one base 85 digit changes several bytes, which a sum need not notice"]

NAMES = ["ihex", "srec", "tek", "etek", "sig", "mostec", "emon52", "shf"]


class ErrorTap(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.n = 0

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.n += 1


TAP = ErrorTap()


def fields(fmt, line):
    """[(name, start, end)] digit positions covered by the checksum, and (start, step, count) of the data bytes."""
    if fmt == "ihex":
        n = len(line)
        return [("length", 1, 3), ("address", 3, 7), ("data", 9, n - 2), ("checksum", n - 2, n)], (9, 2, (n - 11) // 2)
    if fmt == "srec":
        n, w = len(line), {"1": 4, "2": 6, "3": 8}[line[1]]
        return [("length", 2, 4), ("address", 4, 4 + w), ("data", 4 + w, n - 2), ("checksum", n - 2, n)], (4 + w, 2, (n - 6 - w) // 2)
    if fmt in ("tek", "sig"):
        n = len(line)
        return [("address", 1, 5), ("length", 5, 7), ("checksum", 7, 9), ("data", 9, n - 2), ("checksum", n - 2, n)], (9, 2, (n - 11) // 2)
    if fmt == "mostec":
        n = len(line)
        return [("length", 1, 3), ("address", 3, 7), ("data", 7, n - 4), ("checksum", n - 4, n)], (7, 2, (n - 11) // 2)
    if fmt == "emon52":
        n = len(line)
        return [("length", 0, 2), ("data", 8, n - 5), ("checksum", n - 4, n)], (8, 3, (n - 13) // 3 + 1)
    if fmt == "etek":
        n = len(line)
        w = int(line[6], 16) or 16
        return [("length", 1, 3), ("checksum", 4, 6), ("address", 6, 7 + w), ("data", 7 + w, n)], (7 + w, 2, (n - 7 - w) // 2)
    raise KeyError(fmt)


def is_data(fmt, line):
    return {"ihex": lambda s: s[:1] == ":" and s[7:9] == "00", "srec": lambda s: s[:2] in ("S1", "S2", "S3"),
            "tek": lambda s: s[:1] == "/" and s[5:7] != "00", "sig": lambda s: s[:1] == ":" and s[5:7] != "00",
            "mostec": lambda s: s[:1] == ";" and s[1:3] != "00", "emon52": lambda s: len(s) > 9, "etek": lambda s: s[3:4] == "6"}[fmt](line)


def judge(case, fmt, text, mem, victim, field, kind, detail, via_file=None):
    """victim: addresses of the corrupted record; they may be missing if an error was reported."""
    TAP.n = 0
    if via_file:
        with open(via_file, "wb") as f:
            f.write(text)
        r = attempt(objutils.load, fmt, via_file)
    else:
        r = attempt(objutils.loads, fmt, text)
    case.ev()
    case.seen("faults injected")
    if not r.ok:
        case.seen("faults rejected")
        return
    got = gen.mem_of(r.value)
    if got == mem:
        case.seen("faults without effect on the data")
        return
    missing = set(mem) - set(got)
    intact = all(mem.get(a) == b for a, b in got.items())
    if intact and missing <= victim and TAP.n:
        case.seen("faults rejected")
        case.seen("records dropped with an error")
        return
    case.fail("corruption accepted (%s, %s, %s)" % (fmt, field, kind), "%s; %s; errors reported: %d" % (detail, gen.mem_diff(got, mem), TAP.n),
              format=fmt, corrupted=text)


def special(case, fmt):
    """A record with a remarkable checksum (0, all ones), address or contents."""
    rng = case.rng
    f = FORMATS[fmt]
    a = rng.choice([0, 0, 1, 0x100, 0xFF00, rng.randrange(0x10000 - 16)])
    n = rng.choice([1, 2, 5, 16])
    data = [rng.choice([0, 0, 0xFF, rng.randrange(256)]) for _ in range(n)]
    mem = {a + i: b for i, b in enumerate(data)}
    want = rng.choice(["0", "0", "F"])
    k = rng.randrange(n)
    tries = list(range(256))
    rng.shuffle(tries)
    if rng.random() < 0.2:
        tries = [0]
    for v in tries:
        mem[a + k] = v
        text = bytes(objutils.dumps(fmt, gen.plain_image(mem), row_length=16))
        if fmt == "shf":
            break
        line = [ln for ln in text.decode("ascii").split("\n") if is_data(fmt, ln)][0]
        sums = ["".join(line[s:e]).upper() for name, s, e in fields(fmt, line)[0] if name == "checksum"]
        if any(set(x[-2:]) == {want} for x in sums):
            case.seen("records with special checksums")
            break
    return mem, text


def build(case, fmt):
    rng = case.rng
    f = FORMATS[fmt]
    if rng.random() < 0.3:
        return special(case, fmt)
    limit = rng.choice([0xFFFF, 0xFFFFFF, 0xFFFFFFFF])
    mem = gen.rand_mem(rng, min(limit, f.read_max), max_sections=3)
    mem = dict(sorted(mem.items())[: rng.choice([1, 5, 17, 40, 90])])
    own = rng.random() < 0.5
    if own:
        mem = {a & f.max_address: b for a, b in mem.items()}
        row = rng.choice([1, 4, 16, 16, 32])
        text = bytes(objutils.dumps(fmt, gen.plain_image(mem), row_length=row))
    else:
        text = f.generate(rng, mem)
        if fmt in ("ihex", "srec"):
            text = text.replace(b"\r\n", b"\n") if rng.random() < 0.5 else text
    return mem, text



def record_faults(case):
    rng = case.rng
    fmt = NAMES[case.index % 7]
    mem, text = build(case, fmt)
    log = logging.getLogger("objutils")
    if TAP not in log.handlers:
        log.addHandler(TAP)
    lines = text.decode("ascii").split("\n")
    cand = [i for i, ln in enumerate(lines) if is_data(fmt, ln)]
    target = rng.choice(cand)
    cr = lines[target].endswith("\r")
    line = lines[target][:-1] if cr else lines[target]
    case.note(format=fmt, mem=gen.mem_hex(mem), text=text, record=line)
    fl, (d0, step, n) = fields(fmt, line)
    # addresses of the record under attack
    victim = victim_addresses(fmt, lines, target)
    case.sample("%s record %s" % (fmt, line[:80]))

    def run(new, field, kind, detail):
        out = list(lines)
        out[target] = new + ("\r" if cr else "")
        judge(case, fmt, "\n".join(out).encode("ascii"), mem, victim, field, kind, detail)

    budget = 700 if case.tier == "quick" else 3000
    positions = [(name, p) for name, s, e in fl for p in range(s, e) if line[p] in "0123456789abcdefABCDEF"]
    todo = [(name, p, c) for name, p in positions for c in "0123456789ABCDEF" if c != line[p].upper()]
    if len(todo) > budget:
        keep = [t for t in todo if t[0] != "data"]
        rest = [t for t in todo if t[0] == "data"]
        todo = keep + rng.sample(rest, max(0, min(len(rest), budget - len(keep))))
    for name, p, c in todo:
        new = line[:p] + (c.lower() if line[p].islower() else c) + line[p + 1 :]
        run(new, name, "digit", "digit %d %s -> %s" % (p, line[p], c))
        case.distinct(fmt, name, line[p].upper(), c)
    # one data byte dropped / added (the other fields as they were)
    for i in range(n):
        if n > 1:
            p = d0 + i * step
            new = line[:p] + line[p + step :]
            run(new, "data", "byte dropped", "byte %d of %d" % (i, n))
            case.distinct(fmt, "drop", n, i)
    for i in range(n + 1):
        p = d0 + i * step
        ins = rng.choice([0, 0, 0xFF, rng.randrange(256)])
        if fmt == "emon52" and i == n:
            p -= 0
            new = line[: p - 1] + " %02X" % ins + line[p - 1 :]
        else:
            new = line[:p] + "%02X" % ins + (" " if step == 3 else "") + line[p:]
        run(new, "data", "byte added", "byte %02X before %d of %d" % (ins, i, n))
        case.distinct(fmt, "add", n, i)


def victim_addresses(fmt, lines, target):
    """Decode only the attacked record in context (independently)."""
    from vlib.formats import hx

    ln = lines[target].strip()
    raw = None
    if fmt == "ihex":
        base = 0
        for x in lines[:target]:
            x = x.strip()
            if x[7:9] in ("02", "04"):
                base = int(x[9:13], 16) << (4 if x[8] == "2" else 16)
        raw = hx(ln[1:], upper=False)
        a, n = base + (raw[1] << 8 | raw[2]), raw[0]
    elif fmt == "srec":
        raw = hx(ln[2:], upper=False)
        w = {"1": 2, "2": 3, "3": 4}[ln[1]]
        a, n = int.from_bytes(raw[1 : 1 + w], "big"), raw[0] - w - 1
    elif fmt in ("tek", "sig"):
        a, n = int(ln[1:5], 16), int(ln[5:7], 16)
    elif fmt == "mostec":
        a, n = int(ln[3:7], 16), int(ln[1:3], 16)
    elif fmt == "emon52":
        a, n = int(ln[3:7], 16), int(ln[:2], 16)
    else:
        w = int(ln[6], 16) or 16
        a, n = int(ln[7 : 7 + w], 16), (len(ln) - 7 - w) // 2
    return set(range(a, a + n))


def shf_faults(case):
    import re

    rng = case.rng
    mem, text = build(case, "shf")
    log = logging.getLogger("objutils")
    if TAP not in log.handlers:
        log.addHandler(TAP)
    t = text.decode("ascii")
    case.note(format="shf", mem=gen.mem_hex(mem), text=text)
    blocks = list(re.finditer(r"<block ([^<>]*)>([^<]*)</block>", t))
    b = rng.choice(blocks)
    addr = int(re.search(r'address="\s*([0-9a-fA-F]+)', b[1])[1], 16)
    size = len("".join(b[2].split())) // 2
    victim = set(range(addr, addr + size))
    spots = [("data", p) for p in range(b.start(2), b.end(2)) if t[p] in "0123456789abcdefABCDEF"]
    if len(spots) > 40:
        spots = rng.sample(spots, 40)
    for name in ("length", "checksum", "word_size"):
        m = re.search(r'\b%s="([^"]*)"' % name, b[1])
        spots += [(name, b.start(1) + m.start(1) + i) for i in range(len(m[1]))]
    path = os.path.join(case.scratch, "f") if rng.random() < 0.3 else None
    for name, p in spots:
        for c in rng.sample("0123456789abcdef", 5):
            if c == t[p].lower():
                continue
            new = t[:p] + (c.upper() if t[p].isupper() else c) + t[p + 1 :]
            judge(case, "shf", new.encode("ascii"), mem, victim, name, "digit", "digit %d %s -> %s" % (p, t[p], c), path)
            case.distinct("shf", name, t[p].upper(), c)
    # bytes dropped / added inside the block text
    digits = [p for p in range(b.start(2), b.end(2) - 1) if t[p : p + 2].isalnum() and sum(ch.isalnum() for ch in t[b.start(2) : p]) % 2 == 0]
    for p in rng.sample(digits, min(len(digits), 12)):
        if size > 1:
            judge(case, "shf", (t[:p] + t[p + 2 :]).encode("ascii"), mem, victim, "data", "byte dropped", "at %d" % p, path)
            case.distinct("shf", "drop", size, p - b.start(2))
        judge(case, "shf", (t[:p] + "%02x" % rng.choice([0, rng.randrange(256)]) + t[p:]).encode("ascii"), mem, victim, "data", "byte added", "at %d" % p, path)
        case.distinct("shf", "add", size, p - b.start(2))


def fpc_groups(case):
    """Four Packed Code: groups of five digits dropped from a record; added ones have no effect or are refused."""
    rng = case.rng
    f = FORMATS["fpc"]
    limit = rng.choice([0xFFFF, 0xFFFF, 0xFFFFFFFF])
    mem = dict(sorted(gen.rand_mem(rng, limit, max_sections=3).items())[: rng.choice([1, 5, 17, 40, 90, 300])])
    for a in sorted(mem):
        if rng.random() < 0.6:
            mem[a] = 0  # groups of zeros do not change a sum
    own = limit == 0xFFFF and rng.random() < 0.5
    text = bytes(objutils.dumps("fpc", gen.plain_image(mem), row_length=rng.choice([4, 16, 32, 251]))) if own else f.generate(rng, mem)
    log = logging.getLogger("objutils")
    if TAP not in log.handlers:
        log.addHandler(TAP)
    lines = text.decode("ascii").split("\n")
    cand = [i for i, ln in enumerate(lines) if len(ln.strip()) > 11]
    case.note(format="fpc", mem=gen.mem_hex(mem), text=text)
    for target in rng.sample(cand, min(len(cand), 12)):
        line = lines[target].strip()
        groups = [line[i : i + 5] for i in range(1, len(line), 5)]
        head = [f.decode_group(g) for g in groups[:2]]
        victim = set(range(head[1], head[1] + (head[0] >> 16 & 0xFF) - 4))
        n = len(groups)
        drops = [[i] for i in range(2, n)] + [list(range(i, n)) for i in range(2, n)]
        drops += [sorted(rng.sample(range(2, n), rng.randint(1, n - 2))) for _ in range(3)]
        zeros = [i for i in range(2, n) if groups[i] == f.DIGITS[0] * 5]
        if zeros:
            drops.append(zeros)
        drops = [x for x in drops if len(x) < n - 2]
        for drop in rng.sample(drops, min(len(drops), 25)):
            out = list(lines)
            out[target] = "$" + "".join(g for i, g in enumerate(groups) if i not in drop)
            judge(case, "fpc", "\n".join(out).encode("ascii"), mem, victim, "data", "groups dropped", "groups %s of %d in line %d" % (drop[:9], n, target))
            case.seen("records without a group")
            case.distinct("fpc", "drop", n, len(drop), drop[0])


def huge(case):
    """Faults in files of hundreds of kilobytes, at their end as well."""
    own_text_only(case, True)
    case.seen("huge files")


def own_text_only(case, huge=False):
    """Row-level faults in long files: the corrupted record is far from the start, the file has thousands of digits."""
    rng = case.rng
    fmt = NAMES[case.index % 7]
    f = FORMATS[fmt]
    n = rng.choice([300, 1000, 3000]) if not huge else min(f.max_address + 1, rng.randint(100000, 250000))
    start = rng.randint(0, min(f.max_address, 0xFFFFFFFF) + 1 - n)
    mem = {start + i: x for i, x in enumerate(gen.rand_bytes(rng, n))}
    text = bytes(objutils.dumps(fmt, gen.plain_image(mem))).decode("ascii")
    log = logging.getLogger("objutils")
    if TAP not in log.handlers:
        log.addHandler(TAP)
    lines = text.split("\n")
    cand = [i for i, ln in enumerate(lines) if is_data(fmt, ln)]
    case.note(format=fmt, mem=gen.mem_hex(mem))
    for k in range(6):
        target = rng.choice(cand if not huge or k < 2 else cand[-1:] if k == 2 else cand[len(cand) // 2 :])
        line = lines[target]
        fl, _ = fields(fmt, line)
        name, s, e = rng.choice(fl)
        p = rng.choice([q for q in range(s, e) if line[q] != " "])
        c = rng.choice([x for x in "0123456789ABCDEF" if x != line[p]])
        out = list(lines)
        out[target] = line[:p] + c + line[p + 1 :]
        judge(case, fmt, "\n".join(out).encode("ascii"), mem, victim_addresses(fmt, lines, target), name, "digit", "line %d digit %d" % (target, p))


STREAMS = [
    Stream("huge", huge, 7, 7 * 20),
    Stream("records", record_faults, 7 * 250, 7 * 5000),
    Stream("groups", fpc_groups, 80, 3000),
    Stream("shf", shf_faults, 400, 6000),
    Stream("long", own_text_only, 7 * 40, 7 * 1000),
]
