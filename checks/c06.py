"""C06: writer options take effect exactly as requested and do not leak."""
import os

import objutils
from objutils import Image, Section
from objutils.registry import registry

from vlib import gen, hexio
from vlib.core import Stream, attempt
from vlib.formats import FORMATS, NAMES, FormatError, row_limit, runs

PROPERTY = "C06"
LEVEL = "exploration"
QUICK_SCALE = 8
RULE = ("row length, S-record record type / count record / start address, filler and separator options, alone, combined and in sequences of writes of one process; "
        "distinct = distinct (codec, option set, value classes, image class) combinations")
REQUIRED = {"row lengths checked": 1500, "srec option sets": 1000, "binary writes": 600, "unknown options rejected": 200, "leak sequences": 100, "files of 64K records": 8, "wide start addresses": 50,
            "impossible options refused": 2000, "extreme row lengths written": 300, "huge images": 16}
ASSUMPTIONS = ["an image loaded from a file with a start address record keeps that start address"]


class Keep:
    """File object that survives close()."""

    def __init__(self):
        self.data = b""

    def write(self, data):
        self.data += bytes(data)
        return len(data)


def write(case, fmt, img, **kw):
    """Through one of the entry points."""
    k = case.rng.random()
    if k < 0.6:
        return bytes(objutils.dumps(fmt, img, **kw))
    if k < 0.8:
        f = Keep()
        objutils.dump(fmt, f, img, **kw)
        return f.data
    path = os.path.join(case.scratch, "out")
    objutils.dump(fmt, path, img, **kw)
    with open(path, "rb") as f:
        return f.read()


def decode(case, fmt, text, mem):
    try:
        d = FORMATS[fmt].decode(text)
    except (FormatError, UnicodeDecodeError) as e:
        case.fail("malformed %s file" % fmt, str(e), text=text)
    case.check(d.mem == mem, "option changes data (%s)" % fmt, gen.mem_diff(d.mem, mem), text=text)
    return d


def exact_rows(case, fmt, d, row, mem):
    """Every record is full unless its run (or, for Intel HEX, its 64K page) ends."""
    ends = {a + len(x) for a, x in runs(mem)}
    for a, n in d.order:
        case.check(n <= row, "record longer than requested (%s)" % fmt, "%d > %d" % (n, row))
        if n < row and a + n not in ends:
            if fmt == "ihex" and (a % 65536 < row or (a + n) % 65536 == 0):
                continue
            case.fail("record shorter than requested (%s)" % fmt, "%d < %d at %#x" % (n, row, a))


def huge(case):
    """Options on images of hundreds of kilobytes or thousands of sections; sparse binary output of megabytes."""
    rng = case.rng
    if case.index % 4:
        rows(case, True)
    else:
        mem, a = {}, rng.choice([0, 0x1000, 0xFFFFFFF0])
        for _ in range(rng.randint(2, 4)):
            mem.update(enumerate(gen.rand_bytes(rng, rng.choice([1, 65536, 70000])), a))
            a += 70000 + rng.choice([65536, 1 << 20, (1 << 20) + 1, 3000000, 17000000])
        f = rng.randrange(256)
        got = write(case, "bin", gen.make_image(rng, mem), filler=f)
        lo, hi = min(mem), max(mem)
        want = bytearray([f]) * (hi - lo + 1)
        for start, d in runs(mem):
            want[start - lo : start - lo + len(d)] = bytes(d)
        case.check(got == bytes(want), "binary output differs", "%d bytes instead of %d" % (len(got), len(want)))
    case.seen("huge images")


def rows(case, huge=False):
    rng = case.rng
    names = [n for n in NAMES if FORMATS[n].option_row]
    fmt = names[case.index % len(names)]
    mem = hexio.mem_for(rng, fmt, max_sections=3) if not huge else gen.huge_mem(rng, min(FORMATS[fmt].max_address, 0xFFFFFFFF), rng.choice([1, 2]))
    row = hexio.pick_row(rng, fmt, mem)
    case.note(format=fmt, row_length=row, mem=gen.mem_hex(mem))
    text = write(case, fmt, gen.make_image(rng, mem), row_length=row)
    d = decode(case, fmt, text, mem)
    case.seen("row lengths checked")
    exact_rows(case, fmt, d, row, mem)
    case.distinct("row", fmt, row, min(len(mem) // 16, 20))
    case.sample("%s row_length=%d -> records of %s bytes" % (fmt, row, sorted(set(d.rows))[:6]))


def judge_srec(case, text, mem, kw, row, kept_start=None):
    d = decode(case, "srec", text, mem)
    exact_rows(case, "srec", d, row, mem)
    top = max(max(mem), kw.get("start_address") or 0)
    rt = kw.get("record_type") or (1 if top <= 0xFFFF else 2 if top <= 0xFFFFFF else 3)
    types = d.extra["types"]
    data_types = {t for t in types if t in "123"}
    case.equal(data_types, {str(rt)}, "wrong data record type")
    counts = [t for t in types if t in "56"]
    case.equal(counts, ["6" if rt == 1 and len(d.rows) > 0xFFFF else "5"] if kw.get("s5record") else [], "count record")
    if kw.get("s5record"):
        case.equal(d.extra["count"], len(d.rows), "count record")
    want = None
    if kw.get("start_address") is not None:
        want = (str(10 - rt), kept_start if kept_start is not None else kw["start_address"])
    case.equal(d.extra["start"], want, "start address record")
    return d, rt


def srec_kw(rng, rt, image_fits):
    kw = {}
    if rng.random() < 0.6 or not image_fits:
        kw["record_type"] = rt
    elif rng.random() < 0.1:
        kw["record_type"] = None
    if rng.random() < 0.6:
        kw["s5record"] = rng.choice([True, True, False])
    if rng.random() < 0.6:
        lim = (1 << (8 * (rt + 1))) - 1
        kw["start_address"] = rng.choice([0, 0, 1, 0xFF, 0x100, 0x1234, lim, lim - 1, lim // 2 + 1, rng.randint(0, lim)])
    return kw


def srec(case):
    rng = case.rng
    rt = rng.choice([1, 2, 3])
    lim = (1 << (8 * (rt + 1))) - 1
    natural = rng.random() < 0.5
    mem = gen.rand_mem(rng, lim, max_sections=3)
    if natural and rt > 1 and max(mem) <= (1 << (8 * rt)) - 1:
        mem[lim - rng.randint(0, 300)] = 0x33
    mem = dict(mem)
    nat_rt = 1 if max(mem) <= 0xFFFF else 2 if max(mem) <= 0xFFFFFF else 3
    kw = srec_kw(rng, rt if not natural else nat_rt, natural and nat_rt == rt)
    eff = kw.get("record_type") or nat_rt
    if kw.get("record_type") is None and rng.random() < 0.2:  # the records are as wide as the start address needs
        kw["start_address"] = rng.choice([0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0xFFFFFFFF, rng.getrandbits(rng.randint(1, 32))])
        case.seen("wide start addresses")
    elif kw.get("start_address", 0) >= 1 << (8 * (eff + 1)):
        kw["start_address"] &= (1 << (8 * (eff + 1))) - 1
    if not kw.get("record_type"):
        top = max(max(mem), kw.get("start_address") or 0)
        eff = 1 if top <= 0xFFFF else 2 if top <= 0xFFFFFF else 3
    row = hexio.pick_row(rng, "srec", mem, eff)
    case.note(options=kw, row_length=row, mem=gen.mem_hex(mem))
    text = write(case, "srec", gen.make_image(rng, mem), row_length=row, **kw)
    judge_srec(case, text, mem, kw, row)
    case.seen("srec option sets")
    case.distinct("srec", tuple(sorted((k, v if k != "start_address" else v.bit_length()) for k, v in kw.items())), max(mem).bit_length(), min(len(runs(mem)), 3), row // 16)
    case.sample("srec %s row=%d" % (kw, row))


def srec_loaded(case):
    """Options on images that carry a header / start address from their file."""
    rng = case.rng
    f = FORMATS["srec"]
    rt = rng.choice([1, 2, 3])
    mem = gen.rand_mem(rng, (1 << (8 * (rt + 1))) - 1, max_sections=2)
    lines = []
    if rng.random() < 0.6:
        lines.append(f.record("0", 0, rng.randbytes(rng.randint(1, 12))))
    for a, d in runs(mem):
        for i in range(0, len(d), 16):
            lines.append(f.record(str(rt), a + i, d[i : i + 16]))
    if rng.random() < 0.5:
        lines.append(f.record("5", len([1 for ln in lines if ln[1] in "123"]), width=2))
    start = None
    if rng.random() < 0.7:
        start = rng.randrange(1 << (8 * (rt + 1)))
        lines.append(f.record(str(10 - rt), start))
    img = objutils.loads("srec", ("\n".join(lines) + "\n").encode())
    kw = {"record_type": rt}
    if rng.random() < 0.5:
        kw["s5record"] = True
    if rng.random() < 0.5:
        kw["start_address"] = rng.randrange(1 << (8 * (rt + 1)))
    case.note(options=kw, source=lines, mem=gen.mem_hex(mem))
    text = write(case, "srec", img, **kw)
    judge_srec(case, text, mem, kw, 16, kept_start=start)
    case.seen("srec option sets")
    case.distinct("srec loaded", rt, tuple(sorted(kw)), start is None)


def many_records(case):
    """Counts around the limit of a count record."""
    n, rt = [(65535, 1), (65536, 1), (65535, 2), (65536, 2), (65537, 2), (65600, 3), (65536, 3), (65536, None)][case.index % 8]
    base = 0 if n <= 65536 and rt in (1, None) else case.rng.randint(0, 70000)
    data = gen.rand_bytes(case.rng, n)
    kw = {"s5record": True, "record_type": rt, "row_length": 1}
    case.note(options=kw, records=n)
    judge_srec(case, bytes(objutils.dumps("srec", Image([Section(base, data)]), **kw)), {base + i: b for i, b in enumerate(data)}, kw, 1)
    case.seen("files of 64K records")
    case.distinct("many", n, rt)


def binary(case):
    rng = case.rng
    mem = {}
    a = rng.choice([0, 1, 0x1000, 0xFFFF, 0xFFFFFFF0, rng.getrandbits(40)])
    for _ in range(rng.randint(1, 5) if case.index % 300 else rng.randint(1050, 1500)):
        for b in gen.rand_bytes(rng, rng.choice([1, 2, 16, 33, 200])):
            mem[a] = b
            a += 1
        a += rng.choice([0, 1, 2, 7, 16, 255, 256, 1000, 70000 if rng.random() < 0.1 else 3])
    kw = {}
    filler = 0xFF
    k = rng.random()
    if k < 0.4:
        filler = rng.choice([0, 1, 0x20, 0x7F, 0x80, 0xFE, 0xFF, rng.randrange(256)])
        kw["filler"] = bytes([filler])
    elif k < 0.8:
        filler = rng.choice([0, 1, 0x20, 0x7F, 0x80, 0xFE, 0xFF, rng.randrange(256)])
        kw["filler"] = filler
    img = gen.make_image(rng, mem, join=rng.random() < 0.8)
    case.note(options=kw, mem=gen.mem_hex(mem))
    got = write(case, "bin", img, **kw)
    lo, hi = min(mem), max(mem)
    want = bytes(mem.get(x, filler) for x in range(lo, hi + 1))
    case.equal(len(got), hi - lo + 1, "length of binary output")
    case.check(got == want, "binary output differs", options=kw, got=got[:200], want=want[:200])
    case.seen("binary writes")
    case.distinct("bin", tuple((k, v) for k, v in kw.items()), len(runs(mem)))
    bad = rng.choice([b"", b"ab", -1, 256, 1000, None, 1.5, "x"])
    r = attempt(objutils.dumps, "bin", img, filler=bad)
    case.check(not r.ok, "invalid filler accepted", "%r" % (bad,))


def unknown(case):
    rng = case.rng
    names = [n for n in NAMES if n != "shf"]
    fmt = names[case.index % len(names)]
    mem = hexio.mem_for(rng, fmt, max_sections=2)
    img = gen.make_image(rng, mem)
    opts = ["bogus", "Row_Length", "s5_record", "recordtype", "filler", "fill", "rowlength"]
    if fmt != "srec":
        opts += ["s5record", "record_type"]
    name = rng.choice(opts)
    val = rng.choice([True, None, 1, "x", b"\0"])
    case.note(format=fmt, option=name)
    how = rng.random() < 0.5
    r = attempt(objutils.dumps, fmt, img, **{name: val}) if how else attempt(objutils.dump, fmt, Keep(), img, **{name: val})
    case.check(not r.ok, "unknown option accepted (%s)" % fmt, name)
    case.seen("unknown options rejected")
    case.distinct("unknown", fmt, name, how)
    # ... and the next write is as usual.
    decode(case, fmt, write(case, fmt, img), mem)


def capacity(fmt, a, rt):
    """Largest number of data bytes of a record at address `a`."""
    if fmt == "srec":
        return 255 - 1 - (rt + 1)
    if fmt == "etek":
        return (255 - 5 - 1 - max(4, len("%X" % a))) // 2
    return {"fpc": 251, "ihex": 255, "tek": 255, "sig": 255, "mostec": 255, "emon52": 255}.get(fmt, 1 << 62)


def impossible(case):
    """Row lengths and record types that no file of the format can have."""
    rng = case.rng
    names = [n for n in NAMES if FORMATS[n].option_row]
    fmt = names[case.index % len(names)]
    f = FORMATS[fmt]
    path = os.path.join(case.scratch, "dest")
    old = rng.randbytes(50)
    with open(path, "wb") as h:
        h.write(old)

    def refused(img, what, **kw):
        for fn, args in ((objutils.dumps, (fmt, img)), (objutils.dump, (fmt, path, img))):
            r = attempt(fn, *args, **kw)
            case.check(not r.ok, "%s accepted (%s)" % (what, fmt), "%r" % (kw,))
        with open(path, "rb") as h:
            case.check(h.read() == old, "destination of refused write changed (%s)" % fmt)
        case.seen("impossible options refused")

    limit = min(f.max_address, 0xFFFFFFFF)
    n = rng.choice([1, 100, 119, 120, 122, 123, 246, 247, 250, 251, 252, 253, 255, 256, 257, 300, 511, 512, 600])
    start = rng.choice([0, 0x100, 0xFF00, limit + 1 - n, rng.randint(0, limit + 1 - n), min(limit + 1 - n, 0xFFFFF), min(limit + 1 - n, 0x1FFC0)])
    start = min(start, limit + 1 - n)
    data = gen.rand_bytes(rng, n)
    mem = {start + i: b for i, b in enumerate(data)}
    rt = 1 if max(mem) <= 0xFFFF else 2 if max(mem) <= 0xFFFFFF else 3
    row = rng.choice([119, 120, 121, 122, 123, 247, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 512, 1000, 65536, 1 << 40])
    pieces = []
    for a in range(start, start + n, row):
        e = min(a + row, start + n)
        while fmt == "ihex" and a // 65536 != (e - 1) // 65536:
            cut = (a // 65536 + 1) * 65536
            pieces.append((a, cut - a))
            a = cut
        pieces.append((a, e - a))
    img = gen.make_image(rng, mem)
    case.note(format=fmt, row_length=row, start=hex(start), length=n)
    if all(k <= capacity(fmt, a, rt) for a, k in pieces):
        d = decode(case, fmt, write(case, fmt, img, row_length=row), mem)
        case.check(fmt != "ihex" and sorted(d.order) == sorted(pieces) or fmt == "ihex" and max(k for _, k in d.order) <= row, "wrong rows (%s)" % fmt)
        case.seen("extreme row lengths written")
    else:
        refused(img, "row length", row_length=row)
    refused(img, "row length", row_length=rng.choice([0, -1, -16, -(1 << 40)]))
    if fmt == "srec":
        refused(img, "record type", record_type=rng.choice([0, 4, 5, 6, 7, 8, 9, 10, -1, "1", "S1", b"1", 2.5, 256]))
    case.distinct("impossible", fmt, row, n, rt)
    decode(case, fmt, write(case, fmt, img), mem)


def separator(case):
    """Separator of the ASCII-Hex format."""
    rng = case.rng
    sep = [" ", "%", "'", ","][case.index % 4]
    mem = gen.rand_mem(rng, 0xFFFF, max_sections=3)
    row = rng.choice([1, 3, 8, 16, 20])
    text = write(case, "ash", gen.make_image(rng, mem), row_length=row, separator=sep)
    case.note(mem=gen.mem_hex(mem), separator=sep, text=text)
    lines = [ln for ln in text.decode("ascii").split("\n") if ln and ln[0] in "0123456789ABCDEF"]
    case.check(all(set(ln) <= set("0123456789ABCDEF" + sep) for ln in lines), "separator not honoured")
    decode(case, "ash", "\n".join(ln.replace(sep, " ") if ln[:1] in "0123456789ABCDEF" and ln else ln for ln in text.decode("ascii").split("\n")).encode(), mem)
    case.equal(gen.mem_of(objutils.loads("ash", text)), mem, "option changes data (ash)")
    case.distinct("separator", sep, row, len(runs(mem)))


def leaks(case):
    """Results of default writes are the same before, between and after writes with options."""
    rng = case.rng
    fmts = rng.sample(NAMES, 3) + ["srec", "bin", "ash", "ihex"]
    mem = gen.rand_mem(rng, 0xFFFF, max_sections=3)
    mem2 = gen.rand_mem(rng, 0xFFFF, max_sections=3)
    img, img2 = gen.make_image(rng, mem), gen.make_image(rng, mem2)
    ref = {f: bytes(objutils.dumps(f, img)) for f in fmts}
    case.note(mem=gen.mem_hex(mem), formats=fmts)
    objs = {f: registry.get(f).Writer() for f in fmts}  # used for all of the writes, sometimes
    kept = rng.choice([0, 0.5, 1])

    def put(f, img, **kw):
        return bytes(objs[f].dumps(img, **kw)) if rng.random() < kept else write(case, f, img, **kw)

    for _ in range(12):
        f = rng.choice(fmts)
        kw = {}
        if f == "srec":
            kw = srec_kw(rng, rng.choice([1, 2, 3]), True)
            if kw.get("record_type") is None and kw.get("start_address", 0) > 0xFFFF:
                kw["start_address"] &= 0xFFFF
        elif f == "bin":
            kw = {"filler": rng.randrange(256)}
        elif f == "ash":
            kw = {"separator": rng.choice("%',")}
        if f not in ("bin", "shf"):
            kw["row_length"] = rng.choice([1, 5, 8, 20, 32])
        bad = dict(kw, bogus=1) if rng.random() < 0.2 and f not in ("bin", "shf") else None
        if bad:
            attempt(objutils.dumps if rng.random() < 0.5 else lambda f, *a, **k: objs[f].dumps(*a, **k), f, img2, **bad)
        else:
            put(f, rng.choice([img, img2]), **kw)
        g = rng.choice(fmts)
        case.check(put(g, img) == ref[g], "options of one write leak into another (%s)" % g, "after %s %s" % (f, kw))
    case.seen("leak sequences")
    case.distinct("leak", tuple(fmts), case.index)


STREAMS = [
    Stream("impossible", impossible, 13 * 20, 13 * 1500),
    Stream("many records", many_records, 1, 32),
    Stream("huge", huge, 2, 400),
    Stream("rows", rows, 12 * 300, 12 * 6000),
    Stream("srec", srec, 3000, 60000),
    Stream("srec loaded", srec_loaded, 600, 8000),
    Stream("binary", binary, 1600, 20000),
    Stream("unknown", unknown, 12 * 40, 12 * 300),
    Stream("separator", separator, 400, 4000),
    Stream("leaks", leaks, 300, 5000),
]
