"""C23: converting between formats preserves the image."""
import io
import os

import objutils

from vlib import gen, hexio
from vlib.core import Stream
from vlib.formats import FORMATS, NAMES, FormatError, row_limit

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("independently generated files of all 13 formats (with header, start address, count and extended-address records) converted through chains of 2..6 formats, "
        "and one loaded image written in every format, twice; every file written is decoded by a strict independent decoder and compared with the memory of the "
        "first file, every image loaded on the way as well; distinct = distinct (from, to, non-data records, address widths, number of runs, entry points)")
REQUIRED = {"conversions": 6000, "pairs of formats": 165 * 3, "source files with non-data records": 500, "long chains": 300, "fan-out": 3000, "edits between": 200, "through binary": 150,
            "after a refused conversion": 150, "grown images": 2000, "headers kept": 3000, "huge images": 6, "compared with images from scratch": 4000}
ASSUMPTIONS = ["images which the target format can represent"]
ALL_PAIRS = [(a, b) for a in NAMES for b in NAMES if a != b]


def source(case, fmt, limit, huge=False):
    rng = case.rng
    f = FORMATS[fmt]
    if huge:
        mem = gen.huge_mem(rng, min(limit, f.read_max), rng.choice([1, 2]))
        text = f.generate(rng, mem)
        case.note(source_format=fmt, source=text[:2000], mem=gen.mem_hex(mem))
        return mem, text
    limit = min(limit, rng.choice([0xFFFF, 0xFFFFFF, limit, limit]))
    mem = gen.rand_mem(rng, min(limit, f.read_max), max_sections=4, big=rng.random() < 0.05)
    text = f.generate(rng, mem)
    case.note(source_format=fmt, source=text, mem=gen.mem_hex(mem))
    if (fmt == "srec" and any(ln[:2] not in ("S1", "S2", "S3") for ln in text.decode("latin1").upper().split("\n") if ln.strip())) or (fmt == "ihex" and b"00000" in text and b"\n:02" in text or fmt == "etek"):
        case.seen("source files with non-data records")
    return mem, text


def load(case, fmt, text, n):
    rng = case.rng
    k = rng.random()
    if k < 0.6:
        return objutils.loads(fmt, bytes(text) if rng.random() < 0.8 else bytearray(text)), "loads"
    path = os.path.join(case.scratch, "in%d" % n)
    with open(path, "wb") as f:
        f.write(text)
    if k < 0.8:
        return objutils.load(fmt, path), "path"
    return objutils.load(fmt, open(path, "rb")), "file"


def write(case, fmt, img, mem, n, src=None):
    """src: format the image was loaded from."""
    rng = case.rng
    kws = {}
    if FORMATS[fmt].option_row and rng.random() < 0.6:
        kws["row_length"] = min(hexio.pick_row(rng, fmt, mem), 64)
    if fmt == "srec" and rng.random() < 0.3:
        kws["s5record"] = True
    k = rng.random()
    case.note(last_write="%s %s" % (fmt, kws))
    if src is not None:  # Nothing but the data.
        plain = objutils.Image([objutils.Section(s.start_address, bytes(s.data)) for s in img.sections], join=False)
        want, got = bytes(objutils.dumps(fmt, plain, **kws)), bytes(objutils.dumps(fmt, img, **kws))
        if src == "srec" == fmt:
            got = b"\n".join(ln for ln in got.split(b"\n") if not ln.startswith(b"S0"))
        case.check(got == want, "written file depends on the file the image was loaded from", "%s -> %s" % (src, fmt), got=got[:300], want=want[:300])
        case.seen("compared with images from scratch")
    if k < 0.6:
        return bytes(objutils.dumps(fmt, img, **kws)), "dumps"
    path = os.path.join(case.scratch, "out%d" % n)
    if k < 0.8:
        objutils.dump(fmt, path, img, **kws)
    else:
        objutils.dump(fmt, open(path, "wb"), img, **kws)
    with open(path, "rb") as f:
        return f.read(), "dump"


def judge(case, src, dst, text, mem, how):
    case.note(conversion="%s -> %s" % (src, dst), text=text)
    try:
        d = FORMATS[dst].decode(text)
    except (FormatError, UnicodeDecodeError) as e:
        case.fail("malformed %s file written from %s" % (dst, src), str(e))
    case.seen("conversions")
    have = case.shared.setdefault("_pairs", set())
    if (src, dst) not in have:
        have.add((src, dst))
        case.seen("pairs of formats")
    case.check(d.mem == mem, "conversion to %s changes data" % dst, "%s -> %s: %s" % (src, dst, gen.mem_diff(d.mem, mem)))
    case.distinct(src, dst, max(mem).bit_length() // 4, min(len(gen.runs(mem)), 3), how, len(mem) > 100)


def same(case, img, mem, what):
    got = gen.mem_of(img)
    case.check(got == mem, what, gen.mem_diff(got, mem))


def edit(case, img, mem, limit):
    """A few bytes of the loaded image are changed, a section is added."""
    rng = case.rng
    for _ in range(rng.randint(1, 3)):
        a, d = rng.choice(gen.runs(mem))
        if rng.random() < 0.7:
            i = rng.randrange(len(d))
            v = rng.randbytes(min(rng.randint(1, 4), len(d) - i))
            img.write(a + i, v)
            for j, b in enumerate(v):
                mem[a + i + j] = b
        else:
            n = rng.randint(1, 20)
            start = rng.choice([a + len(d), a + len(d) + rng.randint(1, 300), gen.rand_address(rng, limit), gen.rand_address(rng, limit)])
            if start + n - 1 <= limit and not any(start + j in mem for j in range(n)):
                v = rng.randbytes(n)
                img.insert_section(v, start)
                for j, b in enumerate(v):
                    mem[start + j] = b
    case.seen("edits between")


def refused(case, img, mem):
    """A conversion which is not possible leaves the image as it is."""
    bad = [f for f in NAMES if FORMATS[f].max_address < max(mem)]
    if bad:
        fmt = case.rng.choice(bad)
        try:
            objutils.dumps(fmt, img)
        except Exception:
            case.seen("after a refused conversion")


def huge(case):
    """Thousands of sections or many banks."""
    chain(case, True)
    case.seen("huge images")


def chain(case, huge=False):
    rng = case.rng
    n = rng.choice([1, 2, 2, 3, 4, 5]) if not huge else rng.choice([1, 2])
    if case.index < 2 * len(ALL_PAIRS):
        codecs = list(ALL_PAIRS[case.index % len(ALL_PAIRS)])
        codecs += [rng.choice(NAMES) for _ in range(n - 1)]
    else:
        codecs = [rng.choice(NAMES) for _ in range(n + 1)]
    if rng.random() < 0.35:  # wide addresses need wide formats
        wide = ["ihex", "srec", "shf"]
        codecs = [c if c in wide or c == "etek" and rng.random() < 0.3 else rng.choice(wide) for c in codecs]
        if FORMATS[codecs[0]].read_max == 0xFFFF:
            codecs[0] = rng.choice(wide)
    limit = min([FORMATS[codecs[0]].read_max] + [FORMATS[c].max_address for c in codecs[1:]])
    mem, text = source(case, codecs[0], limit, huge)
    case.sample("%s %s" % (" -> ".join(codecs), gen.mem_hex(mem, 2)))
    case.note(chain=" -> ".join(codecs))
    for i, (src, dst) in enumerate(zip(codecs, codecs[1:])):
        img, how_in = load(case, src, text, i)
        same(case, img, mem, "image loaded from %s differs" % src)
        if rng.random() < 0.2:
            edit(case, img, mem, limit)
        if rng.random() < 0.2:
            refused(case, img, mem)
        if rng.random() < 0.08 and max(mem) - min(mem) < 70000:
            fill = rng.randrange(256)
            base = min(mem)
            img = objutils.loads("bin", objutils.dumps("bin", img, filler=bytes([fill])), base)
            for a in range(base, max(mem) + 1):
                mem.setdefault(a, fill)
            same(case, img, mem, "image differs after plain binary")
            case.seen("through binary")
        text, how_out = write(case, dst, img, mem, i, src)
        judge(case, src, dst, text, mem, (how_in, how_out))
        same(case, img, mem, "conversion changes the image")
    if len(codecs) >= 4:
        case.seen("long chains")
    img, _ = load(case, codecs[-1], text, 99)
    same(case, img, mem, "image loaded from %s differs" % codecs[-1])


def fan_out(case):
    """One loaded image, written in every format that can represent it, twice, in random order."""
    rng = case.rng
    src = NAMES[case.index % len(NAMES)]
    limit = rng.choice([0xFFFF, 0xFFFF, 0xFFFF, 0xFFFFF, 0xFFFFFF, 0xFFFFFFFF])
    mem, text = source(case, src, limit)
    img, how = load(case, src, text, 0)
    same(case, img, mem, "image loaded from %s differs" % src)
    targets = [f for f in NAMES if max(mem) <= FORMATS[f].max_address] * 2
    rng.shuffle(targets)
    if rng.random() < 0.3:
        refused(case, img, mem)
    first = {}
    for i, dst in enumerate(targets):
        out, how_out = (bytes(objutils.dumps(dst, img)), "dumps") if rng.random() < 0.7 else write(case, dst, img, mem, i)
        judge(case, src, dst, out, mem, (how, how_out))
        if how_out == "dumps" and dst not in first:
            first[dst] = out
        case.seen("fan-out")
    same(case, img, mem, "conversion changes the image")
    for dst, out in first.items():
        back = objutils.loads(dst, out)
        same(case, back, mem, "image converted to %s and loaded again differs" % dst)


def grown(case):
    """A file with low addresses (and header, start address, count records); data far away is added before it is written again."""
    rng = case.rng
    src = NAMES[case.index % len(NAMES)] if case.index % 3 else "srec"
    bits = rng.choice([16, 16, 20, 24])
    mem, text = source(case, src, (1 << bits) - 1)
    img, how = load(case, src, text, 0)
    same(case, img, mem, "image loaded from %s differs" % src)
    for _ in range(rng.choice([1, 1, 2])):
        top = 1 << rng.choice([17, 20, 21, 24, 25, 32])
        v = rng.randbytes(rng.randint(1, 40))
        at = rng.choice([top - len(v), top >> 1, rng.randrange(top - len(v)), (top >> 1) - rng.randint(0, len(v))])
        if at < 0 or any(at + i in mem for i in range(len(v))):
            continue
        img.insert_section(v, at)
        for i, b in enumerate(v):
            mem[at + i] = b
    targets = [f for f in NAMES if max(mem) <= FORMATS[f].max_address]
    for i in range(4):
        dst = rng.choice(targets)
        if "srec" in targets and rng.random() < 0.4:
            dst = "srec"
        out, how_out = write(case, dst, img, mem, i, src)
        judge(case, src, dst, out, mem, ("grown", how, how_out))
        back = objutils.loads(dst, out)
        same(case, back, mem, "image converted to %s and loaded again differs" % dst)
        case.seen("grown images")
    same(case, img, mem, "conversion changes the image")


def headers(case):
    """S-record files with headers, written as S-record files again."""
    rng = case.rng
    f = FORMATS["srec"]
    bits = rng.choice([16, 16, 24, 32])
    mem = gen.rand_mem(rng, (1 << bits) - 1, max_sections=3)
    rows = [ln for ln in f.generate(rng, mem).decode("ascii").upper().split() if ln[:2] in ("S1", "S2", "S3")]
    want = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5])):
        want.append((rng.choice([0, 0, 0, rng.randrange(0x10000)]), rng.randbytes(rng.choice([1, 2, 9, 20, 252, rng.randint(1, 252)]))))
    recs = [f.record("0", a, d) for a, d in want]
    if rng.random() < 0.6:
        lines = recs + rows
    else:  # anywhere in the file
        lines = rows
        at = sorted(rng.randint(0, len(rows)) for _ in recs)
        for k, (i, r) in enumerate(zip(at, recs)):
            lines.insert(i + k, r)
    if rng.random() < 0.5:
        lines.append(f.record("5", len(rows), width=2))
    if rng.random() < 0.7:
        kind, width = rng.choice([("7", 32), ("8", 24), ("9", 16)])
        lines.append(f.record(kind, rng.getrandbits(width)))
    text = ("\n".join(lines) + "\n").encode()
    case.note(source=text, headers=want)
    for i in range(2):
        img, how_in = load(case, "srec", text, i)
        same(case, img, mem, "image loaded from srec differs")
        if rng.random() < 0.3:
            edit(case, img, mem, (1 << 32) - 1)
        if rng.random() < 0.3:
            write(case, rng.choice(["ihex", "shf"]), img, mem, 10 + i)
        for k in range(2):
            out, how_out = write(case, "srec", img, mem, i)
            judge(case, "srec", "srec", out, mem, ("headers", how_in, how_out, len(want)))
            got = []
            for ln in out.decode("ascii").split("\n"):
                if ln.startswith("S0"):
                    b = bytes.fromhex(ln[4:])
                    got.append((b[0] << 8 | b[1], b[2:-1]))
            case.equal(got, want, "header records not kept", "use %d of the image" % k)
            case.seen("headers kept", len(want))
        text = out


STREAMS = [Stream("huge", huge, 6, 150), Stream("headers", headers, 600, 15000), Stream("grown", grown, 600, 20000), Stream("chain", chain, 2600, 90000), Stream("fan-out", fan_out, 13 * 20, 13 * 500)]
