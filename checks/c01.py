"""C01: writing and re-reading a text hex format preserves every byte at its address."""
import objutils

from vlib import gen, hexio
from vlib.core import Stream
from vlib.formats import FORMATS, NAMES, row_limit

PROPERTY = "C01"
LEVEL = "exploration"
QUICK_SCALE = 6
RULE = ("random and edge-of-format sparse images x 13 codecs x permitted row lengths, written with dumps() and read back with loads(); "
        "distinct = distinct (codec, row length class, number of runs, address widths, size class, alignment, 64K crossing, last address) combinations")
REQUIRED = {"round trips": 2500, "fixpoints": 2500, "images ending at the last address": 50, "runs crossing 64K": 20, "row length sweep": 6000, "uniform rows": 4000, "huge images": 30}
ASSUMPTIONS = ["images the format can represent, row length within the record's length field"]


def roundtrip(case, fmt, mem, row, image, explicit=True):
    case.note(format=fmt, row_length=row, mem=gen.mem_hex(mem))
    kw = {"row_length": row} if explicit else {}
    text = objutils.dumps(fmt, image, **kw)
    case.note(text=bytes(text))
    back = objutils.loads(fmt, text)
    got = gen.mem_of(back)
    case.seen("round trips")
    case.seen("format " + fmt)
    case.check(got == mem, "round trip changes data (%s)" % fmt, gen.mem_diff(got, mem))
    again = objutils.dumps(fmt, back, **kw)
    case.seen("fixpoints")
    case.check(bytes(again) == bytes(text), "re-written text differs (%s)" % fmt, second=bytes(again))
    case.distinct(hexio.feature_key(fmt, mem, row))
    if max(mem) == FORMATS[fmt].max_address:
        case.seen("images ending at the last address")
    if any(a // 65536 != (a + len(d) - 1) // 65536 for a, d in gen.runs(mem)):
        case.seen("runs crossing 64K")


def random_case(case):
    rng = case.rng
    fmt = hexio.pick_format(case)
    mem = hexio.mem_for(rng, fmt, big=rng.random() < 0.1)
    explicit = rng.random() < 0.85
    row = hexio.pick_row(rng, fmt, mem) if explicit else 16
    if not FORMATS[fmt].option_row:
        explicit = False
    case.sample("%s row=%d %s" % (fmt, row, gen.mem_hex(mem, 3)))
    roundtrip(case, fmt, mem, row, gen.make_image(rng, mem), explicit)


def edge_case(case):
    """Images around the limits of the codec and around 64K / 1M / 16M / 2G boundaries."""
    rng = case.rng
    fmt = hexio.pick_format(case)
    f = FORMATS[fmt]
    limit = min(f.max_address, 0xFFFFFFFF) if rng.random() < 0.9 else f.max_address
    bounds = [0, 0x100, 0x8000, limit + 1] + [b for b in (0x10000, 0x20000, 0x80000, 0xF0000, 0x100000, 0x110000, 0x800000, 0x1000000, 0x7FFF0000, 0x80000000, 0xFFFF0000) if b <= limit]
    mem = {}
    for b in rng.sample(bounds, rng.choice([1, 1, 2, 3 if len(bounds) >= 3 else 2])):
        before, after = rng.choice([0, 1, 2, 7, 16, 17, 40]), rng.choice([0, 1, 2, 7, 16, 17, 40])
        for a in range(max(0, b - before), min(limit + 1, b + after)):
            mem[a] = rng.randrange(256)
    if not mem:
        mem[limit] = rng.randrange(256)
    row = hexio.pick_row(rng, fmt, mem)
    roundtrip(case, fmt, mem, row, gen.make_image(rng, mem), f.option_row)


SWEEP = [(f, n) for f in NAMES if FORMATS[f].option_row for n in range(1, row_limit(f, 0xFFFF) + 1 if row_limit(f, 0xFFFF) < 300 else 130)]


def sweep(case):
    """Every permitted row length of every codec."""
    rng = case.rng
    fmt, row = SWEEP[case.index % len(SWEEP)]
    start = rng.choice([0, 1, 0x10, 0xFF, 0x100, 0x123, 0xFFF, 0x1000, 0x8000, 0xF000 - 1])
    n = max(1, rng.choice([row, row - 1, row + 1, 2 * row, 2 * row + 1, 3 * row - 1]))
    data = bytearray(gen.rand_bytes(rng, n) if case.index // len(SWEEP) % 2 else bytes([rng.choice([0, 0, 0xFF, 0x20, 0x30])]) * n)
    if rng.random() < 0.3:  # one row of another kind
        k = rng.randrange((n + row - 1) // row) * row
        data[k : k + row] = bytes([rng.choice([0, 0xFF])]) * len(data[k : k + row])
    mem = {start + i: b for i, b in enumerate(data)}
    case.seen("row length sweep")
    case.seen("uniform rows", len({bytes(data[i : i + row]) for i in range(0, n, row) if len(set(data[i : i + row])) == 1 and row > 1}))
    roundtrip(case, fmt, mem, row, gen.plain_image(mem))


def values(case):
    """Every byte value at every column of a row; every low address byte."""
    rng = case.rng
    fmt = hexio.pick_format(case)
    k = case.index // len(NAMES)
    start = (k * 37) & 0xFFF
    v = k & 0xFF
    data = bytes((v + i * rng.choice([0, 1])) & 0xFF for i in range(rng.randint(1, 20)))
    mem = {start + i: b for i, b in enumerate(data)}
    roundtrip(case, fmt, mem, 16, gen.plain_image(mem), FORMATS[fmt].option_row)


def large(case):
    """Images of tens of kilobytes: running offsets, multi-segment."""
    rng = case.rng
    fmt = hexio.pick_format(case)
    f = FORMATS[fmt]
    n = rng.choice([4096, 20000, 65536, 66000 if f.max_address > 0xFFFF else 65000])
    limit = min(f.max_address, 0xFFFFFFFF)
    start = rng.choice([0, limit + 1 - n, rng.randint(0, limit + 1 - n)])
    data = gen.rand_bytes(rng, n)
    mem = {start + i: b for i, b in enumerate(data)}
    roundtrip(case, fmt, mem, rng.choice([16, 32, 200 if fmt != "etek" else 100]), gen.plain_image(mem), f.option_row)
    case.seen("large images")


def huge(case):
    """More than 65536 records, thousands of runs, runs over many banks of 64K."""
    rng = case.rng
    fmt, kind = NAMES[case.index % len(NAMES)], case.index // len(NAMES) % 3
    f = FORMATS[fmt]
    limit = min(f.max_address, 0xFFFFFFFF)
    row = rng.choice([16, 32])
    mem = {}
    if kind == 0:
        row, n = (1, 65536 if f.max_address == 0xFFFF else rng.randint(65537, 68000))
        start = rng.randint(0, limit + 1 - n)
        mem = dict(enumerate(gen.rand_bytes(rng, n), start))
    elif kind == 1:
        for i in range(rng.randint(2000, 4000)):
            a = rng.randint(0, limit - 8)
            if not any(k in mem for k in range(a - 1, a + 9)):
                mem.update(enumerate(gen.rand_bytes(rng, rng.randint(1, 8)), a))
    else:
        n = min(rng.randint(250000, 450000), limit + 1)
        start = rng.choice([0, limit + 1 - n, rng.randint(0, limit + 1 - n)])
        mem = dict(enumerate(gen.rand_bytes(rng, n), start))
    if kind and f.option_row and rng.random() < 0.3:
        row = hexio.pick_row(rng, fmt, mem) if kind == 1 else rng.randint(8, 64)
    case.seen("huge images")
    case.seen("huge images (%s)" % ("records", "runs", "banks")[kind])
    roundtrip(case, fmt, mem, row, gen.plain_image(mem), f.option_row)


STREAMS = [
    Stream("huge", huge, 7, 13 * 12),
    Stream("random", random_case, 13 * 200, 13 * 6000),
    Stream("edges", edge_case, 13 * 100, 13 * 2500),
    Stream("rows", sweep, len(SWEEP), len(SWEEP) * 13),
    Stream("values", values, 13 * 64, 13 * 1024),
    Stream("large", large, 13 * 2, 13 * 24),
]
