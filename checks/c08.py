"""C08: an image behaves as a sparse byte-addressable memory."""
import re

import objutils
from objutils import Image, Section

from vlib import gen, hexio, ops
from vlib.core import Stream, attempt
from vlib.formats import FORMATS, NAMES
from vlib.model import Model

PROPERTY = "C08"
LEVEL = "exploration"
QUICK_SCALE = 3
RULE = ("random histories of up to 40 operations (reads, writes, typed access, strings, arrays, membership, lookup, iteration, dumps, insertions) on images and "
        "sections, compared with a shadow byte map after every operation; distinct = distinct (layout of the image, sequence of operation kinds)")
REQUIRED = {"rejected accesses": 3000, "rejected values and types": 300, "insertions": 300, "rejected insertions": 300, "comparisons": 300, "searches": 300, "images of 1000 sections": 40, "huge images": 20}
for k in set(ops.ALL_KINDS):
    REQUIRED["op " + k] = 300


def history(case, drv, steps, kinds=None):
    drv.verify("construction")
    seq = []
    for _ in range(steps):
        drv.step(kinds)
        seq.append(drv.log[-1].split("(")[0])
    case.distinct(tuple((a, len(d)) for a, d in drv.m.regions), tuple(seq))
    case.sample("; ".join(drv.log[:8]))


def images(case):
    rng = case.rng
    regions = ops.rand_regions(rng, n=rng.choice([None, None, None, 8, 20]))
    m = Model(regions)
    order = list(regions)
    if rng.random() < 0.5:
        rng.shuffle(order)
    secs = [Section(a, ops.as_input(rng, d)) for a, d in order]
    k = rng.random()
    if k < 0.1:
        img = Image(tuple(secs))
    elif k < 0.2:
        img = Image(iter(secs))
    elif k < 0.3:
        img = Image()
        m = Model()
        drv = ops.Driver(case, img, m)
        for s in secs:
            img.insert_section(s.data, s.start_address)
            m.insert(bytes(s.data), s.start_address)
            drv.verify("insertion")
    elif k < 0.4 and len(secs) == 1:
        img = Image(secs[0])
    else:
        img = Image(secs)
    case.note(regions=[(hex(a), d.hex()) for a, d in regions])
    history(case, ops.Driver(case, img, m), rng.randint(10, 40))


def many(case):
    """More than a thousand sections."""
    rng = case.rng
    regions, a = [], rng.choice([0, 0x1000, 1 << 32])
    for _ in range(rng.randint(1050, 1500)):
        d = rng.randbytes(rng.choice([1, 2, 4, 9, 16]))
        regions.append((a, d))
        a += len(d) + rng.choice([0, 1, 1, 2, 3, 8, 100])
    order = list(regions)
    rng.shuffle(order)
    case.seen("images of 1000 sections")
    history(case, ops.Driver(case, Image([Section(a, d) for a, d in order]), Model(regions)), rng.randint(8, 16))


def huge(case):
    """Sections of hundreds of kilobytes, accesses as large."""
    rng = case.rng
    regions, a = [], rng.choice([0, 0x1000, 1 << 32, 0xFFFF0000])
    for n in rng.choice([(300000,), (70000, 30, 140000), (5, 65536, 65535), (65537, 10, 10, 120000)]):
        regions.append((a, gen.rand_bytes(rng, n)))
        a += n + rng.choice([0, 1, 16, 70000])
    case.seen("huge images")
    case.note(regions=[(hex(a), len(d)) for a, d in regions])
    k = case.index % 4
    if k == 0:
        drv = ops.SectionDriver(case, Section(*regions[0]), Model(regions[:1]))
    elif k == 1:
        for i in range(1, len(regions)):
            if regions[i - 1][0] + len(regions[i - 1][1]) == regions[i][0]:
                regions[i:] = [(b + 1, d) for b, d in regions[i:]]
        drv = ops.Driver(case, Image([Section(b, d) for b, d in regions], join=False), Model(regions, join=False))
    else:
        drv = ops.Driver(case, Image([Section(b, d) for b, d in regions]), Model(regions))
    drv.scale = rng.choice([4096, 10000, 33000])
    history(case, drv, 30, None if k != 1 else [x for x in ops.ALL_KINDS if x != "insert"])


def unjoined(case):
    rng = case.rng
    regions = []
    for a, d in ops.rand_regions(rng):
        if not regions or regions[-1][0] + len(regions[-1][1]) < a:
            regions.append((a, d))
    secs = [Section(a, d) for a, d in regions]
    rng.shuffle(secs)
    case.note(regions=[(hex(a), d.hex()) for a, d in regions])
    kinds = [k for k in ops.ALL_KINDS if k != "insert"]
    history(case, ops.Driver(case, Image(secs, join=False), Model(regions, join=False)), rng.randint(10, 30), kinds)


def sections(case):
    rng = case.rng
    a, d = ops.rand_regions(rng, n=1)[0]
    case.note(start=hex(a), data=d.hex())
    history(case, ops.SectionDriver(case, Section(a, ops.as_input(rng, d)), Model([(a, d)])), rng.randint(10, 40))


def loaded(case):
    """Images that come from a reader are the same kind of memory."""
    rng = case.rng
    fmt = NAMES[case.index % len(NAMES)]
    mem = gen.rand_mem(rng, FORMATS[fmt].max_address, max_sections=3)
    img = objutils.loads(fmt, objutils.dumps(fmt, gen.plain_image(mem)))
    m = Model(gen.runs(mem))
    case.note(format=fmt, mem=gen.mem_hex(mem))
    history(case, ops.Driver(case, img, m), rng.randint(5, 20))


def equality(case):
    rng = case.rng
    regions = ops.rand_regions(rng)
    build = lambda rs: Image([Section(a, d) for a, d in rng.sample(rs, len(rs))])
    a, b = build(regions), build(regions)
    case.check((a == b) is True and (a != b) is False, "equal images compare unequal")
    other = [list(r) for r in regions]
    k = rng.choice(["byte", "shift", "drop", "extra", "longer"])
    i = rng.randrange(len(other))
    if k == "byte":
        d = bytearray(other[i][1])
        j = rng.choice([0, len(d) - 1, rng.randrange(len(d))])
        d[j] ^= 1 << rng.randrange(8)
        other[i][1] = bytes(d)
    elif k == "shift":
        for r in other:
            r[0] += 1
    elif k == "drop":
        del other[i]
    elif k == "extra":
        end = max(x + len(d) for x, d in other)
        other.append([end + rng.choice([0, 5]), b"\0"])
    else:
        end = max(range(len(other)), key=lambda n: other[n][0])
        other[end][1] += b"\0"
    c = build([tuple(r) for r in other])
    case.note(regions=regions, other=other)
    case.check((a == c) is False and (a != c) is True and (c == a) is False, "different images compare equal", k)
    case.seen("comparisons", 4)
    case.distinct("equality", k, len(regions), i)
    s = Section(*regions[0])
    t = Section(*regions[0])
    case.check(s == t and not s != t, "equal sections compare unequal")


def searching(case):
    rng = case.rng
    alphabet = rng.choice([b"\0\1", b"ab.*+[", bytes(range(256)), b"\n\r\0\xff"])
    data = bytes(rng.choice(alphabet) for _ in range(rng.choice([1, 5, 20, 200])))
    start = rng.choice([0, 0x1000, 1 << 32])
    n = rng.choice([1, 1, 2, 3])
    lit = data[rng.randrange(len(data)) :][:n] if rng.random() < 0.8 else bytes(rng.choice(alphabet) for _ in range(n))
    want = []
    p = 0
    while True:
        p = data.find(lit, p)
        if p < 0:
            break
        want.append((start + p, len(lit)))
        p += len(lit)
    case.note(data=data.hex(), literal=lit.hex())
    got = attempt(lambda: list(Section(start, data).find(re.escape(lit))))
    case.check(got.ok and got.value == want, "search result differs", "%r, expected %r" % (got, want))
    case.seen("searches")
    case.distinct("search", lit, len(want))


def lookups(case):
    """Membership and lookup at every address around every region."""
    rng = case.rng
    regions = ops.rand_regions(rng, n=rng.choice([1, 3, 6, 30]))
    img = Image([Section(a, d) for a, d in regions])
    m = Model(regions)
    for a, d in regions:
        for x in {a - 1, a, a + 1, a + len(d) - 1, a + len(d), a + len(d) // 2}:
            if x < 0:
                continue
            r = m.region(x)
            case.check((x in img) is (r is not None), "wrong membership", hex(x))
            out = attempt(img.get_section, x)
            if r is None:
                ops.refused(case, out, "get_section")
                ops.refused(case, attempt(img.read, x, 1), "read")
            else:
                case.check(out.ok and out.value.start_address == r[0] and bytes(out.value.data) == bytes(r[1]), "wrong section found", hex(x))
                case.check(bytes(img.read(x, 1)) == m.read(x, 1), "wrong data read", hex(x))
                left = r[0] + len(r[1]) - x
                case.check(bytes(img.read(x, left)) == m.read(x, left), "wrong data read", hex(x))
                ops.refused(case, attempt(img.read, x, left + 1), "read")
                ops.refused(case, attempt(img.write, x, bytes(left + 1)), "write")
    ops.Driver(case, img, m).verify("lookups")
    case.check(len(img) == len(m), "wrong length of image")
    case.distinct("lookup", tuple((a, len(d)) for a, d in regions))


STREAMS = [
    Stream("many", many, 24, 400),
    Stream("huge", huge, 8, 400),
    Stream("images", images, 9600, 180000),
    Stream("unjoined", unjoined, 1200, 18000),
    Stream("sections", sections, 3600, 60000),
    Stream("loaded", loaded, 780, 15600),
    Stream("equality", equality, 3600, 36000),
    Stream("searching", searching, 3600, 36000),
    Stream("lookups", lookups, 1200, 12000),
]
