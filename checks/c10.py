"""C10: sections stay sorted, disjoint and maximally joined."""
import array
import itertools

from objutils import Image, Section
from objutils.exceptions import InvalidAddressError
from objutils.section import join_sections

from vlib import gen, ops
from vlib.core import Stream, attempt
from vlib.model import Model, Refused

PROPERTY = "C10"
LEVEL = "exploration"
QUICK_SCALE = 4
RULE = ("permutations of lists of disjoint sections and histories of insertions (with and without address, with and without joining, all input types), the "
        "section list compared with the model and checked for order, disjointness and maximality after every step; every overlap position of two sections "
        "enumerated; distinct = distinct (order and layout of the sections / relation of the inserted data to the existing sections)")
REQUIRED = {"constructions": 3000, "insertions": 3000, "rejected insertions": 3000, "joins": 2000, "insertions without address": 500, "unjoined images": 200,
            "overlap positions": 1000, "images of 1000 pieces": 15, "images of megabytes": 8, "images with empty sections": 500, "histories of unjoined images": 300}


def structure(case, image, want, joined, what):
    """want: model layout; joined: adjacent sections must not exist."""
    secs = list(image.sections)
    prev = None
    for s in secs:
        case.check(len(s) == s.length == len(s.data) > 0, "section of wrong length", what)
        if prev is not None:
            end = prev.start_address + len(prev)
            case.check(prev.start_address < s.start_address, "sections not ordered", what, sections=ops.layout_of(image))
            case.check(end <= s.start_address, "sections overlap", what, sections=ops.layout_of(image))
            if joined:
                case.check(end < s.start_address, "adjacent sections not joined", what, sections=ops.layout_of(image))
        prev = s
    got = ops.layout_of(image)
    case.check(got == want, "sections differ after %s" % what, "", got=got, want=want)
    case.check([(s.start_address, bytes(s.data)) for s in image] == got, "iteration differs", what)
    case.check([(image[i].start_address, bytes(image[i].data)) for i in range(len(secs))] == got, "indexing differs", what)
    case.check(len(image) == sum(len(d) for _, d in want), "wrong length of image", what)
    if secs:
        case.check(image[-1].start_address == got[-1][0], "indexing differs", what)


def construct(case):
    rng = case.rng
    regions = ops.rand_regions(rng, n=rng.choice([1, 2, 3, 4, 5, 8, 30]))
    # many pieces, often adjacent
    pieces = []
    for a, d in regions:
        while len(d) > 1 and rng.random() < 0.5:
            n = rng.randint(1, len(d) - 1)
            pieces.append((a, d[:n]))
            a, d = a + n, d[n:]
        pieces.append((a, d))
    rng.shuffle(pieces)
    case.note(pieces=[(hex(a), d.hex()) for a, d in pieces])
    secs = [Section(a, ops.as_input(rng, d)) for a, d in pieces]
    how = rng.choice(["list", "tuple", "iter", "dict", "empty+insert", "join=True"])
    arg = {"tuple": tuple(secs), "iter": iter(secs), "dict": dict.fromkeys(range(len(secs)))}.get(how, secs)
    if how == "dict":
        arg = {i: s for i, s in enumerate(secs)}.values()
    joined = Model(pieces).layout()
    if how == "empty+insert":
        img = Image()
        for s in secs:
            img.insert_section(s.data, s.start_address)
    elif how == "join=True":
        img = Image(arg, True)
    else:
        img = Image(arg)
    structure(case, img, joined, True, "construction")
    case.seen("constructions")
    if len(joined) < len(pieces):
        case.seen("joins")
    raw = Image(list(secs), join=False)
    structure(case, raw, Model(pieces, join=False).layout(), False, "construction without joining")
    case.seen("unjoined images")
    raw.join_sections()
    structure(case, raw, joined, True, "join_sections()")
    raw.join_sections()
    structure(case, raw, joined, True, "join_sections()")
    # the function itself wants sorted sections
    res = join_sections(sorted(secs, key=lambda s: s.start_address))
    case.check([(s.start_address, bytes(s.data)) for s in res] == joined, "join_sections() differs")
    case.distinct("construct", how, tuple((a, len(d)) for a, d in pieces))
    case.sample("%s of %s" % (how, [(hex(a), len(d)) for a, d in pieces]))


def many(case):
    """More than a thousand pieces, joined to one section or to hundreds."""
    rng = case.rng
    pieces, a = [], rng.choice([0, 0x1000, 1 << 33])
    gaps = rng.choice([(0,), (0,), (0, 0, 0, 0, 1), (1, 2, 50), (0, 1)])
    for _ in range(rng.randint(1050, 2500)):
        d = rng.randbytes(rng.randint(1, 6))
        pieces.append((a, d))
        a += len(d) + rng.choice(gaps)
    joined = Model(pieces).layout()
    k = rng.randrange(3)
    if k == 0:
        rng.shuffle(pieces)
    elif k == 1:
        pieces.reverse()
    secs = [Section(a, d) for a, d in pieces]
    structure(case, Image(secs), joined, True, "construction")
    raw = Image(secs, join=False)
    structure(case, raw, Model(pieces, join=False).layout(), False, "construction without joining")
    raw.join_sections()
    structure(case, raw, joined, True, "join_sections()")
    img = Image()
    n = rng.randint(1, 150)
    for a, d in pieces[:n]:
        img.insert_section(d, a)
    structure(case, img, Model(pieces[:n]).layout(), True, "insertions")
    case.seen("images of 1000 pieces")
    case.distinct("many", gaps, k, len(joined) // 100)


def megabytes(case):
    """Pieces of hundreds of KB, which form sections of some megabytes."""
    rng = case.rng
    pieces, a = [], rng.choice([0, 0x1000, (1 << 32) - 0x180000])
    for i in range(rng.randint(5, 12)):
        d = bytes([rng.randrange(256)]) * rng.choice([1, 65535, 65536, 65537, 200000, 400000, rng.randint(100000, 700000)])
        pieces.append((a, d))
        a += len(d) + (rng.random() < 0.15)
    for _ in range(3):  # These are adjacent.
        pieces.append((a, rng.randbytes(1) * 400000))
        a += 400000
    m = Model(pieces)
    joined = m.layout()
    order = list(pieces)
    rng.shuffle(order)
    secs = [Section(a, d) for a, d in order]
    structure(case, Image(secs), joined, True, "construction")
    raw = Image(secs, join=False)
    structure(case, raw, Model(pieces, join=False).layout(), False, "construction without joining")
    raw.join_sections()
    structure(case, raw, joined, True, "join_sections()")
    img = Image()
    for a, d in order:
        img.insert_section(d, a)
    structure(case, img, joined, True, "insertions")
    k, at = rng.choice([(1, a), (200000, a), (65536, joined[-1][0] + len(joined[-1][1]) - 1), (1 << 20, max(joined[-1][0] - 5, 0)), (1, joined[0][0] + len(joined[0][1]) // 2)])
    out = attempt(img.insert_section, bytes(k), at)
    try:
        m.insert(bytes(k), at)
        case.check(out.ok, "insertion failed", repr(out))
    except Refused:
        case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "overlapping section accepted", "%#x: %r" % (at, out))
    structure(case, img, m.layout(), True, "insertion")
    case.seen("images of megabytes", max(len(d) for _, d in joined) > 1 << 20)
    case.distinct("megabytes", len(joined), max(len(d) for _, d in joined) >> 16)


def empties(case):
    """Empty sections anywhere between (or inside) the others move no byte."""
    rng = case.rng
    regions = ops.rand_regions(rng, n=rng.choice([1, 2, 3, 5]))
    pieces = []
    for a, d in regions:
        while len(d) > 1 and rng.random() < 0.6:
            n = rng.randint(1, len(d) - 1)
            pieces.append((a, d[:n]))
            a, d = a + n, d[n:]
        pieces.append((a, d))
    mem = {a + i: b for a, d in pieces for i, b in enumerate(d)}
    inside = False
    hollow = []
    for _ in range(rng.randint(1, 5)):
        a, d = rng.choice(pieces)
        at = rng.choice([a, a + len(d), a + len(d), a + rng.randint(0, len(d)), a + len(d) + 1, max(a - 1, 0), 0])
        hollow.append((at, b""))
        inside = inside or any(x < at < x + len(y) for x, y in pieces)
    items = pieces + hollow
    rng.shuffle(items)
    case.note(pieces=[(hex(a), d.hex()) for a, d in items])
    secs = [Section(a, ops.as_input(rng, d)) for a, d in items]
    results = [("construction", Image(secs)), ("construction without joining", Image(secs, join=False)), ("join_sections()", Image(secs, join=False))]
    results[-1][1].join_sections()
    results.append(("join_sections", join_sections(secs)))
    results.append(("join_sections", join_sections(sorted(secs, key=lambda s: s.start_address))))
    for what, got in results:
        seen, prev = {}, None
        for s in got:
            case.check(s.length == len(s.data), "section of wrong length", what)
            for i, b in enumerate(s.data):
                case.check(s.start_address + i not in seen, "sections overlap", what)
                seen[s.start_address + i] = b
            if prev is not None and isinstance(got, Image):
                case.check(prev <= s.start_address, "sections not ordered", what)
            prev = s.start_address
        case.check(seen == mem, "sections differ after %s with empty sections" % what, "%r" % (list(got),))
    img = results[0][1]
    # the others are joined as if the empty ones were not there
    for img in (img, results[2][1]):
        case.check([x for x in ops.layout_of(img) if x[1]] == Model(pieces).layout(), "adjacent sections not joined", "around empty sections: %r" % (list(img),))
    for a in rng.sample(sorted(mem), min(len(mem), 10)):
        for img in (results[0][1], results[1][1], results[2][1]):
            r = attempt(img.read, a, 1)
            case.check(r.ok and r.value == bytes([mem[a]]), "read next to an empty section", "%#x: %r in %r" % (a, r, list(img)))
            r = attempt(img.get_section, a)
            case.check(r.ok and a in r.value, "get_section next to an empty section", "%#x: %r in %r" % (a, r, list(img)))
    case.seen("images with empty sections")
    case.distinct("empty", len(pieces), len(hollow), inside)


def permutations(case):
    """All orders of up to five sections with all patterns of gaps between them."""
    n = 2 + case.index % 4
    gaps = [(case.index // 4 >> i) & 1 for i in range(n)]
    a = 0x100
    base = []
    for i in range(n):
        d = bytes([i + 1]) * (1 + (case.index + i) % 3)
        base.append((a, d))
        a += len(d) + gaps[i]
    want = Model(base).layout()
    for order in itertools.permutations(range(n)):
        img = Image([Section(*base[i]) for i in order])
        structure(case, img, want, True, "construction")
        img = Image([])
        m = Model()
        for i in order:
            img.insert_section(base[i][1], base[i][0])
            m.insert(base[i][1], base[i][0])
            structure(case, img, m.layout(), True, "insertion")
        case.seen("constructions")
        case.seen("insertions", n)
        case.distinct("permutation", n, tuple(gaps), order)


def histories(case):
    """Insertions of all kinds into one image."""
    rng = case.rng
    regions = ops.rand_regions(rng) if rng.random() < 0.7 else []
    all_joined = rng.random() < 0.75
    if not all_joined:  # An image of unjoined pieces.
        pieces = []
        for a, d in regions:
            while len(d) > 1 and rng.random() < 0.5:
                n = rng.randint(1, len(d) - 1)
                pieces.append((a, d[:n]))
                a, d = a + n, d[n:]
            pieces.append((a, d))
        regions = pieces
        case.seen("histories of unjoined images")
    img, m = Image([Section(a, d) for a, d in regions], join=all_joined), Model(regions, join=all_joined)
    drv = ops.Driver(case, img, m)
    case.note(regions=[(hex(a), len(d)) for a, d in regions], join=all_joined)
    structure(case, img, m.layout(), all_joined, "construction")
    for _ in range(rng.randint(5, 40)):
        drv.op_insert()
        last = drv.log[-1]
        if "join=False" in last:
            all_joined = False
        elif m.layout() == Model(m.layout()).layout():
            all_joined = True
        structure(case, img, m.layout(), all_joined, last.split("(")[0])
        if ", None," in last:
            case.seen("insertions without address")
        if rng.random() < 0.2:
            drv.step(["read", "write", "contains", "get_section"])
        if rng.random() < 0.1:
            img.join_sections()
            m.join()
            structure(case, img, m.layout(), True, "join_sections()")
            all_joined = True
        if len(drv.log) > 2:
            case.distinct("history", tuple((a, len(d)) for a, d in m.regions))


def overlaps(case):
    """One existing section, the inserted one at every relative position."""
    rng = case.rng
    la = 1 + case.index % 9
    lb = 1 + case.index // 9 % 9
    base = rng.choice([20, 0x1000, 0xFFFF, 1 << 32])
    far = [(base + 200, b"far"), (base - 20, b"\1\2")]
    for rel in range(-lb - 2, la + 3):
        addr = base + rel
        if addr < base - 18:
            continue
        img = Image([Section(base, bytes(range(1, la + 1)))] + [Section(a, d) for a, d in far])
        m = Model([(base, bytes(range(1, la + 1)))] + far)
        before = m.layout()
        data = bytes(rng.randrange(256) for _ in range(lb))
        arg = ops.as_input(rng, data)
        what = "insert_section(%d bytes as %s, at %+d) into %d bytes" % (lb, type(arg).__name__, rel, la)
        out = attempt(img.insert_section, arg, addr)
        try:
            m.insert(data, addr)
            hit = False
        except Refused:
            hit = True
        case.seen("overlap positions")
        case.distinct("overlap", la, lb, rel, type(arg).__name__)
        if hit:
            case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "overlapping section accepted", "%s: %r" % (what, out))
            structure(case, img, before, True, "rejected insertion")
            case.seen("rejected insertions")
            # still usable, and the address for the next insertion did not move
            out = attempt(img.insert_section, b"zz")
            m2 = Model(before)
            try:
                m2.insert(b"zz")
                case.check(out.ok, "insertion failed", repr(out))
                structure(case, img, m2.layout(), True, "insertion after a rejected one")
            except Refused:
                case.check(not out.ok, "overlapping section accepted", repr(out))
        else:
            case.check(out.ok, "insertion failed", "%s: %r" % (what, out))
            structure(case, img, m.layout(), True, "insertion")
            case.seen("insertions")
            end = addr + lb
            out = attempt(img.insert_section, b"next")
            try:
                m.insert(b"next")
                case.check(out.ok, "insertion failed", repr(out))
            except Refused:
                case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "overlapping section accepted", "%#x: %r" % (end, out))
            structure(case, img, m.layout(), True, "insertion without address")
            case.seen("insertions without address")


def wide_items(case):
    """Data measured in bytes, whatever its item size."""
    rng = case.rng
    code = rng.choice("BHIQ")
    arr = array.array(code, [rng.getrandbits(8 * array.array(code).itemsize) for _ in range(rng.randint(1, 6))])
    data = arr.tobytes()
    base = rng.choice([0, 100, 1 << 32])
    gap = rng.randint(1, len(data) + 1)
    img = Image([Section(base + gap, b"xy")])
    m = Model([(base + gap, b"xy")])
    out = attempt(img.insert_section, arr, base)
    try:
        m.insert(data, base)
        case.check(out.ok, "insertion failed", repr(out))
        case.seen("insertions")
    except Refused:
        case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "overlapping section accepted", "%s[%d] before %d: %r" % (code, len(arr), gap, out))
        case.seen("rejected insertions")
    structure(case, img, m.layout(), True, "insertion of array(%r)" % code)
    case.distinct("wide", code, len(arr), gap)


def sequential(case):
    """Insertions without an address form one contiguous block behind the last insertion."""
    rng = case.rng
    img, m = Image(), Model()
    for _ in range(rng.randint(1, 12)):
        d = gen.rand_bytes(rng, rng.randint(1, 20))
        kw = {} if rng.random() < 0.7 else {"join": rng.choice([True, False])}
        if rng.random() < 0.2:
            a = m.next + rng.choice([1, 16, 1000])
            img.insert_section(ops.as_input(rng, d), a, **kw)
            m.insert(d, a, kw.get("join", True))
        else:
            img.insert_section(ops.as_input(rng, d), **kw)
            m.insert(d, None, kw.get("join", True))
            case.seen("insertions without address")
        structure(case, img, m.layout(), kw.get("join", True), "insertion")
        case.seen("insertions")
    case.distinct("sequential", tuple((a, len(d)) for a, d in m.regions))


STREAMS = [
    Stream("many", many, 5, 200),
    Stream("megabytes", megabytes, 4, 200),
    Stream("construct", construct, 6000, 100000),
    Stream("permutations", permutations, 128, 128),
    Stream("empty sections", empties, 800, 20000),
    Stream("histories", histories, 2500, 50000),
    Stream("overlaps", overlaps, 81 * 3, 81 * 60),
    Stream("wide items", wide_items, 1500, 10000),
    Stream("sequential", sequential, 1500, 20000),
]
