"""C05: unrepresentable addresses are refused; the last representable byte is written; refused writes leave files alone."""
import os

import objutils
from objutils import Image, Section
from objutils.hexfile import AddressRangeToLargeError

from vlib import gen, hexio
from vlib.core import Stream, attempt
from vlib.formats import FORMATS, NAMES

PROPERTY = "C05"
LEVEL = "exploration"
QUICK_SCALE = 15
RULE = ("images ending just below, at and beyond the limit of each codec (and of forced S-record types), single and multiple sections in any order; "
        "distinct = distinct (codec or record type, distance of the last byte from the limit, position of the offending section, entry point)")
LIMITED = [n for n in NAMES if n != "shf"]
REQUIRED = {"refusals": 1500, "accepted at the limit": 300, "destinations preserved": 300, "start addresses refused": 200, "negative addresses refused": 300, "wide addresses": 300, "huge images": 15}
TARGETS = [(f, FORMATS[f].max_address, {}) for f in LIMITED] + [("srec", 0xFFFF, {"record_type": 1}), ("srec", 0xFFFFFF, {"record_type": 2}), ("srec", 0xFFFFFFFF, {"record_type": 3})]


class Sink:
    """A file object that records everything."""

    def __init__(self):
        self.data = b""
        self.closed = False

    def write(self, data):
        self.data += bytes(data)
        return len(data)

    def close(self):
        self.closed = True


def image_with(rng, last, others):
    """Image whose highest byte is `last`; the section holding it is not necessarily the last one given."""
    n = rng.choice([1, 1, 2, 16, 17, 40])
    secs = [(max(0, last + 1 - n), last)]
    top = secs[0][0]
    for _ in range(others):
        ln = rng.randint(1, 30)
        if top < 100:
            break
        start = rng.choice([0, rng.randint(0, min(top - ln - 1, 0xFF00)) if top > ln + 1 else 0])
        if all(start + ln < a or start > b + 1 for a, b in secs):
            secs.append((start, start + ln - 1))
    rng.shuffle(secs)
    return secs, {a: rng.randrange(256) for s, e in secs for a in range(s, e + 1)}


def huge(case):
    """Hundreds of kilobytes or thousands of sections in front of the byte at or beyond the limit."""
    limits(case, True)
    case.seen("huge images")


def limits(case, huge=False):
    rng = case.rng
    fmt, limit, kw = TARGETS[case.index % len(TARGETS)]
    delta = rng.choice([-17, -2, -1, 0, 0, 1, 1, 2, 15, 16, 17, 255, 256, 4096, limit, limit + 1, 1 << 40])
    last = limit + delta
    secs, mem = image_with(rng, last, rng.choice([0, 0, 1, 2, 3]))
    if huge:
        room = min(limit, 0xFFFFFFFF) - 200
        more = {a: b for a, b in gen.huge_mem(rng, room, 1 + case.index % 2).items() if a < min(room, last - 100)}
        mem = {**more, **{a: b for a, b in mem.items() if a >= last - 40}}
        secs = [(a, a + len(d) - 1) for a, d in gen.runs(mem)]
        rng.shuffle(secs)
    sections = [Section(s, bytes(mem[a] for a in range(s, e + 1))) for s, e in secs]
    k = rng.random()
    img = Image(sections) if k < 0.8 else Image(sections, join=False)
    row = rng.choice([1, 8, 16, 32, 64])
    case.note(format=fmt, options=kw, sections=[(hex(s), hex(e)) for s, e in secs], row=row)
    how = rng.choice(["dumps", "path", "existing", "object"])
    old = None
    if how == "dumps":
        r = attempt(objutils.dumps, fmt, img, row_length=row, **kw)
        text = r.value
    elif how == "object":
        sink = Sink()
        r = attempt(objutils.dump, fmt, sink, img, row_length=row, **kw)
        text = sink.data
    else:
        path = os.path.join(case.scratch, "dest.hex")
        if how == "existing":
            old = rng.randbytes(rng.choice([0, 5, 4000]))
            with open(path, "wb") as f:
                f.write(old)
        r = attempt(objutils.dump, fmt, path, img, row_length=row, **kw)
        text = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                text = f.read()
    fits = last <= limit
    case.distinct(fmt, tuple(kw.items()), delta, len(secs), secs.index(max(secs)), how, k < 0.8)
    case.sample("%s %s last byte at limit%+d via %s: %r" % (fmt, kw, delta, how, r if not r.ok else "written"))
    if fits:
        case.check(r.ok, "representable image refused (%s)" % fmt, repr(r))
        d = FORMATS[fmt].decode(bytes(text))
        case.check(d.mem == mem, "written image differs (%s)" % fmt, gen.mem_diff(d.mem, mem))
        if last == limit:
            case.seen("accepted at the limit")
        return
    if r.ok:
        case.fail("unrepresentable image accepted (%s)" % fmt, "last byte at %#x, limit %#x" % (last, limit), text=text)
    case.seen("refusals")
    case.check(isinstance(r.exc, AddressRangeToLargeError), "wrong refusal (%s)" % fmt, repr(r))
    if how == "existing":
        case.check(text == old, "destination of refused write changed (%s)" % fmt, "%r" % text)
        case.seen("destinations preserved")
    elif how == "object":
        case.check(text == b"", "refused write wrote data (%s)" % fmt, "%r" % text)


def refused_otherwise(case):
    """Writes refused for another reason (unknown option) leave the destination alone, too."""
    rng = case.rng
    fmt = LIMITED[case.index % len(LIMITED)]
    mem = gen.rand_mem(rng, FORMATS[fmt].max_address, max_sections=2)
    path = os.path.join(case.scratch, "dest")
    old = rng.randbytes(100)
    with open(path, "wb") as f:
        f.write(old)
    r = attempt(objutils.dump, fmt, path, gen.plain_image(mem), no_such_option=1)
    case.check(not r.ok, "unknown option accepted (%s)" % fmt)
    with open(path, "rb") as f:
        case.check(f.read() == old, "destination of refused write changed (%s)" % fmt)
    case.seen("destinations preserved")


def widest_not_last(case):
    """The section reaching beyond the limit starts before another section (interleaved layouts)."""
    rng = case.rng
    fmt, limit, kw = TARGETS[case.index % len(TARGETS)]
    # A long section runs over the limit although a later-starting one does not.
    n = rng.randint(20, 60)
    over = rng.randint(1, 10)
    start = limit + 1 + over - n
    inner = start + rng.randint(1, n - over - 6)
    img = Image([Section(inner, rng.randbytes(3)), Section(start, rng.randbytes(n))], join=False)
    case.note(format=fmt, options=kw, start=hex(start), length=n, inner=hex(inner))
    r = attempt(objutils.dumps, fmt, img, **kw)
    case.check(not r.ok and isinstance(r.exc, AddressRangeToLargeError), "unrepresentable image accepted (%s)" % fmt, repr(r))
    case.seen("refusals")
    case.distinct("interleaved", fmt, tuple(kw.items()), over)
    # bytes at the top of a huge address
    far = rng.choice([limit + 1, 1 << 32, (1 << 32) + rng.randrange(1 << 20), 1 << 33, 1 << 63, 1 << 64])
    if far > limit:
        r = attempt(objutils.dumps, fmt, Image([Section(far, b"\x55")]), **kw)
        case.check(not r.ok and isinstance(r.exc, AddressRangeToLargeError), "unrepresentable image accepted (%s)" % fmt, "%#x: %r" % (far, r))
        case.seen("refusals")


def start_addresses(case):
    """S-record start addresses that do not fit into the termination record."""
    rng = case.rng
    rt = rng.choice([1, 2, 3, None])
    lim = (1 << (8 * ((rt or 3) + 1))) - 1
    mem = gen.rand_mem(rng, lim if rt else 0xFFFF, max_sections=2)
    img = gen.plain_image(mem)
    path = os.path.join(case.scratch, "dest")
    old = rng.randbytes(rng.choice([0, 60]))
    with open(path, "wb") as f:
        f.write(old)
    bad = rng.choice([lim + 1, lim + 2, lim << 1, lim << 8, -1, -lim, 1 << 32, 1 << 64, rng.randint(lim + 1, lim << 9)])
    case.note(record_type=rt, start=hex(bad))
    kw = {} if rt is None and rng.random() < 0.5 else {"record_type": rt}
    r = attempt(objutils.dump, "srec", path, img, start_address=bad, **kw)
    case.check(not r.ok and isinstance(r.exc, AddressRangeToLargeError), "unrepresentable start address accepted", "%#x: %r" % (bad, r))
    with open(path, "rb") as f:
        case.check(f.read() == old, "destination of refused write changed (srec)")
    r = attempt(objutils.dumps, "srec", img, start_address=bad, **kw)
    case.check(not r.ok and isinstance(r.exc, AddressRangeToLargeError), "unrepresentable start address accepted", "%#x: %r" % (bad, r))
    good = rng.choice([lim, lim - 1, 0, rng.randint(0, lim)])
    r = attempt(objutils.dumps, "srec", img, start_address=good, **kw)
    case.check(r.ok, "representable start address refused", "%#x: %r" % (good, r))
    d = FORMATS["srec"].decode(bytes(r.value))
    case.check(d.extra["start"][1] == good and d.mem == mem, "written start address differs", "%r for %#x" % (d.extra["start"], good))
    case.seen("start addresses refused", 2)
    case.distinct("start", rt, bad.bit_length(), bad < 0, good.bit_length())


def negative(case):
    """No format has negative addresses: images with bytes there are refused, whatever else they contain."""
    rng = case.rng
    fmt, limit, kw = TARGETS[case.index % len(TARGETS)]
    n = rng.randint(1, 40)
    start = -rng.choice([1, n, n + 1, max(n - 1, 1), 0x100, 0x8000, 0x10000, limit, limit + 1, 1 << 32, rng.randint(1, limit)])
    secs = [Section(start, rng.randbytes(n))]
    if rng.random() < 0.5:
        secs.append(Section(rng.randint(max(start + n, 0), 0xF000), rng.randbytes(rng.randint(1, 30))))
    if rng.random() < 0.3:
        secs.append(Section(start - 50, rng.randbytes(5)))
    img = Image(secs)
    case.note(format=fmt, options=kw, sections=[(s.start_address, s.length) for s in secs])
    path = os.path.join(case.scratch, "dest")
    old = rng.randbytes(30)
    with open(path, "wb") as f:
        f.write(old)
    for r in (attempt(objutils.dumps, fmt, img, **kw), attempt(objutils.dump, fmt, path, img, **kw)):
        case.check(not r.ok and isinstance(r.exc, AddressRangeToLargeError), "unrepresentable image accepted (%s)" % fmt, "first byte at %#x: %r" % (start, r))
    with open(path, "rb") as f:
        case.check(f.read() == old, "destination of refused write changed (%s)" % fmt)
    case.seen("refusals")
    case.seen("negative addresses refused")
    case.distinct("negative", fmt, tuple(kw.items()), len(secs), start.bit_length(), n >= -start)


def unlimited(case):
    """SHF has no address limit: addresses of any width are written as they are."""
    rng = case.rng
    width = rng.choice([16, 31, 32, 33, 40, 48, 63, 64, 65])
    start = max((1 << width) + rng.choice([-40, -1, 0, 1, rng.getrandbits(width - 1)]), 0)
    secs = [Section(start, rng.randbytes(rng.randint(1, 40)))]
    if rng.random() < 0.5:
        secs.append(Section(start + 100 + rng.choice([0, 1 << 16, 1 << 32]), rng.randbytes(rng.randint(1, 40))))
    img = Image(secs)
    mem = gen.mem_of(img)
    case.note(sections=[(hex(s.start_address), s.length) for s in secs])
    r = attempt(objutils.dumps, "shf", img)
    case.check(r.ok, "representable image refused (shf)", repr(r))
    d = FORMATS["shf"].decode(bytes(r.value))
    case.check(d.mem == mem, "written image differs (shf)", gen.mem_diff(d.mem, mem))
    case.seen("wide addresses")
    case.distinct("unlimited", width, len(secs), start.bit_length())


STREAMS = [
    Stream("huge", huge, 1, len(TARGETS) * 10),
    Stream("negative", negative, len(TARGETS) * 20, len(TARGETS) * 400),
    Stream("unlimited", unlimited, 300, 5000),
    Stream("start addresses", start_addresses, 100, 3000),
    Stream("limits", limits, len(TARGETS) * 240, len(TARGETS) * 5000),
    Stream("unknown option", refused_otherwise, len(LIMITED) * 10, len(LIMITED) * 80),
    Stream("widest not last", widest_not_last, len(TARGETS) * 30, len(TARGETS) * 400),
]
