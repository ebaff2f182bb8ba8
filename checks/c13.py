"""C13: a hex dump shows exactly the section's contents."""
import contextlib
import io
import sys

from objutils import Image, Section
from objutils.hexdump import CanonicalDumper

from vlib import gen
from vlib.core import Stream, attempt
from vlib.dumpparse import DumpError, parse_image, parse_lines

PROPERTY = "C13"
LEVEL = "exploration"
QUICK_SCALE = 12
RULE = ("sections of every length modulo 16 built from runs of identical rows, near-identical rows and random rows, at addresses around 2**32 and 0, dumped alone, "
        "in images and repeatedly, and parsed back by an independent parser; distinct = distinct (row pattern of the section, last row length, address class)")
REQUIRED = {"dumps parsed": 8000, "elided runs": 2000, "printable bytes": 5000, "multi-section dumps": 1000, "wide addresses": 500, "repeated dumps": 1000, "all lengths": 600, "huge dumps": 30, "dumps of megabytes": 5}


def rows_of(rng):
    """Section contents as a list of rows with many repetitions; returns data and the pattern."""
    pool = [bytes(16), b"\xff" * 16, b"A" * 16, bytes(range(0x18, 0x28)), bytes(range(0x78, 0x88)), rng.randbytes(16)]
    near = bytearray(rng.choice(pool))
    near[rng.choice([0, 15, rng.randrange(16)])] ^= 1 << rng.randrange(8)
    pool.append(bytes(near))
    pattern = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        pattern += [rng.randrange(len(pool))] * rng.choice([1, 1, 1, 2, 2, 3, 4, 10])
    data = b"".join(pool[i] for i in pattern)
    k = rng.choice(["none", "none", "short", "prefix of last", "rest"])
    tail = 0
    if k == "short":
        tail = rng.randint(1, 15)
        data += rng.randbytes(tail)
    elif k == "prefix of last":
        tail = rng.randint(1, 15)
        data += data[-16:][:tail]
    elif k == "rest":
        tail = rng.randint(1, 15)
        data = data[:-16] + data[-16:][:tail]
    ids = {}
    return data, tuple(ids.setdefault(i, len(ids)) for i in pattern) + (k, tail)


def address(rng, n):
    k = rng.choice(["zero", "low", "odd", "below 4G", "across 4G", "above 4G", "top"])
    return k, {"zero": 0, "low": 0x1000, "odd": rng.randrange(1 << 20), "below 4G": (1 << 32) - n, "across 4G": (1 << 32) - n + rng.randint(1, n),
               "above 4G": rng.randint(1 << 32, 1 << 60), "top": (1 << 64) - n}[k]


def dump(obj):
    f = io.StringIO()
    obj.hexdump(f)
    return f.getvalue()


def inspect(case, text, start, data):
    """One section."""
    lines = text.split("\n")
    try:
        got = parse_lines(lines)
    except DumpError as e:
        case.fail("dump can not be read back", str(e), dump=text, data=data.hex(), start=hex(start))
    case.check(got == (start, data), "dump shows something else", "", dump=text, data=data.hex(), start=hex(start), got=(got[0], got[1].hex()))
    shown = [ln for ln in lines if "|" in ln]
    stars = [ln for ln in lines if ln.strip() == "*"]
    case.seen("dumps parsed")
    case.seen("elided runs", len(stars))
    case.seen("printable bytes", sum(0x20 <= b < 0x7F for b in data))
    # the last row is shown, with its address in full
    last = start + (len(data) - 1) // 16 * 16
    case.check(int(shown[-1].split()[0], 16) == last, "last row is missing", text)
    width = 8 if start + len(data) <= 1 << 32 else 16
    case.check(all(len(ln.split()[0]) == width for ln in shown), "address has the wrong width", "expected %d digits" % width, dump=text)
    if width == 16:
        case.seen("wide addresses")


def sections(case):
    rng = case.rng
    data, pattern = rows_of(rng)
    cls, start = address(rng, len(data))
    s = Section(start, data)
    case.note(start=hex(start), data=data.hex())
    text = dump(s)
    inspect(case, text, start, data)
    case.distinct(pattern, cls)
    case.sample("%d bytes at %#x, rows %s" % (len(data), start, pattern[:12]))
    case.check(bytes(s.data) == data and s.start_address == start, "section changed by the dump")
    k = rng.random()
    if k < 0.3:
        case.check(dump(s) == text, "repeated dump differs", text)
        case.seen("repeated dumps")
    elif k < 0.4:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            s.hexdump(sys.stdout)
        case.check(out.getvalue() == text, "dump to standard output differs")
    elif k < 0.6:
        # what is dumped follows later writes
        i = rng.randrange(len(data))
        s.write(start + i, bytes([data[i] ^ 0x41]))
        inspect(case, dump(s), start, data[:i] + bytes([data[i] ^ 0x41]) + data[i + 1 :])
        case.seen("repeated dumps")


def lengths(case):
    """Every length up to 80, constant and varied contents."""
    rng = case.rng
    n = case.index % 80 + 1
    for data in (bytes(n), b"x" * n, bytes(range(n)), rng.randbytes(n), (b"ab" * 8 + b"cd" * 8) * 3):
        data = data[:n]
        inspect(case, dump(Section(case.index, data)), case.index, data)
        case.seen("all lengths")
    case.distinct("length", n)


def every_byte(case):
    """Each byte value shows its digits and its character."""
    b = case.index
    for n in (1, 16, 17):
        inspect(case, dump(Section(b, bytes([b]) * n)), b, bytes([b]) * n)
    data = bytes((b + i) & 0xFF for i in range(40))
    inspect(case, dump(Section(b << 8, data)), b << 8, data)
    case.distinct("byte", b)


def images(case):
    rng = case.rng
    regions = []
    a = rng.choice([0, 0x100, (1 << 32) - 200, 1 << 33])
    same, _ = rows_of(rng)
    for _ in range(rng.randint(1, 5)):
        d = same if rng.random() < 0.4 else rows_of(rng)[0]
        regions.append((a, d))
        a += len(d) + rng.choice([1, 16, 0x1000])
    img = Image([Section(a, d) for a, d in regions])
    case.note(regions=[(hex(a), d.hex()) for a, d in regions])
    text = dump(img)
    try:
        got = parse_image(text)
    except DumpError as e:
        case.fail("dump can not be read back", str(e), dump=text)
    case.check(got == regions, "dump shows something else", "", dump=text)
    case.seen("multi-section dumps")
    case.check(dump(img) == text, "repeated dump differs")
    # a section dumps the same inside and outside of an image
    parts = text.split("\nSection #")
    for i, (a, d) in enumerate(regions):
        alone = dump(Section(a, d))
        case.check(parts[i + 1].split("\n", 2)[2].strip("\n") == alone.strip("\n"), "dump of a section depends on other sections", alone)
        case.seen("repeated dumps")
    case.distinct("image", tuple(len(d) for _, d in regions))


def huge(case):
    """Sections of more than 4096 rows, long elided runs, a thousand sections."""
    rng = case.rng
    if case.index % 2:
        data = b"".join(rng.choice([rng.randbytes(16), bytes(16), b"\xff" * 16]) * rng.choice([1, 1, 300, 4097, 5000]) for _ in range(rng.randint(2, 5))) + rng.randbytes(rng.randint(65536, 70000))
        k = rng.randrange(len(data))
        data = data[k:] + data[:k]
        start = rng.choice([0, 0xFFF0, (1 << 32) - 0x10000, rng.getrandbits(40)])
        inspect(case, dump(Section(start, data)), start, data)
    else:
        regions, a = [], rng.choice([0, 0x100, (1 << 32) - 20000, 1 << 33])
        for _ in range(rng.randint(1050, 1400)):
            d = rng.randbytes(rng.choice([1, 15, 16, 17, 40]))
            regions.append((a, d))
            a += len(d) + rng.choice([1, 16, 0x1000])
        try:
            got = parse_image(dump(Image([Section(a, d) for a, d in regions])))
        except DumpError as e:
            case.fail("dump can not be read back", str(e))
        case.check(got == regions, "dump shows something else")
    case.seen("huge dumps")
    case.distinct("huge", case.index % 2)


def megabytes(case):
    """Sections of some megabytes: mostly repeated rows, shown ones at both ends and in between."""
    rng = case.rng
    parts = []
    for _ in range(rng.randint(2, 4)):
        parts.append(rng.randbytes(16 * rng.randint(1, 300)))
        parts.append(rng.choice([bytes(16), b"\xff" * 16, rng.randbytes(16)]) * rng.randint(22000, 40000))
    parts.append(rng.randbytes(rng.randint(1, 5000)))
    data = b"".join(parts)
    start = rng.choice([0, 0x1000, (1 << 32) - 0x110000, rng.getrandbits(40)])
    inspect(case, dump(Section(start, data)), start, data)
    case.seen("dumps of megabytes", len(data) > 1 << 20)
    case.distinct("megabytes", len(data) >> 18)


def one_dumper(case):
    """A dumper used for several sections."""
    rng = case.rng
    f = io.StringIO()
    dumper = CanonicalDumper(f, rng.choice([32, 64]))
    data, _ = rows_of(rng)
    for _ in range(3):
        if rng.random() < 0.5:
            data = rows_of(rng)[0]
        start = rng.choice([0, 0x10, 0x2000])
        f.seek(0)
        f.truncate()
        dumper.dump_data(Section(start, data))
        text = f.getvalue()
        try:
            got = parse_lines(text.split("\n"))
        except DumpError as e:
            case.fail("dump can not be read back", str(e), dump=text)
        case.check(got == (start, data), "dump shows something else", "", dump=text)
        case.seen("repeated dumps")


def broken_sink(case):
    """A dump that fails half way does not influence the next one."""
    rng = case.rng

    class Full(io.StringIO):
        room = rng.randint(0, 200)

        def write(self, s):
            if self.tell() + len(s) > self.room:
                raise OSError("no space")
            return super().write(s)

    data, _ = rows_of(rng)
    s = Section(0x100, data)
    attempt(s.hexdump, Full())
    inspect(case, dump(s), 0x100, data)


STREAMS = [
    Stream("huge", huge, 4, 120),
    Stream("megabytes", megabytes, 1, 60),
    Stream("sections", sections, 12000, 250000),
    Stream("lengths", lengths, 160, 800),
    Stream("every byte", every_byte, 256, 256),
    Stream("images", images, 3000, 60000),
    Stream("one dumper", one_dumper, 600, 6000),
    Stream("broken sink", broken_sink, 200, 2000),
]
