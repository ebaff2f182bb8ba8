"""C19: binary primitives decode exactly and consume exactly their bytes."""
import io
import itertools
import mmap
import struct

from construct import Int8sl, Int8ul, Int16sb, Int16sl, Int16ub, Int16ul, Int32sb, Int32sl, Int32ub, Int32ul, Int64sb, Int64sl, Int64ub, Int64ul, Sequence

from objutils.dwarf import encoding as en
from objutils.readers import PlainBinaryReader

from vlib.core import Stream, attempt, short

PROPERTY = "C19"
LEVEL = "exploration"
QUICK_SCALE = 4
RULE = ("streams of mixed items (variable length integers of 0..4000 bits, mostly around every 7 bit boundary, also padded; fixed width integers and addresses of both "
        "byte orders; blocks of every kind; strings; references into string tables; string and file lists) encoded independently, decoded in sequence from "
        "files, memory and several interleaved readers with the position monitored after every item, truncated at every byte, and encoded again; "
        "distinct = distinct (item kind, encoded bytes up to 12, place in the stream)")
REQUIRED = {"reader items": 6000, "reader truncations": 4000, "construct items": 8000, "construct truncations": 6000, "built": 6000, "short LEBs": 30000,
            "boundary values": 3000, "interleaved switches": 3000, "errors followed by good input": 4000, "seeks": 1000, "composed": 300, "padded": 500}
LITTLE, BIG = en.Endianess.Little, en.Endianess.Big


# -- independent encoders (arithmetic on digits, not the code's shifting loops) --------------
def uleb(v, pad=0):
    digits = [v % 128]
    v //= 128
    while v:
        digits.append(v % 128)
        v //= 128
    digits += [0] * pad
    return bytes([d + 128 for d in digits[:-1]] + [digits[-1]])


def sleb(v, pad=0):
    n = 1
    while not -(1 << (7 * n - 1)) <= v < (1 << (7 * n - 1)):
        n += 1
    n += pad
    u = v % (1 << (7 * n))
    digits = [(u // 128**i) % 128 for i in range(n)]
    return bytes([d + 128 for d in digits[:-1]] + [digits[-1]])


def magnitude(rng):
    k = rng.random()
    if k < 0.005:
        return rng.getrandbits(rng.choice((300, 512, 1000, 4000)))
    if k < 0.45:
        b = 7 * rng.randrange(0, 20) + rng.choice((-1, 0, 0, 1))
        return max(0, (1 << max(b, 0)) + rng.choice((-2, -1, 0, 1, 2)))
    if k < 0.6:
        b = rng.choice((8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 200))
        return (1 << b) + rng.choice((-1, 0, 1))
    return rng.getrandbits(rng.choice((3, 6, 7, 8, 13, 14, 20, 32, 64, 128)))


def text(rng, alphabet):
    n = rng.choice((0, 0, 1, 1, 2, 3, 5, 8, 13, 40))
    if rng.random() < 0.03:
        n = rng.choice((63, 64, 127, 128, 255, 256, 257, 300, 1023, 1024, 1025, 2000, 4095, 4096, 5000)) if rng.random() < 0.993 else rng.choice((65535, 65536, 70000, 200000))
    return "".join(rng.choices(alphabet, k=n))


ASCII = [chr(c) for c in range(1, 128)]
WIDE = ASCII + list("äöüßéµ€日本語𝄞😀")


# -- PlainBinaryReader --------------------------------------------------------------------
INTS = {"u8": "B", "u16": "H", "u32": "I", "u64": "Q", "s8": "b", "s16": "h", "s32": "i", "s64": "q"}


def reader_item(rng, order):
    """(method, value, bytes, padded)"""
    kind = rng.choice(list(INTS) + ["uleb", "sleb", "asciiz", "uleb", "sleb", "asciiz", "next_byte"])
    if kind in INTS or kind == "next_byte":
        code = INTS.get(kind, "B")
        n = struct.calcsize("<" + code)
        raw = bytes(rng.choice((0, 1, 0x7F, 0x80, 0xFF, rng.getrandbits(8))) for _ in range(n))
        v = int.from_bytes(raw, "big" if order == ">" else "little", signed=code.islower())
        return kind, v, raw, 0
    if kind == "asciiz":
        s = text(rng, [chr(c) for c in range(1, 256)])
        return kind, s, s.encode("latin1") + b"\0", 0
    pad = rng.choice((0, 0, 0, 1, 2, 5))
    m = magnitude(rng)
    if kind == "uleb":
        return kind, m, uleb(m, pad), pad
    m = rng.choice((-1, 1)) * m
    return kind, m, sleb(m, pad), pad


class Image:
    """The places a reader can read from."""

    def __init__(self, case, data, kind):
        self.close = lambda: None
        if kind == "bytesio":
            self.fp = io.BytesIO(data)
        elif kind == "mmap" and data:
            self.fp = mmap.mmap(-1, len(data))
            self.fp[:] = data
            self.fp.seek(case.rng.randrange(len(data)))  # a reader starts at the beginning whatever the position
            self.close = self.fp.close
        else:
            self.fp = io.BufferedRandom(io.FileIO("%s/img" % case.scratch, "w+"))
            self.fp.write(data)
            self.close = self.fp.close


def readers(case):
    rng = case.rng
    plans, active = [], []
    for n in range(rng.choice((1, 1, 2, 3))):
        order = rng.choice("<>")
        items = [reader_item(rng, order) for _ in range(rng.randrange(1, 24) if rng.random() < 0.998 else rng.randint(2000, 8000))]
        data = b"".join(i[2] for i in items)
        case.sample("%s encoded as %s (%s)" % ([(i[0], short(i[1])) for i in items[:6]], data[:60].hex(), order))
        img = Image(case, data, rng.choice(("bytesio", "bytesio", "mmap") + (("file",) if n == 0 else ())))
        prefix = order if order == ">" or rng.random() < 0.8 else None  # native order (this machine's) is the default
        r = PlainBinaryReader(img.fp, {"<": PlainBinaryReader.LITTLE_ENDIAN, ">": PlainBinaryReader.BIG_ENDIAN}[order]) if prefix else PlainBinaryReader(img.fp)
        case.equal(r.size, len(data), "size of a reader differs", order=order)
        case.equal(r.pos, 0, "a reader does not start at its beginning", order=order)
        plans.append((order, items, data, img))
        active.append([r, 0, 0])
    todo = list(range(len(plans)))
    last = None
    while todo:
        k = rng.choice(todo)
        if last is not None and last != k:
            case.seen("interleaved switches")
        last = k
        r, i, pos = active[k]
        order, items, data, img = plans[k]
        if i == len(items):
            todo.remove(k)
            case.equal(r.pos, len(data), "position at the end differs")
            continue
        if rng.random() < (0.08 if len(items) < 50 else 1 / len(items)) and i:
            j = rng.randrange(i + 1)
            pos = sum(len(x[2]) for x in items[:j])
            if j == 0 and rng.random() < 0.5:
                r.reset()
            else:
                r.pos = pos
            case.equal(r.pos, pos, "position differs after it was set")
            case.seen("seeks")
            i = j
            if i == len(items):
                active[k] = [r, i, pos]
                continue
        kind, value, raw, pad = items[i]
        out = attempt(getattr(r, kind))
        case.check(out.ok and type(out.value) is type(value) and out.value == value, "decoded value differs",
                   "%s of %s (byte order %s): %r, expected %r" % (kind, raw[:24].hex(), order, out, short(value)), stream=data[max(0, pos - 500) : pos + 500].hex(), item=i)
        case.equal(r.pos, pos + len(raw), "consumed length differs", "%s of %s" % (kind, raw[:24].hex()), stream=data[max(0, pos - 500) : pos + 500].hex(), item=i)
        case.seen("reader items")
        case.seen("padded", 1 if pad else 0)
        case.distinct(kind, raw[:12], min(i, 3), order)
        active[k] = [r, i + 1, pos + len(raw)]
    # truncation: the last item of a prefix of the stream is cut
    order, items, data, img = plans[0]
    for p in plans:
        p[3].close()
    for _ in range(4):
        i = rng.randrange(len(items))
        lead = b"".join(x[2] for x in items[:i][-3:])
        raw = items[i][2]
        cuts = range(len(raw)) if len(raw) < 12 else rng.sample(range(len(raw)), 8) if len(raw) < 9000 else [len(raw) - 1]
        for cut in cuts:
            r = PlainBinaryReader(io.BytesIO(lead + raw[:cut]), order)
            for x in items[:i][-3:]:
                getattr(r, x[0])()
            out = attempt(getattr(r, items[i][0]))
            case.check(not out.ok, "truncated item accepted", "%s of %s: %r" % (items[i][0], raw[:cut][:500].hex(), out), whole=raw[:2000].hex())
            case.seen("reader truncations")


# -- encodings of DWARF ---------------------------------------------------------------------
FIXED = {("u", 1): (Int8ul, Int8ul), ("u", 2): (Int16ul, Int16ub), ("u", 4): (Int32ul, Int32ub), ("u", 8): (Int64ul, Int64ub),
         ("s", 1): (Int8sl, Int8sl), ("s", 2): (Int16sl, Int16sb), ("s", 4): (Int32sl, Int32sb), ("s", 8): (Int64sl, Int64sb)}
BLOCKS = {"block1": (en.Block1, 1, "little"), "block2l": (en.Block2l, 2, "little"), "block2b": (en.Block2b, 2, "big"),
          "block4l": (en.Block4l, 4, "little"), "block4b": (en.Block4b, 4, "big")}


class Tables:
    """String tables, read through a reader per byte order, shared by the items of a case."""

    def __init__(self, rng):
        self.strings = [text(rng, WIDE) for _ in range(rng.randrange(1, 12))]
        self.offsets, blob = [], bytearray(rng.choice((b"", b"\0")))
        big = rng.random() < 0.02
        for s in self.strings:
            if big:  # references of more than 16 bits
                blob += b"x" * rng.choice((1, 255, 32767, 65536, 70000, 9000000 if rng.random() < 0.1 else 5)) + b"\0"
            self.offsets.append(len(blob))
            blob += s.encode("utf-8") + b"\0"
        self.blob = bytes(blob)
        self.parsers = {e: en.StrP(self.blob, e) for e in (LITTLE, BIG)}
        self.tail = {e: en.StrP(self.blob + b"unterminated", e) for e in (LITTLE, BIG)}


def construct_item(rng, tables):
    """(name, parser, value, bytes, what build must give (None: not checked), comparable view of a parsed value)"""
    same = lambda v: v
    kind = rng.choice(("uleb", "uleb", "sleb", "sleb", "address", "strp", "strp", "list", "files", "one", "ublock") + tuple(BLOCKS))
    e = rng.choice((LITTLE, BIG))
    order = "little" if e == LITTLE else "big"
    if kind in ("uleb", "sleb"):
        pad = rng.choice((0, 0, 0, 1, 3))
        v = magnitude(rng)
        if kind == "sleb":
            v *= rng.choice((-1, 1))
        f = uleb if kind == "uleb" else sleb
        return kind + ("" if not pad else " padded"), en.ULEB if kind == "uleb" else en.SLEB, v, f(v, pad), f(v), same
    if kind == "address":
        n = rng.choice((1, 2, 4, 8))
        raw = bytes(rng.choice((0, 0x7F, 0x80, 0xFF, rng.getrandbits(8))) for _ in range(n))
        return "address%d/%s" % (n, order), en.Address(n, e), int.from_bytes(raw, order), raw, raw, same
    if kind == "strp":
        i = rng.randrange(len(tables.strings))
        s, off = tables.strings[i], tables.offsets[i]
        if s and rng.random() < 0.3:  # tails of strings are shared
            j = rng.randrange(len(s) + 1)
            off += len(s[:j].encode())
            s = s[j:]
        return "strp/" + order, tables.parsers[e], s, off.to_bytes(4, order), None, same
    if kind == "list":
        names = [t for t in (text(rng, WIDE) for _ in range(rng.randrange(6) if rng.random() < 0.998 else rng.choice((127, 128, 256, 300, 600)))) if t]
        raw = b"".join(t.encode() + b"\0" for t in names) + b"\0"
        return "list", en.ArrayOfCStrings(), names, raw, raw, same
    if kind == "files":
        rows = [(t, magnitude(rng), rng.getrandbits(rng.choice((1, 20, 31))), magnitude(rng)) for t in (text(rng, ASCII) for _ in range(rng.randrange(5) if rng.random() < 0.998 else rng.choice((127, 128, 256, 300, 600)))) if t]
        raw = b"".join(t.encode() + b"\0" + uleb(d) + uleb(m) + uleb(n) for t, d, m, n in rows) + b"\0"
        return ("files", en.FilenameSequence(), {i + 1: (t, d, n) for i, (t, d, m, n) in enumerate(rows)}, raw, None,
                lambda v: {k: (f.name, f.dir_index, f.length) for k, f in v.items()})
    if kind == "one":
        return "one", en.One, 1, b"", b"", same
    n = rng.choice((0, 1, 2, 3, 7, 127, 128, 129, 255))
    if kind != "block1" and rng.random() < 0.1:
        n = rng.choice((256, 300, 16383, 16384, 65535)) if kind != 'ublock' or rng.random() < 0.8 else rng.choice((65536, 70000, 1 << 21))
    if kind in ("block4l", "block4b") and rng.random() < 0.03:
        n = rng.choice((65536 + rng.randrange(5), 65536 + rng.randrange(5), (1 << 20) + 1, 1 << 24))
    body = rng.randbytes(n)
    if kind == "ublock":
        raw = uleb(n) + body
        return "uleb block", en.BlockUleb, body, raw, raw, same
    parser, size, order = BLOCKS[kind]
    raw = n.to_bytes(size, order) + body
    return kind, parser, body, raw, raw, same


def parse_from(parser, data, fp=None):
    return parser.parse(data) if fp is None else parser.parse_stream(fp)


def encodings(case):
    rng = case.rng
    tables = Tables(rng)
    plans = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        items = [construct_item(rng, tables) for _ in range(rng.randrange(1, 20))]
        data = b"".join(i[3] for i in items)
        fp = io.BytesIO(data)
        lead = 0
        plans.append([items, fp, data, 0, lead])
        case.sample("%s encoded as %s" % ([(i[0], short(i[2])) for i in items[:6]], data[:60].hex()))
    todo, last = list(plans), None
    while todo:
        p = rng.choice(todo)
        if last is not None and last is not p:
            case.seen("interleaved switches")
        last = p
        items, fp, data, i, pos = p
        if i == len(items):
            case.equal(fp.tell(), len(data), "position at the end differs")
            todo.remove(p)
            continue
        name, parser, value, raw, built, view = items[i]
        out = attempt(parser.parse_stream, fp)
        case.check(out.ok and view(out.value) == value, "decoded value differs", "%s of %s: %r, expected %r" % (name, raw[:24].hex(), out, short(value)), item=i, stream=data[max(0, pos - 500) : pos + 500].hex())
        case.equal(fp.tell(), pos + len(raw), "consumed length differs", "%s of %s" % (name, raw[:24].hex()), item=i, stream=data[max(0, pos - 500) : pos + 500].hex())
        case.seen("construct items")
        case.distinct(name, raw[:12], min(i, 3))
        p[3], p[4] = i + 1, pos + len(raw)
        if rng.random() < 0.3:
            out = attempt(parser.parse, raw + rng.randbytes(rng.randrange(3)))
            case.check(out.ok and view(out.value) == value, "decoded value differs", "%s of %s: %r, expected %r" % (name, raw[:24].hex(), out, short(value)))
        if built is not None:
            given = value
            out = attempt(parser.build, given)
            case.check(out.ok, "value can not be encoded", "%s: %r %r" % (name, short(given), out))
            back = attempt(parser.parse, out.value)
            case.check(back.ok and view(back.value) == value, "encoding is not decoded to its value", "%s %r encoded as %s: %r" % (name, short(value), out.value[:24].hex(), back))
            case.equal(out.value, built, "encoding differs", "%s of %s" % (name, short(value)))
            sink = io.BytesIO(b"")
            sink.write(b"abc")
            attempt(parser.build_stream, value, sink)
            case.equal(sink.getvalue(), b"abc" + built, "encoding into a stream differs", "%s of %s" % (name, short(value)))
            case.seen("built")
        if name.endswith("padded"):
            case.seen("padded")
        if raw and (rng.random() < 0.6 or len(raw) < 4):
            cuts = range(len(raw)) if len(raw) < 14 else [0, 1, len(raw) - 1] + rng.sample(range(len(raw)), 6 if len(raw) < 2000 else 0)
            for cut in cuts:
                other = attempt(parser.parse, raw[:cut])
                case.check(not other.ok, "truncated item accepted", "%s of %s: %r" % (name, raw[:cut][:500].hex(), other), whole=raw[:2000].hex())
                case.seen("construct truncations")
            out = attempt(parser.parse, raw)
            case.check(out.ok and view(out.value) == value, "decoding differs after an error", "%s of %s: %r, expected %r" % (name, raw[:24].hex(), out, short(value)))
            case.seen("errors followed by good input")
    # references out of the table or to an unterminated string
    for e in (LITTLE, BIG):
        for off, parser in ((len(tables.blob) + rng.randrange(5), tables.parsers[e]), (len(tables.blob) + rng.randrange(13), tables.tail[e])):
            out = attempt(parser.parse, off.to_bytes(4, "little" if e == LITTLE else "big"))
            case.check(not out.ok, "reference to no terminated string accepted", "offset %d: %r" % (off, out))
    if rng.random() < 0.5:  # items as parts of one description, decoded and encoded at once
        items = [i for i in plans[0][0] if i[4] is not None and not i[0].endswith("padded")]
        extra = []
        for _ in range(3):
            (sign, n), (le, be) = rng.choice(list(FIXED.items()))
            raw = rng.randbytes(n)
            big = rng.random() < 0.5
            extra.append((sign, be if big else le, int.from_bytes(raw, "big" if big else "little", signed=sign == "s"), raw, raw, None))
        items = items + extra
        rng.shuffle(items)
        seq = Sequence(*[i[1] for i in items])
        raw = b"".join(i[3] for i in items)
        out = attempt(seq.parse, raw)
        case.check(out.ok and list(out.value) == [i[2] for i in items], "composed items are decoded differently", "%r" % (out if len(raw) < 5000 else out.exc), stream=raw[:4000].hex())
        out = attempt(seq.build, [i[2] for i in items])
        case.check(out.ok and out.value == raw, "composed items are encoded differently", "%r" % (out if len(raw) < 5000 else out.exc))
        case.seen("composed")


# -- all short encodings and all boundaries ---------------------------------------------------
def signed_value(raw):
    v, n = 0, 7 * len(raw)
    for i, b in enumerate(raw):
        v += (b % 128) * 128**i
    return v - (1 << n) if v >= 1 << (n - 1) else v


def shorts(case):
    """All encodings of one and two bytes, in slices of the second byte, with a third byte behind."""
    i = case.index
    raws = [bytes([b]) for b in range(128)] if i == 0 else []
    raws += [bytes([a, b]) for a in range(128, 256) for b in range(i % 128, 128, 128)]
    raws += [bytes([a, b, i % 128]) for a in range(128, 256, 9) for b in range(128, 256, 9)]
    case.sample("encodings %s ..." % [r.hex() for r in raws[:5]])
    for raw in raws:
        u, s = sum((b % 128) * 128**k for k, b in enumerate(raw)), signed_value(raw)
        for name, want in (("uleb", u), ("sleb", s)):
            r = PlainBinaryReader(io.BytesIO(raw + b"\x81\x7f"), "<")
            out = attempt(getattr(r, name))
            case.check(out.ok and out.value == want and r.pos == len(raw), "decoded value differs", "%s of %s: %r, expected %d" % (name, raw.hex(), out, want))
            fp = io.BytesIO(raw + b"\x81\x7f")
            out = attempt((en.ULEB if name == "uleb" else en.SLEB).parse_stream, fp)
            case.check(out.ok and out.value == want and fp.tell() == len(raw), "decoded value differs", "%s of %s: %r, expected %d" % (name, raw.hex(), out, want))
            case.seen("short LEBs", 2)
    case.distinct("short", i % 128)
    k = i % 20  # boundaries of k digits, and of k digits with a sign bit
    for base, d in itertools.product(((1 << 7 * k) - 1, 1 << 7 * k, 1 << (7 * k + 6)), range(-3, 4)):
        for sign in (1, -1):
            v = sign * (base + d)
            for name, parser, f in (("uleb", en.ULEB, uleb), ("sleb", en.SLEB, sleb)):
                if name == "uleb" and v < 0:
                    out = attempt(parser.build, v)
                    case.check(not out.ok, "negative value encoded as unsigned", "%d: %r" % (v, out))
                    continue
                out = attempt(parser.build, v)
                case.check(out.ok and out.value == f(v), "encoding differs", "%s of %d: %r" % (name, v, out))
                back = attempt(parser.parse, f(v))
                case.check(back.ok and back.value == v, "decoded value differs", "%s of %s: %r, expected %d" % (name, f(v).hex(), back, v))
                case.seen("boundary values")


STREAMS = [Stream("readers", readers, 3000, 150000), Stream("encodings", encodings, 3000, 150000), Stream("shorts", shorts, 128, 640)]
