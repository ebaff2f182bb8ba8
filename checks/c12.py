"""C12: checksum and byte helper primitives compute their defined functions."""
import array
import ctypes
import enum
import os

from objutils import checksums as cs
from objutils.section import filler
from objutils.utils import Curry, StructureWithEnums, create_memorymapped_fileview, cygpath_to_win, ffs, int_to_array, make_list, slicer

from vlib import gen
from vlib.core import Stream, attempt

PROPERTY = "C12"
LEVEL = "exploration"
QUICK_SCALE = 4
RULE = ("byte sequences of every length 0..300 with varied contents, and all one- and two-byte sequences, through every algorithm, compared with bitwise "
        "definitions written independently of tables; every input given as list, tuple, bytes, bytearray and array and again after other computations; "
        "distinct = distinct (algorithm, length, type of the sequence, class of contents)")
REQUIRED = {"checksums": 50000, "retyped inputs": 20000, "repeated computations": 5000, "all byte pairs": 1000, "helpers": 5000, "fillers": 200, "mapped files": 200, "partial applications": 600}


# -- definitions -------------------------------------------------------------------------
def crc(data, width, poly, init, refin, refout, xorout):
    """Bit by bit, most significant bit first."""
    reg = init
    for b in data:
        bits = [(b >> i) & 1 for i in (range(8) if refin else range(7, -1, -1))]
        for bit in bits:
            top = (reg >> (width - 1)) & 1
            reg = (reg << 1) & ((1 << width) - 1)
            if top ^ bit:
                reg ^= poly
    if refout:
        reg = int(format(reg, "0%db" % width)[::-1], 2)
    return reg ^ xorout


def words(data, n):
    return [int.from_bytes(data[i : i + n], "little") for i in range(0, len(data), n)]


def rol(v):
    return ((v << 1) | (v >> 7)) & 0xFF


def ror(v):
    return ((v >> 1) | (v << 7)) & 0xFF


def rot(data, width, f):
    v = 0
    for b in data:
        v = f(v ^ b)
    return v % (1 << width)


REF = {
    "CHK_ADD_11": lambda d: sum(d) % 256,
    "CHK_ADD_12": lambda d: sum(d) % 65536,
    "CHK_ADD_14": lambda d: sum(d) % (1 << 32),
    "CHK_ADD_22": lambda d: sum(words(d, 2)) % 65536,
    "CHK_ADD_24": lambda d: sum(words(d, 2)) % (1 << 32),
    "CHK_ADD_44": lambda d: sum(words(d, 4)) % (1 << 32),
    "CHK_CRC_16": lambda d: crc(d, 16, 0x8005, 0, True, True, 0),
    "CHK_CRC_16_CCITT": lambda d: crc(d, 16, 0x1021, 0xFFFF, False, False, 0),
    "CHK_CRC_32": lambda d: crc(d, 32, 0x04C11DB7, 0xFFFFFFFF, True, True, 0xFFFFFFFF),
}
STEP = {"CHK_ADD_22": 2, "CHK_ADD_24": 2, "CHK_ADD_44": 4}


def xor_ref(d, start):
    for b in d:
        start ^= b
    return start


# (name, call on a sequence, definition on bytes)
FUNCS = [(a, lambda d, a=a: cs.check(d, a), REF[a]) for a in REF]
for width in (4, 7, 8, 12, 16, 24, 32):
    FUNCS += [
        ("lrc/%d/none" % width, lambda d, w=width: cs.lrc(d, w), lambda d, w=width: sum(d) % (1 << w)),
        ("lrc/%d/none*" % width, lambda d, w=width: cs.lrc(d, w, cs.COMPLEMENT_NONE), lambda d, w=width: sum(d) % (1 << w)),
        ("lrc/%d/ones" % width, lambda d, w=width: cs.lrc(d, w, cs.COMPLEMENT_ONES), lambda d, w=width: (1 << w) - 1 - sum(d) % (1 << w)),
        ("lrc/%d/twos" % width, lambda d, w=width: cs.lrc(d, w, cs.COMPLEMENT_TWOS), lambda d, w=width: -sum(d) % (1 << w)),
    ]
FUNCS += [
    ("nibble_sum", cs.nibble_sum, lambda d: sum(int(c, 16) for b in d for c in "%02x" % b) % 256),
    ("xor", cs.xor, lambda d: xor_ref(d, 0xFF)),
    ("xor/plain", lambda d: cs.xor(d, False), lambda d: xor_ref(d, 0)),
    ("xor/invert", lambda d: cs.xor(d, invert=True), lambda d: xor_ref(d, 0xFF)),
] + [("rotated/%s/%d" % (n, w), lambda d, w=w, f=f: cs.rotatedXOR(d, w, f), lambda d, w=w, g=g: rot(d, w, g))
     for n, f, g in (("left", cs.ROTATE_LEFT, rol), ("right", cs.ROTATE_RIGHT, ror)) for w in (1, 4, 7, 8, 16)]
TYPES = [list, tuple, bytes, bytearray, lambda d: array.array("B", d), lambda d: memoryview(bytes(d))]


def contents(rng, n):
    k = rng.choice(["random", "zeros", "ones", "ramp", "sparse", "one bit", "patterns"])
    if k == "random":
        return k, rng.randbytes(n)
    if k == "zeros":
        return k, bytes(n)
    if k == "ones":
        return k, b"\xff" * n
    if k == "ramp":
        return k, bytes((i * 7 + n) & 0xFF for i in range(n))
    if k == "patterns":
        return k, gen.rand_bytes(rng, n)
    d = bytearray(n)
    for _ in range(1 if k == "one bit" else 3):
        if n:
            d[rng.randrange(n)] = 1 << rng.randrange(8)
    return k, bytes(d)


def check_one(case, name, fn, ref, data, kind="", cls=""):
    want = ref(data)
    got = attempt(fn, data)
    case.check(got.ok and got.value == want and isinstance(got.value, int), "%s differs from its definition" % name, "%s of %d bytes: %r, expected %#x" % (name, len(data), got, want), data=data.hex())
    case.seen("checksums")
    return want


def sequences(case):
    rng = case.rng
    n = case.index % 301
    cls, data = contents(rng, n)
    case.note(data=data.hex())
    todo = list(FUNCS)
    rng.shuffle(todo)
    results = {}
    for name, fn, ref in todo:
        step = STEP.get(name, 1)
        d = data[: n - n % step]
        results[name] = (d, check_one(case, name, fn, ref, d))
        t = rng.choice(TYPES)
        arg = t(d)
        before = bytes(d)
        got = attempt(fn, arg)
        case.check(got.ok and got.value == results[name][1], "%s depends on the type of its input" % name, "%s: %r" % (type(arg).__name__, got))
        case.check(bytes(arg) == before, "input modified by %s" % name)
        case.seen("retyped inputs")
        case.distinct(name, n, type(arg).__name__, cls)
    # after other computations the results are still the same
    for name, fn, _ in rng.sample(todo, 10):
        d, want = results[name]
        case.check(fn(d) == want, "%s depends on earlier computations" % name)
        case.seen("repeated computations")
    if n % 4:
        for name, step in STEP.items():
            if n % step:
                out = attempt(cs.check, data, name)
                case.check(not out.ok, "incomplete last word accepted (%s)" % name, repr(out))
    case.sample("%d bytes (%s): %d functions" % (n, cls, len(FUNCS)))


def pairs(case):
    """All one- and two-byte sequences through the table-driven and bit-twiddling functions."""
    a = case.index
    single = [f for f in FUNCS if "CRC" in f[0] or f[0] in ("nibble_sum", "xor", "rotated/left/8", "rotated/right/8", "lrc/8/ones", "lrc/8/twos")]
    for name, fn, ref in single:
        check_one(case, name, fn, ref, bytes([a]))
        for b in range(0, 256, 1 if case.tier == "thorough" else 5):
            check_one(case, name, fn, ref, bytes([a, (b + a) & 0xFF]))
            case.seen("all byte pairs")
    for w in (1, 4, 8, 12, 16, 32):
        v = (a * 0x01010101 + a) & ((1 << w) - 1)
        case.equal(cs.reflect(v, w), int(format(v, "0%db" % w)[::-1], 2), "reflect differs from its definition")
    case.equal(cs.rolb(a), rol(a), "rolb differs from its definition")
    case.equal(cs.rorb(a), ror(a), "rorb differs from its definition")
    case.equal(cs.rolb(a | 0x300), rol(a), "rolb differs from its definition")
    case.equal(cs.rorb(a | 0x300), ror(a), "rorb differs from its definition")


def long_ones(case):
    """Sums large enough to wrap every modulus."""
    rng = case.rng
    n = rng.choice([300, 1000, 4096, 65536 + 4, 70000])
    data = rng.choice([b"\xff" * n, rng.randbytes(n)])
    for name in ("CHK_ADD_11", "CHK_ADD_12", "CHK_ADD_14", "CHK_ADD_22", "CHK_ADD_24", "CHK_ADD_44"):
        check_one(case, name, lambda d, a=name: cs.check(d, a), REF[name], data[: n - n % 4])
    for name, fn, ref in FUNCS:
        if name.startswith(("lrc", "nibble", "xor", "rotated")):
            check_one(case, name, fn, ref, data)
    for name in ("CHK_CRC_16", "CHK_CRC_16_CCITT", "CHK_CRC_32"):
        check_one(case, name, lambda d, a=name: cs.check(d, a), REF[name], data)
    helpers(case, n + rng.randint(0, 9))
    big = b"\xff" * (4 * ((1 << 16) // (case.index % 7 + 1) + 8))
    check_one(case, "CHK_ADD_44", lambda d: cs.check(d, "CHK_ADD_44"), REF["CHK_ADD_44"], big)


def unknown(case):
    rng = case.rng
    for name in ("", "CHK_ADD_33", "chk_add_11", None, "CRC", "CHK_CRC_64", "CHK_USER_DEFINED", 1):
        out = attempt(cs.check, rng.randbytes(4), name)
        case.check(not out.ok and isinstance(out.exc, NotImplementedError), "unknown algorithm accepted", "%r: %r" % (name, out))


def helpers(case, n=None):
    rng = case.rng
    huge = n is not None
    n = n or rng.choice([0, 1, 2, 15, 16, 17, 32, rng.randint(0, 200)])
    w = rng.choice([1, 2, 3, 7, 16, 32, 250] + [1000, 65536] * huge)
    data = rng.randbytes(n)
    for t, empty in ((bytes, b""), (bytearray, bytearray()), (list, []), (tuple, ())):
        seq = t(data)
        got = slicer(seq, w)
        case.check(all(type(x) is t for x in got), "slices of wrong type", t.__name__)
        flat = b"".join(bytes(x) for x in got)
        case.check(flat == data and all(len(x) == w for x in got[:-1]) and (not got or 0 < len(got[-1]) <= w), "slices are wrong", "%s of %d by %d" % (t.__name__, n, w))
        conv = slicer(seq, w, bytes)
        case.check(all(type(x) is bytes for x in conv) and b"".join(conv) == data, "slices are wrong")
    v = rng.choice([0, 1, 255, 256, rng.getrandbits(rng.randint(1, 70)), (1 << rng.randint(0, 70)), (1 << rng.randint(1, 70)) - 1])
    got = int_to_array(v)
    case.check(got == list(v.to_bytes(max(1, (v.bit_length() + 7) // 8), "big")), "int_to_array is wrong", "%#x: %r" % (v, got))
    if v:
        case.check(ffs(v) == (v & -v).bit_length() - 1, "ffs is wrong", "%#x" % v)
    case.equal(ffs(0), 0, "ffs is wrong")
    parts = [rng.choice([lambda: rng.randrange(256), lambda: [rng.randrange(256) for _ in range(rng.randint(0, 4))], lambda: tuple(rng.randbytes(2)), lambda: bytearray(b"ab")])() for _ in range(rng.randint(0, 5) if not huge else n)]
    flat = []
    for p in parts:
        flat += [p] if isinstance(p, int) else list(p)
    case.check(make_list(*parts) == flat, "make_list is wrong", repr(parts))
    case.seen("helpers", 4)
    case.distinct("helpers", n, w, v.bit_length())


class Colour(enum.IntEnum):
    BLACK = 0
    WHITE = 255
    RED = 1
    GREEN = 2
    BLUE = 7


def utilities(case):
    """Filling blocks, mapped files, Cygwin paths, partial application, structures with enumerations."""
    rng = case.rng
    ch, n = rng.choice([0, 1, 0x7F, 0x80, 0xFE, 0xFF, rng.randrange(256)]), rng.choice([1, 2, 3, 16, 255, rng.randint(1, 3000), 65535, 65536, 65537, rng.randint(1, 1 << 20)])
    got = attempt(filler, ch, n)
    case.check(got.ok and type(got.value) is bytearray and got.value == bytes([ch]) * n, "filler is wrong", "filler(%d, %d): %.80r" % (ch, n, got))
    for bad in ((-1, n), (256, n), (ch, 0), (ch, -n), (ch, 1.5), (None, 1), ("a", 1), (1.0, 2), (rng.randint(256, 1 << 40), 1)):
        out = attempt(filler, *bad)
        case.check(not out.ok and isinstance(out.exc, (ValueError, TypeError)), "filler accepts invalid arguments", "%r: %.80r" % (bad, out))
    case.seen("fillers")

    data = rng.randbytes(rng.choice([1, 2, 100, 4095, 4096, 4097, 65536, 65537, rng.randint(1, 20000), rng.randint(1, 300000)]))
    path = os.path.join(case.scratch, "mapped file")
    with open(path, "wb") as f:
        f.write(data)
    fds = len(os.listdir("/proc/self/fd"))
    view = create_memorymapped_fileview(path)
    case.check(isinstance(view, memoryview) and view.readonly and bytes(view) == data, "mapped view of a file is wrong")
    out = attempt(view.__setitem__, 0, 1)
    case.check(not out.ok, "read-only view can be written")
    rw = create_memorymapped_fileview(path, writeable=True)
    case.check(not rw.readonly and bytes(rw) == data, "mapped view of a file is wrong")
    want = bytearray(data)
    for _ in range(5):
        i = rng.randrange(len(want))
        want[i] = rw[i] = rng.randrange(256)
    with open(path, "rb") as f:
        case.check(f.read() == want, "writes to the view do not reach the file")
    case.check(bytes(view) == want, "views of one file differ")
    for v in (view, rw):
        m = v.obj
        v.release()
        m.close()
    del view, rw, v, m
    case.check(len(os.listdir("/proc/self/fd")) == fds, "mapped view leaks descriptors")
    os.unlink(path)
    case.seen("mapped files")

    parts = [rng.choice(["a", "etc", "x y", "b.c", "cygdrive", "Ä"]) for _ in range(rng.randint(0, 4))]
    if parts and rng.random() < 0.3:
        parts += [""] * rng.randint(1, 2)  # (ends with separators)
    if rng.random() < 0.2:
        parts.insert(rng.randint(0, len(parts)), rng.choice(["..", ".", "", "a.", "a\\b", " x ", "c:"]))
    drive = rng.choice("cdXz")
    case.equal(cygpath_to_win("/cygdrive/%s/%s" % (drive, "/".join(parts))), drive + ":" + "\\" + "\\".join(parts), "Cygwin path converted wrongly")
    for other in ("/".join(parts), "/x" + "/".join(parts), "/usr/cygdrive/c/a", "cygdrive/c/a", "C:\\a/b", ""):
        case.equal(cygpath_to_win(other), other, "other path changed")

    calls = []

    def fun(*args, **kw):
        calls.append((args, kw))
        return len(calls)

    pa, pk = tuple(rng.sample(range(9), rng.randint(0, 3))), {k: rng.randrange(9) for k in rng.sample("abc", rng.randint(0, 3))}
    given = dict(pk)
    curried = Curry(fun, *pa, **given)
    for i in range(3):
        a, k = tuple(rng.sample(range(9), rng.randint(0, 3))), {k: 10 + rng.randrange(9) for k in rng.sample("abcd", rng.randint(0, 3))}
        case.equal(curried(*a, **k), i + 1, "result of the wrapped function is lost")
        case.equal(calls[-1], (pa + a, {**pk, **k}), "partial application passes wrong arguments")
    case.seen("partial applications", 3)

    class Rec(StructureWithEnums):
        _fields_ = [("x", ctypes.c_uint8), ("colour", ctypes.c_uint8), ("row", ctypes.c_uint8 * 3), ("y", ctypes.c_uint16)]
        _map = {"colour": Colour, "row": Colour}

    r = Rec()
    vals = dict(x=rng.randrange(256), colour=rng.choice(list(Colour)), row=[rng.choice(list(Colour)) for _ in range(3)], y=rng.randrange(65536))
    r.x, r.colour, r.y = vals["x"], vals["colour"], vals["y"]
    ctypes.Structure.__getattribute__(r, "row")[:] = [int(v) for v in vals["row"]]
    for k, v in vals.items():
        got = getattr(r, k)
        case.check(got == v and ((type(got) is Colour) == (k == "colour")) and (k != "row" or all(type(e) is Colour for e in got)), "structure field is wrong", "%s: %r, expected %r" % (k, got, v))
    case.distinct("utilities", n, len(data) % 4096, len(parts), len(pa), len(pk))


STREAMS = [
    Stream("sequences", sequences, 301 * 6, 301 * 60),
    Stream("pairs", pairs, 256, 256),
    Stream("long", long_ones, 16, 100),
    Stream("unknown", unknown, 8, 8),
    Stream("helpers", helpers, 3000, 20000),
    Stream("utilities", utilities, 300, 3000),
]
