"""C09: typed memory access reads back what was written, in the stated byte order."""
import math
import struct

import numpy as np
from objutils import Image, Section
from objutils.exceptions import InvalidAddressError

from vlib import gen, model, ops
from vlib.core import Stream, attempt
from vlib.model import Model

PROPERTY = "C09"
LEVEL = "exploration"
QUICK_SCALE = 3
RULE = ("all 10 numeric types x byte orders x access kinds (scalar, masked, array, numpy, string) at every offset around the edges of a region, on images and "
        "sections, with whole-memory snapshots around every access; distinct = distinct (target, type, byte order, access kind, position class, value class)")
REQUIRED = {"written values": 20000, "read back": 20000, "rejected values": 3000, "rejected accesses": 3000, "rejected type names": 1000, "masked reads": 3000,
            "strings": 2000, "numpy arrays": 3000, "huge accesses": 20}
ALL = [(t, o) for t in model.TYPES for o in ("le", "be")]


class Target:
    """An image or a section with a shadow."""

    def __init__(self, case, regions=None):
        rng = case.rng
        self.case = case
        if rng.random() < 0.3:
            self.regions = regions or ops.rand_regions(rng, n=1)
            self.obj = Section(self.regions[0][0], ops.as_input(rng, self.regions[0][1]))
            self.kind = "section"
            self.regions = self.regions[:1]
        else:
            self.regions = regions or ops.rand_regions(rng)
            self.obj = Image([Section(a, d) for a, d in self.regions])
            self.kind = "image"
        self.m = Model(self.regions)

    def layout(self):
        if self.kind == "section":
            return [(self.obj.start_address, bytes(self.obj.data))]
        return ops.layout_of(self.obj)

    def unchanged_but(self, addr, data, what):
        """Exactly the addressed bytes were written."""
        if data is not None:
            self.m.write(addr, data)
        got = self.layout()
        self.case.ev()
        if got != self.m.layout():
            self.case.fail("memory differs after %s" % what.split("(")[0], what, got=got, want=self.m.layout())


def value_class(v):
    if isinstance(v, float):
        return "nan" if v != v else "inf" if math.isinf(v) else "zero" if v == 0 else "subnormal" if abs(v) < 1e-38 else "normal"
    return (v < 0, abs(v).bit_length())


def place(rng, m, n):
    """An address at which n bytes fit, or None."""
    fit = [(a, len(d)) for a, d in m.regions if len(d) >= n]
    if not fit:
        return None, None
    a, ln = rng.choice(fit)
    k = rng.choice(["start", "end", "inside"])
    return (a if k == "start" else a + ln - n if k == "end" else a + rng.randint(0, ln - n)), k


def name_of(rng, t, o):
    n = "%s_%s" % (t, o)
    k = rng.random()
    if k < 0.05:
        return n.upper()
    if t == "uint8" and k < 0.15:
        return rng.choice(["byte", "BYTE"])
    return n


def scalars(case):
    rng = case.rng
    t, o = ALL[case.index % len(ALL)]
    tg = Target(case)
    case.note(target=tg.kind, regions=[(hex(a), d.hex()) for a, d in tg.regions], type=t, order=o)
    n = model.size(t)
    for _ in range(8):
        a, where = place(rng, tg.m, n)
        if a is None:
            break
        v = model.rand_value(rng, t)
        if t in model.FLOATS and rng.random() < 0.1:
            v = rng.choice([7, 0, -3, True])  # integers are fine values for a float
        name = name_of(rng, t, o)
        what = "write_numeric(%#x, %r, %s)" % (a, v, name)
        out = attempt(tg.obj.write_numeric, a, v, name)
        case.check(out.ok, "write failed", "%s: %r" % (what, out))
        tg.unchanged_but(a, model.encode(v, t, o), what)
        case.seen("written values")
        back = attempt(tg.obj.read_numeric, a, name_of(rng, t, o))
        want = model.decode(model.encode(v, t, o), t, o)
        case.check(back.ok and (model.same(back.value, want)), "value read back differs", "%s, then %r, expected %r" % (what, back, want))
        if t in model.INTS:
            case.check(back.value == v and isinstance(back.value, int), "value read back differs", "%s, then %r" % (what, back))
        elif t == "float64":
            case.check(struct.pack("<d", back.value) == struct.pack("<d", v), "value read back differs", what)
        one = attempt(tg.obj.read_numeric_array, a, 1, name)
        case.check(one.ok and len(one.value) == 1 and model.same(one.value[0], want), "value read back differs", "%s, then %r" % (what, one))
        case.check(bytes(tg.obj.read(a, n)) == model.encode(v, t, o), "raw bytes differ", what)
        tg.unchanged_but(a, None, "read_numeric")
        case.seen("read back")
        case.distinct(tg.kind, t, o, "scalar", where, value_class(v))
        if t in model.INTS:
            mask = rng.choice([0, 1, (1 << (8 * n)) - 1, 1 << (8 * n - 1), rng.getrandbits(8 * n), 0xFF, 0xFF00 & ((1 << 8 * n) - 1)])
            out = attempt(tg.obj.read_numeric, a, name, bit_mask=mask)
            u = int.from_bytes(model.encode(v, t, o), "little" if o == "le" else "big") & mask
            want = u - (1 << (8 * n)) if model.INTS[t][1] and u >> (8 * n - 1) else u
            case.check(out.ok and out.value == want, "masked value differs", "%s read with mask %#x: %r, expected %r" % (what, mask, out, want))
            case.seen("masked reads")
            tg.unchanged_but(a, None, "masked read")
    case.sample("%s %s_%s" % (tg.kind, t, o))


def nans(case):
    """Not-a-number survives as such; the float payload is not part of the guarantee."""
    rng = case.rng
    t, o = rng.choice(["float32", "float64"]), rng.choice(["le", "be"])
    tg = Target(case, [(rng.randint(0, 1 << 33), gen.rand_bytes(rng, 40))])
    a, _ = place(rng, tg.m, model.size(t))
    tg.obj.write_numeric(a, float("nan"), "%s_%s" % (t, o))
    raw = bytes(tg.obj.read(a, model.size(t)))
    v = model.decode(raw, t, o)
    case.check(v != v, "NaN stored as %s" % raw.hex())
    tg.unchanged_but(a, raw, "write_numeric(NaN)")
    v = tg.obj.read_numeric(a, "%s_%s" % (t, o))
    case.check(v != v, "NaN read back as %r" % v)
    case.seen("read back")


def huge(case):
    """Tens of thousands of elements, sections of hundreds of kilobytes."""
    rng = case.rng
    k = case.index % 3
    if k == 0:
        t, _ = ALL[case.index // 3 % len(ALL)]
        n = rng.choice([4096, 10000, 32768, 65535, 65536, 65537, 70000])
        base = rng.choice([0, 0x1000, 1 << 32, 0xFFFF0000])
        arrays(case, [(base - base % 8, gen.rand_bytes(rng, n * model.size(t) + rng.randint(0, 100)))], [n, 1, n - 1, n // 2])
    elif k == 1:
        numpy_arrays(case, rng.choice([(300, 301), (65537,), (3, 30000), (2, 2, 17000)]))
    else:
        strings(case, rng.choice([5000, 70000, 200000]))
    case.seen("huge accesses")


def arrays(case, regions=None, counts=None):
    rng = case.rng
    t, o = ALL[case.index % len(ALL)]
    tg = Target(case, regions or ops.rand_regions(rng, n=3) + [(1 << 33, gen.rand_bytes(rng, rng.randint(60, 300)))] if rng.random() < 0.5 else None)
    case.note(target=tg.kind, regions=[(hex(a), d.hex()) for a, d in tg.regions], type=t, order=o)
    s = model.size(t)
    for j in range(4):
        n = counts[j] if counts else rng.choice([0, 1, 2, 3, 4, 5, 8, 30])
        a, where = place(rng, tg.m, max(n * s, 1))
        if a is None:
            continue
        vs = [model.rand_value(rng, t) for _ in range(n)]
        name = name_of(rng, t, o)
        arg = rng.choice([list, tuple, lambda x: np.array(x, dtype=t)])(vs)
        what = "write_numeric_array(%#x, %r of %d, %s)" % (a, arg[:30], n, name)
        out = attempt(tg.obj.write_numeric_array, a, arg, name)
        case.check(out.ok, "write failed", "%s: %r" % (what, out))
        raw = b"".join(model.encode(v, t, o) for v in vs)
        tg.unchanged_but(a, raw, what)
        case.seen("written values", n)
        out = attempt(tg.obj.read_numeric_array, a, n, name)
        want = [model.decode(raw[i * s : i * s + s], t, o) for i in range(n)]
        case.check(out.ok and len(out.value) == n and all(map(model.same, out.value, want)), "values read back differ", "%s, then %r" % (what, out))
        tg.unchanged_but(a, None, "read_numeric_array")
        case.seen("read back", n)
        # element by element through the scalar accessor, and the other way round
        for i in range(n) if n < 100 else [0, n - 1, n // 2] + [rng.randrange(n) for _ in range(50)]:
            got = tg.obj.read_numeric(a + i * s, name)
            case.check(model.same(got, want[i]), "element read back differs", "%s: element %d is %r" % (what, i, got))
        case.distinct(tg.kind, t, o, "array", where, n, type(arg).__name__)


def numpy_arrays(case, shape=None):
    rng = case.rng
    t, o = ALL[case.index % len(ALL)]
    s = model.size(t)
    tg = Target(case, [(rng.choice([0, 0x1000, 1 << 32]), gen.rand_bytes(rng, rng.randint(8 * 12, 300) + s * int(np.prod(shape or (0,)))))])
    case.note(target=tg.kind, regions=[(hex(a), d.hex()) for a, d in tg.regions], type=t, order=o)
    shape = shape or rng.choice([(1,), (3,), (2, 2), (2, 3), (3, 2), (4,), (1, 1, 2), (2, 3, 2), (12,)])
    n = int(np.prod(shape))
    vals = [model.rand_value(rng, t) for _ in range(n)]
    dt = np.dtype(t).newbyteorder("<" if o == "le" else ">")
    layout = rng.choice(["C", "F", "slice", "transpose"])
    if layout == "slice":
        big = np.zeros(shape[:-1] + (shape[-1] * 2,), dtype=dt)
        arr = big[..., ::2]
        arr[...] = np.array(vals, dtype=dt).reshape(shape)
    elif layout == "transpose":
        arr = np.array(vals, dtype=dt).reshape(shape).T
    else:
        arr = np.array(np.array(vals, dtype=dt).reshape(shape), order=layout)
    keep = arr.copy()
    if rng.random() < 0.2:
        arr.setflags(write=False)
    flat = [x.item() for x in np.nditer(arr, order="C", flags=["zerosize_ok"])]
    a, where = place(rng, tg.m, n * s)
    what = "write_ndarray(%#x, %s array %s of %s_%s)" % (a, layout, arr.shape, t, o)
    out = attempt(tg.obj.write_ndarray, a, arr)
    case.check(out.ok, "write failed", "%s: %r" % (what, out))
    raw = b"".join(model.encode(v, t, o) for v in flat)
    tg.unchanged_but(a, raw, what)
    case.check(np.array_equal(arr, keep), "array argument modified")
    shp = arr.shape
    order = rng.choice([None, "C", "F"])
    kw = {} if order is None else {"order": order}
    out = attempt(tg.obj.read_ndarray, a, n * s, name_of(rng, t, o), shp, **kw)
    case.check(out.ok, "read failed", "%s, then %r" % (what, out))
    got = out.value.T if order == "F" else out.value
    case.check(got.shape == shp and got.dtype == dt, "wrong shape or type", "%s, then %s %s" % (what, got.dtype, got.shape))
    case.check(all(map(model.same, [x.item() for x in np.nditer(got, order="C")], flat)), "values read back differ", "%s, then %r" % (what, got))
    tg.unchanged_but(a, None, "read_ndarray")
    again = tg.obj.read_numeric_array(a, n, "%s_%s" % (t, o))
    case.check(all(map(model.same, again, flat)) and len(again) == n, "values read back differ", what)
    out = attempt(tg.obj.write_ndarray, a, rng.choice([vals, tuple(vals), bytes(4), None]))
    case.check(not out.ok, "invalid value or type accepted", "write_ndarray of something else: %r" % out)
    tg.unchanged_but(a, None, "write_ndarray(no array)")
    case.seen("numpy arrays")
    case.seen("rejected values")
    case.distinct(tg.kind, t, o, "ndarray", shape, layout, order, where)


def rejected_values(case):
    rng = case.rng
    t, o = ALL[case.index % len(ALL)]
    tg = Target(case)
    s = model.size(t)
    a, where = place(rng, tg.m, s)
    if a is None:
        return
    case.note(target=tg.kind, type=t, order=o, address=hex(a))
    if t in model.INTS:
        n, signed = model.INTS[t]
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        bad = [lo - 1, hi + 1, lo - rng.randint(1, 1 << 70), hi + rng.randint(1, 1 << 70), (1 << (8 * n)), -(1 << (8 * n)), 1.5, "1", None, b"\1"]
    elif t == "float32":
        bad = [1e39, -1e300, "1.0", None, b"\0\0\0\0"]
    else:
        bad = ["1.0", None, b"\0\0\0\0", 10**400]
    for v in bad:
        what = "write_numeric(%#x, %r, %s_%s)" % (a, v, t, o)
        out = attempt(tg.obj.write_numeric, a, v, "%s_%s" % (t, o))
        case.check(not out.ok, "value out of range accepted (%s)" % t, "%s: %r" % (what, out))
        tg.unchanged_but(a, None, what)
        good = [model.rand_value(rng, t) for _ in range(rng.randint(0, 2))]
        arr = good + [v] + good
        out = attempt(tg.obj.write_numeric_array, a, arr, "%s_%s" % (t, o))
        case.check(not out.ok, "value out of range accepted (%s)" % t, "write_numeric_array(%#x, %r): %r" % (a, arr, out))
        tg.unchanged_but(a, None, "write_numeric_array(bad)")
        case.seen("rejected values", 2)
        case.distinct(tg.kind, t, o, "bad value", repr(v)[:12])


BAD_NAMES = ["uint16", "int8", "float32", "int24_le", "uint16_xx", "foo", "", "uint128_le", "float16_le", "double_le", "uint_le", "16_le", "le", "_le", "_be",
             "uint16_lebe", "int 8_le", "uint16_le_be", "float_le", "uint32le", "uint32.le", "xuint8_le", "byte_be", "byte_le", "bytes", "uint8_me", "float80_be",
             "sint16_le", "u_int16_le", "int64_l", "float128_le", "uint16-le", "bool_le", "int8_be_", "float64"]


def rejected_names(case):
    rng = case.rng
    tg = Target(case, [(rng.choice([0, 0x4000]), gen.rand_bytes(rng, 64))])
    name = BAD_NAMES[case.index % len(BAD_NAMES)]
    if rng.random() < 0.2:
        name = name.upper()
    a = tg.regions[0][0] + rng.randint(0, 20)
    calls = {"read_numeric": (a, name), "write_numeric": (a, 1, name), "read_numeric_array": (a, 2, name), "write_numeric_array": (a, [1, 2], name),
             "read_ndarray": (a, 4, name, (-1,)), "masked": (a, name)}
    for fn, args in calls.items():
        out = attempt(tg.obj.read_numeric, *args, bit_mask=1) if fn == "masked" else attempt(getattr(tg.obj, fn), *args)
        case.check(not out.ok, "unknown type name accepted (%s)" % fn, "%s%r: %r" % (fn, args, out))
        tg.unchanged_but(a, None, fn)
        case.seen("rejected type names")
    case.distinct("name", name, tg.kind)


def crossing(case):
    """Every access position around the end (and the start) of a region, for every type and access kind."""
    rng = case.rng
    t, o = ALL[case.index % len(ALL)]
    s = model.size(t)
    tg = Target(case)
    case.note(target=tg.kind, regions=[(hex(a), d.hex()) for a, d in tg.regions], type=t, order=o)
    name = "%s_%s" % (t, o)
    a, d = rng.choice(tg.m.regions)
    end = a + len(d)
    for addr in sorted({end - s - 1, end - s, end - s + 1, end - 1, end, a - 1, a - s, a} - {-1}):
        if addr < 0:
            continue
        for n in (1, 2):
            v = [model.rand_value(rng, t) for _ in range(n)]
            arr = np.array(v, dtype=np.dtype(t).newbyteorder("<" if o == "le" else ">"))
            text = "".join(chr(rng.randint(1, 255)) for _ in range(n * s - 1))
            raw = b"".join(model.encode(x, t, o) for x in v)
            calls = [("read", (addr, n * s), None), ("read_numeric_array", (addr, n, name), None), ("read_ndarray", (addr, n * s, name, (n,)), None),
                     ("read_string", (addr, "latin1", n * s), None), ("write_numeric_array", (addr, v, name), raw), ("write_ndarray", (addr, arr), raw),
                     ("write", (addr, raw), raw), ("write_string", (addr, text), text.encode("latin1") + b"\0")]
            if n == 1:
                calls += [("read_numeric", (addr, name), None), ("write_numeric", (addr, v[0], name), raw)]
            rng.shuffle(calls)
            for fn, args, data in calls:
                out = attempt(getattr(tg.obj, fn), *args)
                fits = True
                try:
                    tg.m.read(addr, n * s)
                except model.Refused:
                    fits = False
                if fits:
                    case.check(out.ok, "%s failed" % fn, "%s%r: %r" % (fn, args, out))
                    tg.unchanged_but(addr, data, fn)
                else:
                    case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "access out of bounds not rejected (%s)" % fn, "%s%r: %r" % (fn, args, out))
                    tg.unchanged_but(addr, None, fn)
                    case.seen("rejected accesses")
                case.distinct(tg.kind, t, o, fn, n, addr - end, addr - a, fits)


def strings(case, length=0):
    rng = case.rng
    tg = Target(case, [(rng.choice([0, 0x1000, 1 << 32]), gen.rand_bytes(rng, rng.choice([4, 10, 60, 100]) + 4 * length))])
    a = tg.regions[0][0] + rng.choice([0, 0, 1, rng.randrange(len(tg.regions[0][1]) - 3 * length)])
    enc, s = ops.rand_string(rng)
    if length:
        s = (s or "x") * (length // (len(s) or 1))
    case.note(target=tg.kind, encoding=enc, string=s, address=hex(a), region=(hex(tg.regions[0][0]), len(tg.regions[0][1])))
    data = s.encode(enc)
    kw = {} if enc == "latin1" and rng.random() < 0.5 else {"encoding": enc}
    out = attempt(tg.obj.write_string, a, s, **kw)
    room = tg.regions[0][0] + len(tg.regions[0][1]) - a
    case.seen("strings")
    case.distinct(tg.kind, "string", enc, len(s), room - len(data))
    if len(data) + 1 > room:
        case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "string out of bounds not rejected", "%r" % out)
        tg.unchanged_but(a, None, "write_string")
        case.seen("rejected accesses")
        return
    case.check(out.ok, "write failed", "%r" % out)
    tg.unchanged_but(a, data + b"\0", "write_string")
    out = attempt(tg.obj.read_string, a, length=len(data), **kw)
    case.check(out.ok and out.value == s, "string read back differs", "%r" % out)
    if b"\0" not in data:
        out = attempt(tg.obj.read_string, a, **kw)
        case.check(out.ok and out.value == s, "string read back differs", "%r" % out)
    tg.unchanged_but(a, None, "read_string")
    out = attempt(tg.obj.write_string, a, "\u20ac\U0001f600", encoding="ascii")
    case.check(not out.ok, "unencodable string accepted", "%r" % out)
    tg.unchanged_but(a, None, "write_string(unencodable)")
    # an unterminated string at the end
    end = tg.regions[0][0] + len(tg.regions[0][1])
    n = min(room, rng.randint(1, 8))
    fill = bytes(rng.randint(1, 127) for _ in range(n))
    tg.obj.write(end - n, fill)
    tg.unchanged_but(end - n, fill, "write")
    out = attempt(tg.obj.read_string, end - n)
    case.check(not out.ok, "unterminated string read", "%r" % out)
    out = attempt(tg.obj.read_string, end - n, length=n)
    case.check(out.ok and out.value == fill.decode("latin1"), "string read back differs", "%r" % out)
    out = attempt(tg.obj.read_string, end - n, length=n + rng.randint(1, 5))
    case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "string out of bounds not rejected", "%r" % out)
    tg.unchanged_but(a, None, "read_string")


KINDS = ["numeric_read", "numeric_write", "array_read", "array_write", "bad_value", "string_write", "string_read", "ndarray_write", "ndarray_read", "write"]


def mixed(case):
    """Mixed typed histories: reinterpretation of the same bytes under different types."""
    rng = case.rng
    regions = ops.rand_regions(rng)
    case.note(regions=[(hex(a), d.hex()) for a, d in regions])
    drv = ops.Driver(case, Image([Section(a, d) for a, d in regions]), Model(regions))
    for _ in range(rng.randint(5, 25)):
        drv.step(KINDS)


N = len(ALL)
STREAMS = [
    Stream("huge", huge, 8, 600),
    Stream("scalars", scalars, N * 600, N * 8000),
    Stream("NaN", nans, 300, 3000),
    Stream("arrays", arrays, N * 120, N * 2400),
    Stream("numpy", numpy_arrays, N * 200, N * 4000),
    Stream("rejected values", rejected_values, N * 80, N * 1200),
    Stream("rejected names", rejected_names, len(BAD_NAMES) * 20, len(BAD_NAMES) * 200),
    Stream("crossing", crossing, N * 80, N * 1200),
    Stream("strings", strings, 3000, 60000),
    Stream("mixed", mixed, 1500, 30000),
]
