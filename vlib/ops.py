"""Random operations on objutils.Image under the model of vlib.model (used by C08, C09, C10, C22)."""
import array
import io

import numpy as np
from objutils import Image, Section
from objutils.exceptions import InvalidAddressError

from . import gen, model
from .core import attempt
from .model import Refused


def layout_of(image):
    return [(s.start_address, bytes(s.data)) for s in image.sections]


def rand_regions(rng, limit=1 << 32, n=None):
    """Disjoint regions, sometimes adjacent; small gaps so that accesses cross them."""
    out = []
    a = rng.choice([0, 1, 0x10, 0x1000, 0xFFF0, 0x10000 - 20, rng.randint(0, limit - 4096)])
    for _ in range(n or rng.choice([1, 1, 2, 3, 4, 5])):
        ln = rng.choice([1, 2, 3, 8, 9, 16, 17, 33, rng.randint(1, 80)])
        out.append((a, gen.rand_bytes(rng, ln)))
        a += ln + rng.choice([0, 0, 1, 2, 3, 8, 100, 0x10000])
    return out


def rand_addr(rng, m):
    """Addresses around the edges of the regions."""
    if not m.regions:
        return rng.randint(0, 100)
    a, d = rng.choice(m.regions)
    k = rng.random()
    if k < 0.35:
        return max(0, a + rng.choice([0, 1, -1, -2, len(d) - 1, len(d), len(d) + 1]))
    if k < 0.9:
        return a + rng.randrange(len(d))
    return rng.choice([0, max(0, a - 100), a + len(d) + 50, 1 << 32, 1 << 40])


def as_input(rng, data):
    """The same bytes in one of the accepted representations."""
    k = rng.choice(["bytes", "bytearray", "list", "tuple", "array", "str", "words", "section", "memoryview"])
    if k == "bytes":
        return bytes(data)
    if k == "bytearray":
        return bytearray(data)
    if k == "list":
        return list(data)
    if k == "tuple":
        return tuple(data)
    if k == "array":
        return array.array("B", data)
    if k == "memoryview":
        return memoryview(bytes(data))
    if k == "str" and all(b < 128 for b in data):
        return bytes(data).decode("ascii")
    if k == "words" and len(data) % 2 == 0:
        return array.array("H", bytes(data))
    if k == "section":
        return Section(rng.randint(0, 100), data)
    return bytes(data)


def refused(case, out, what, n=1):
    if n == 0:
        return  # an empty access outside of every region: either answer is fine
    case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "access out of bounds not rejected (%s)" % what, "%s: %r" % (what, out))
    case.seen("rejected accesses")


class Driver:
    """One image and its model, in lock step."""

    def __init__(self, case, image, m, target="image"):
        self.case, self.image, self.m, self.rng = case, image, m, case.rng
        self.log = []
        self.scale = 1

    def many(self, n):
        """A number of items, in huge images sometimes a large one."""
        if self.scale > 1 and n > 0 and self.rng.random() < 0.5:
            return n * self.rng.choice([self.scale // 16, self.scale, self.scale + 1, self.rng.randint(1, self.scale)])
        return n

    def verify(self, what):
        got = layout_of(self.image)
        want = self.m.layout()
        if got != want:
            self.case.fail("state differs after %s" % what.split("(")[0], "after %s" % what, got=got, want=want, history=self.log[-12:])
        self.case.ev()
        self.case.check(len(self.image) == len(self.m), "wrong length of image")

    def step(self, kinds=None):
        kind = self.rng.choice(kinds or ALL_KINDS)
        getattr(self, "op_" + kind)()
        self.case.seen("op " + kind)
        self.verify(self.log[-1])

    # -- operations -----------------------------------------------------------------
    def op_read(self):
        rng = self.rng
        a, n = rand_addr(rng, self.m), rng.choice([0, 1, 2, 3, 4, 8, 16, 17, 64, rng.randint(0, 100), -rng.randint(1, 20)])
        n = self.many(n)
        self.log.append("read(%#x, %d)" % (a, n))
        out = attempt(self.image.read, a, n)
        try:
            want = self.m.read(a, n)
        except Refused:
            return refused(self.case, out, "read", n)
        self.case.check(out.ok and bytes(out.value) == want, "wrong data read", "read(%#x, %d): %r, expected %r" % (a, n, out, want))

    def op_write(self):
        rng = self.rng
        a, n = rand_addr(rng, self.m), rng.choice([1, 2, 3, 4, 8, 16, 17, rng.randint(1, 60)])
        data = gen.rand_bytes(rng, self.many(n))
        inp = as_input(rng, data)
        self.log.append("write(%#x, %s %r of %d)" % (a, type(inp).__name__, data[:100], len(data)))
        out = attempt(self.image.write, a, inp)
        try:
            self.m.write(a, data)
        except Refused:
            return refused(self.case, out, "write")
        self.case.check(out.ok, "write failed", "%s: %r" % (self.log[-1], out))

    def op_numeric_read(self):
        rng = self.rng
        a, t, o = rand_addr(rng, self.m), rng.choice(model.TYPES), rng.choice(["le", "be"])
        name = "%s_%s" % (t, o)
        kw = {}
        mask = None
        if t in model.INTS and rng.random() < 0.3:
            mask = kw["bit_mask"] = rng.choice([0, 1, 0xFF, (1 << (8 * model.size(t))) - 1, rng.getrandbits(8 * model.size(t))])
        if t == "uint8" and rng.random() < 0.3:
            name = "byte"
        if rng.random() < 0.1:
            name = name.upper()
        self.log.append("read_numeric(%#x, %s, %s)" % (a, name, kw))
        out = attempt(self.image.read_numeric, a, name, **kw)
        try:
            raw = self.m.read(a, model.size(t))
        except Refused:
            return refused(self.case, out, "read_numeric")
        if mask is not None:
            v = int.from_bytes(raw, "little" if o == "le" else "big") & mask
            raw = v.to_bytes(len(raw), "little" if o == "le" else "big")
        want = model.decode(raw, t, o)
        if want != want:  # NaN
            self.case.check(out.ok and out.value != out.value, "wrong value read", "%s: %r" % (self.log[-1], out))
            return
        self.case.check(out.ok and model.same(out.value, want), "wrong value read", "%s: %r, expected %r" % (self.log[-1], out, want))

    def op_numeric_write(self):
        rng = self.rng
        a, t, o = rand_addr(rng, self.m), rng.choice(model.TYPES), rng.choice(["le", "be"])
        v = model.rand_value(rng, t)
        name = "%s_%s" % (t, o)
        if t == "uint8" and rng.random() < 0.3:
            name = "byte"
        self.log.append("write_numeric(%#x, %r, %s)" % (a, v, name))
        out = attempt(self.image.write_numeric, a, v, name)
        try:
            self.m.write(a, model.encode(v, t, o))
        except Refused:
            return refused(self.case, out, "write_numeric")
        self.case.check(out.ok, "write failed", "%s: %r" % (self.log[-1], out))

    def op_array_read(self):
        rng = self.rng
        a, t, o, n = rand_addr(rng, self.m), rng.choice(model.TYPES), rng.choice(["le", "be"]), rng.choice([0, 1, 1, 2, 3, 4, 7])
        n = self.many(n)
        self.log.append("read_numeric_array(%#x, %d, %s_%s)" % (a, n, t, o))
        out = attempt(self.image.read_numeric_array, a, n, "%s_%s" % (t, o))
        s = model.size(t)
        try:
            raw = self.m.read(a, n * s)
        except Refused:
            return refused(self.case, out, "read_numeric_array", n)
        want = [model.decode(raw[i * s : i * s + s], t, o) for i in range(n)]
        self.case.check(out.ok and len(out.value) == n and all(model.same(x, y) or (x != x and y != y) for x, y in zip(out.value, want)),
                        "wrong values read", "%s: %r, expected %r" % (self.log[-1], out, want))

    def op_array_write(self):
        rng = self.rng
        a, t, o, n = rand_addr(rng, self.m), rng.choice(model.TYPES), rng.choice(["le", "be"]), rng.choice([0, 1, 1, 2, 3, 4, 7])
        n = self.many(n)
        vs = [model.rand_value(rng, t) for _ in range(n)]
        vs = rng.choice([list, tuple])(vs)
        self.log.append("write_numeric_array(%#x, %r of %d, %s_%s)" % (a, vs[:20], n, t, o))
        out = attempt(self.image.write_numeric_array, a, vs, "%s_%s" % (t, o))
        try:
            self.m.write(a, b"".join(model.encode(v, t, o) for v in vs))
        except Refused:
            return refused(self.case, out, "write_numeric_array", n)
        self.case.check(out.ok, "write failed", "%s: %r" % (self.log[-1], out))

    def op_bad_value(self):
        """Values outside the type, unknown types: rejected, nothing changes."""
        rng = self.rng
        a = rand_addr(rng, self.m)
        k = rng.choice(["range", "range", "array", "type", "kind"])
        if k in ("range", "array"):
            t, o = rng.choice(list(model.INTS)), rng.choice(["le", "be"])
            n, signed = model.INTS[t]
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
            v = rng.choice([lo - 1, hi + 1, lo - rng.randint(1, 1 << 70), hi + rng.randint(1, 1 << 70)])
            self.log.append("%s(%#x, %r, %s_%s)" % (k, a, v, t, o))
            if k == "range":
                out = attempt(self.image.write_numeric, a, v, "%s_%s" % (t, o))
            else:
                good = [model.rand_value(rng, t) for _ in range(rng.randint(0, 3))]
                out = attempt(self.image.write_numeric_array, a, good + [v] + good, "%s_%s" % (t, o))
        elif k == "type":
            t = rng.choice(["uint16", "int24_le", "uint16_xx", "foo", "", "uint128_le", "float16_le", "double_le", "uint_le", "16_le", "le", "_le", "uint16_lebe", "int 8_le"])
            fn = rng.choice(["read_numeric", "write_numeric", "read_numeric_array", "write_numeric_array", "read_ndarray"])
            self.log.append("%s(%#x, type %r)" % (fn, a, t))
            args = {"read_numeric": (a, t), "write_numeric": (a, 1, t), "read_numeric_array": (a, 1, t), "write_numeric_array": (a, [1], t), "read_ndarray": (a, 1, t)}[fn]
            out = attempt(getattr(self.image, fn), *args)
        else:
            t, o = rng.choice(list(model.INTS)), rng.choice(["le", "be"])
            self.log.append("write_numeric(%#x, bad kind, %s_%s)" % (a, t, o))
            out = attempt(self.image.write_numeric, a, rng.choice(["x", None, [1], b"\1", 1.5]), "%s_%s" % (t, o))
        self.case.check(not out.ok, "invalid value or type accepted", "%s: %r" % (self.log[-1], out))
        self.case.seen("rejected values and types")

    def op_string_write(self):
        rng = self.rng
        a = rand_addr(rng, self.m)
        enc, s = rand_string(rng)
        s *= self.many(1)
        self.log.append("write_string(%#x, %r * %d, %s)" % (a, s[:100], len(s), enc))
        kw = {} if enc == "latin1" and rng.random() < 0.5 else {"encoding": enc}
        out = attempt(self.image.write_string, a, s, **kw)
        try:
            self.m.write(a, s.encode(enc) + b"\0")
        except Refused:
            return refused(self.case, out, "write_string")
        self.case.check(out.ok, "write failed", "%s: %r" % (self.log[-1], out))

    def op_string_read(self):
        rng = self.rng
        a = rand_addr(rng, self.m)
        if rng.random() < 0.5:
            n = self.many(rng.choice([0, 1, 2, 5, 16, 40, -2, -rng.randint(2, 20)]))
            self.log.append("read_string(%#x, length=%d)" % (a, n))
            out = attempt(self.image.read_string, a, length=n)
            try:
                want = self.m.read(a, n).decode("latin1")
            except Refused:
                return refused(self.case, out, "read_string", n)
        else:
            self.log.append("read_string(%#x)" % a)
            out = attempt(self.image.read_string, a)
            r = self.m.region(a)
            if r is None and isinstance(self, SectionDriver):
                return self.case.check(not out.ok, "access out of bounds not rejected (read_string)", "%s: %r" % (self.log[-1], out))
            if r is None:
                return refused(self.case, out, "read_string")
            tail = bytes(r[1][a - r[0] :])
            if b"\0" not in tail:
                self.case.check(not out.ok, "unterminated string read", "%s: %r" % (self.log[-1], out))
                return
            want = tail[: tail.index(b"\0")].decode("latin1")
        self.case.check(out.ok and out.value == want, "wrong string read", "%s: %r, expected %r" % (self.log[-1], out, want))

    def op_ndarray_write(self):
        rng = self.rng
        a, t, o = rand_addr(rng, self.m), rng.choice(model.TYPES), rng.choice("<>")
        shape = rng.choice([(1,), (3,), (2, 2), (2, 3), (4,), (1, 1, 2), (0,)])
        shape = shape[:-1] + (self.many(shape[-1]),)
        n = int(np.prod(shape))
        vals = [model.rand_value(rng, t) for _ in range(n)]
        arr = np.array(vals, dtype=np.dtype(t).newbyteorder(o)).reshape(shape)
        flat = vals
        if len(shape) == 2 and rng.random() < 0.4:  # not C-contiguous
            arr = arr.T
            flat = [vals[r * shape[1] + c] for c in range(shape[1]) for r in range(shape[0])]
        self.log.append("write_ndarray(%#x, %s%s%s)" % (a, o, t, arr.shape))
        out = attempt(self.image.write_ndarray, a, arr)
        try:
            self.m.write(a, b"".join(model.encode(v, t, "le" if o == "<" else "be") for v in flat))
        except Refused:
            return refused(self.case, out, "write_ndarray", n)
        self.case.check(out.ok, "write failed", "%s: %r" % (self.log[-1], out))

    def op_ndarray_read(self):
        rng = self.rng
        a, t, o = rand_addr(rng, self.m), rng.choice(model.TYPES), rng.choice(["le", "be"])
        shape = rng.choice([(1,), (3,), (2, 2), (2, 3), (1, 4), (2, 1, 2)])
        shape = shape[:-1] + (self.many(shape[-1]),)
        n, s = int(np.prod(shape)), model.size(t)
        order = rng.choice([None, None, "C", "F"])
        self.log.append("read_ndarray(%#x, %d, %s_%s, shape=%s, order=%s)" % (a, n * s, t, o, shape, order))
        if rng.random() < 0.1:
            bad = attempt(self.image.read_ndarray, a, -s * rng.randint(1, 10), "%s_%s" % (t, o), (-1,), order)
            refused(self.case, bad, "read_ndarray", -1)
        out = attempt(self.image.read_ndarray, a, n * s, "%s_%s" % (t, o), shape, order)
        try:
            raw = self.m.read(a, n * s)
        except Refused:
            return refused(self.case, out, "read_ndarray")
        self.case.check(out.ok, "read failed", "%s: %r" % (self.log[-1], out))
        arr = out.value
        want_shape = shape if order != "F" else shape[::-1]
        self.case.equal(arr.shape, want_shape, "wrong shape")
        flat = (arr.T if order == "F" else arr).reshape(-1).tolist()
        want = [model.decode(raw[i * s : i * s + s], t, o) for i in range(n)]
        self.case.check(all(model.same(x, y) or (x != x and y != y) for x, y in zip(flat, want)), "wrong values read", "%s: %r, expected %r" % (self.log[-1], flat, want))
        self.case.check(arr.dtype.kind == ("f" if t in model.FLOATS else "u" if t[0] == "u" else "i") and arr.dtype.itemsize == s, "wrong element type", str(arr.dtype))

    def op_contains(self):
        a = rand_addr(self.rng, self.m)
        self.log.append("%#x in image" % a)
        out = attempt(lambda: a in self.image)
        self.case.check(out.ok and out.value is (self.m.region(a) is not None), "wrong membership", "%s: %r" % (self.log[-1], out))

    def op_get_section(self):
        a = rand_addr(self.rng, self.m)
        self.log.append("get_section(%#x)" % a)
        out = attempt(self.image.get_section, a)
        r = self.m.region(a)
        if r is None:
            return refused(self.case, out, "get_section")
        self.case.check(out.ok and (out.value.start_address, bytes(out.value.data)) == (r[0], bytes(r[1])), "wrong section found", "%s: %r" % (self.log[-1], out))

    def op_iterate(self):
        self.log.append("iterate")
        want = self.m.layout()
        got = [(s.start_address, bytes(s.data)) for s in self.image]
        self.case.check(got == want, "iteration differs", "%r" % got)
        i = self.rng.randrange(len(want)) if want else None
        if i is not None:
            s = self.image[i]
            self.case.check((s.start_address, bytes(s.data)) == want[i], "indexing differs")
            self.case.check(s.length == len(s) == len(want[i][1]) and s.address == want[i][0], "wrong section attributes")
            self.case.check(s.tobytes() == want[i][1] and s.tolist() == list(want[i][1]), "wrong section contents")

    def op_hexdump(self):
        self.log.append("hexdump")
        if self.m.regions and self.m.regions[-1][0] + len(self.m.regions[-1][1]) > 1 << 64:
            return  # no dump format for such addresses
        f = io.StringIO()
        self.image.hexdump(f)
        got = parse_dump(f.getvalue())
        self.case.check(got == [(a, d) for a, d in self.m.layout()], "hex dump differs", "%r" % got)

    def op_insert(self):
        rng = self.rng
        n = self.many(rng.choice([1, 2, 3, 8, 16, 33]))
        data = gen.rand_bytes(rng, n)
        k = rng.random()
        if not self.m.regions:
            a = rng.randint(0, 1000)
        else:
            r = rng.choice(self.m.regions)
            s, e = r[0], r[0] + len(r[1])
            a = max(0, rng.choice([e, e, s - n, s - n + 1, e - 1, s, s - 1, s + 1, e + 1, e + rng.randint(0, 40), s - n - 1, rng.randint(0, e + 100)]))
            if k < 0.15:  # engulf
                a = max(0, s - rng.randint(0, 4))
                n = e - a + rng.randint(0, 4)
                data = gen.rand_bytes(rng, n)
        if k > 0.8:
            a = None
        join = rng.random() < 0.85
        inp = as_input(rng, data)
        self.log.append("insert_section(%s %r, %s, join=%s)" % (type(inp).__name__, data if n < 100 else "%d bytes" % n, a if a is None else hex(a), join))
        kw = {} if join and rng.random() < 0.5 else {"join": join}
        out = attempt(self.image.insert_section, inp, **kw) if a is None else attempt(self.image.insert_section, inp, a, **kw)
        try:
            self.m.insert(data, a, join)
        except Refused:
            self.case.check(not out.ok and isinstance(out.exc, InvalidAddressError), "overlapping section accepted", "%s: %r" % (self.log[-1], out))
            self.case.seen("rejected insertions")
            return
        self.case.check(out.ok, "insertion failed", "%s: %r" % (self.log[-1], out))
        self.case.seen("insertions")


ALL_KINDS = ["read", "read", "write", "write", "numeric_read", "numeric_write", "array_read", "array_write", "bad_value", "string_write", "string_read",
             "ndarray_write", "ndarray_read", "contains", "get_section", "iterate", "hexdump", "insert"]
SECTION_KINDS = ["read", "read", "write", "write", "numeric_read", "numeric_write", "array_read", "array_write", "bad_value", "string_write", "string_read",
                 "ndarray_write", "ndarray_read", "contains"]


class SectionDriver(Driver):
    """The same operations on a bare Section."""

    def verify(self, what):
        got = (self.image.start_address, bytes(self.image.data))
        self.case.ev()
        if [got] != self.m.layout():
            self.case.fail("section differs after %s" % what.split("(")[0], "after %s" % what, got=got, want=self.m.layout(), history=self.log[-12:])
        self.case.check(len(self.image) == len(self.m) == self.image.length, "wrong length of section")

    def step(self, kinds=None):
        super().step(kinds or SECTION_KINDS)


def rand_string(rng):
    enc = rng.choice(["latin1", "latin1", "ascii", "utf-8", "utf-16-le", "utf-16-be", "cp1252", "shift_jis", "utf-32-le"])
    n = rng.choice([0, 1, 2, 5, 10, 20])
    chars = "abcXYZ 019_-\n\t~"
    if enc in ("latin1", "cp1252"):
        chars += "\xe4\xf6\xff\xa0"
    elif enc == "shift_jis":
        chars += "\u65e5\u672c\u30ab"
    elif enc.startswith("utf"):
        chars += "\xe4\u20ac\u65e5\U0001f600"
    return enc, "".join(rng.choice(chars) for _ in range(n))


def parse_dump(text):
    """Sections from the canonical dump of an image: [(start, bytes)]."""
    from .dumpparse import parse_image

    return parse_image(text)
