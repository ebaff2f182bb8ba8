"""Executable model of an image: ordered regions of bytes (independent of objutils)."""
import struct


class Refused(Exception):
    """The access is not entirely inside one region / overlaps existing data."""


class Model:
    def __init__(self, regions=(), join=True):
        self.regions = sorted(([a, bytearray(d)] for a, d in regions), key=lambda r: r[0])
        if join:
            self.join()
        self.next = 0

    def join(self):
        out = []
        for a, d in self.regions:
            if out and out[-1][0] + len(out[-1][1]) == a:
                out[-1][1] += d
            else:
                out.append([a, bytearray(d)])
        self.regions = out

    def region(self, addr):
        for r in self.regions:
            if r[0] <= addr < r[0] + len(r[1]):
                return r
        return None

    def at(self, addr, n):
        """Region and offset of an access of n bytes at addr."""
        r = self.region(addr)
        if r is None or n < 0 or addr + n > r[0] + len(r[1]):
            raise Refused()
        return r[1], addr - r[0]

    def read(self, addr, n):
        d, o = self.at(addr, n)
        return bytes(d[o : o + n])

    def write(self, addr, data):
        d, o = self.at(addr, len(data))
        d[o : o + len(data)] = data

    def insert(self, data, addr=None, join=True):
        if addr is None:
            addr = self.next
        for a, d in self.regions:
            if addr < a + len(d) and a < addr + len(data):
                raise Refused()
        self.regions.append([addr, bytearray(data)])
        self.regions.sort(key=lambda r: r[0])
        if join:
            self.join()
        self.next = addr + len(data)

    def mem(self):
        return {a + i: b for a, d in self.regions for i, b in enumerate(d)}

    def layout(self):
        return [(a, bytes(d)) for a, d in self.regions]

    def __len__(self):
        return sum(len(d) for _, d in self.regions)


INTS = {"uint8": (1, False), "int8": (1, True), "uint16": (2, False), "int16": (2, True), "uint32": (4, False), "int32": (4, True), "uint64": (8, False), "int64": (8, True)}
FLOATS = {"float32": 4, "float64": 8}
TYPES = list(INTS) + list(FLOATS)


def encode(value, typ, order):
    """Standard encoding, written out independently of struct for the integers."""
    if typ in INTS:
        n, signed = INTS[typ]
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if not lo <= value <= hi:
            raise OverflowError(value)
        v = value & ((1 << (8 * n)) - 1)
        b = bytes((v >> (8 * i)) & 0xFF for i in range(n))
        return b if order == "le" else b[::-1]
    b = struct.pack("<f" if typ == "float32" else "<d", value)
    return b if order == "le" else b[::-1]


def decode(data, typ, order):
    b = bytes(data) if order == "le" else bytes(data)[::-1]
    if typ in INTS:
        n, signed = INTS[typ]
        v = sum(x << (8 * i) for i, x in enumerate(b))
        return v - (1 << (8 * n)) if signed and v >> (8 * n - 1) else v
    return struct.unpack("<f" if typ == "float32" else "<d", b)[0]


def size(typ):
    return INTS[typ][0] if typ in INTS else FLOATS[typ]


def rand_value(rng, typ):
    if typ in INTS:
        n, signed = INTS[typ]
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        k = rng.random()
        if k < 0.4:
            return rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 2 + 1, max(lo, -1)])
        if k < 0.6:
            return max(lo, min(hi, rng.choice([1, -1]) << rng.randrange(8 * n)))
        return rng.randint(lo, hi)
    k = rng.random()
    if k < 0.4:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, float("inf"), float("-inf"), 3.4028234663852886e38, -3.4028234663852886e38, 1.401298464324817e-45, 1.17549435e-38, 65504.0, 2.0**24 + 1])
    if k < 0.6 or typ == "float32":
        return struct.unpack("<f", struct.pack("<f", rng.uniform(-1e6, 1e6) * 10.0 ** rng.randint(-20, 20)))[0]
    return rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)


def same(a, b):
    """Equality that distinguishes signed zeros and types of zero."""
    if isinstance(a, float) or isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b)
    return a == b
