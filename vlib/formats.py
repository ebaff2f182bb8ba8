"""Independent models of the text hex formats.

Nothing in here imports objutils.  For each format there is

    decode(text)            strict decoder of a complete file -> Decoded; raises
                            FormatError when the text is not well-formed
    generate(rng, mem, ...) a conforming file describing exactly `mem`, using
                            the freedom real producers have

`mem` is a dict {address: byte}.
"""
import hashlib
import re
import xml.sax.saxutils as sax


class FormatError(Exception):
    pass


def need(cond, *msg):
    if not cond:
        raise FormatError(" ".join(str(m) for m in msg))


class Decoded:
    def __init__(self):
        self.mem = {}
        self.rows = []  # data bytes per record
        self.order = []  # (address, length) in file order
        self.extra = {}

    def put(self, address, data):
        need(len(data) > 0, "empty data record at", hex(address))
        for i, b in enumerate(data):
            need(address + i not in self.mem, "address %#x described twice" % (address + i))
            self.mem[address + i] = b
        self.rows.append(len(data))
        self.order.append((address, len(data)))


def hx(s, n=None, upper=True):
    """Hex digits -> bytes, strictly."""
    need(len(s) % 2 == 0, "odd number of digits", s)
    need(re.fullmatch(r"[0-9A-F]*" if upper else r"[0-9A-Fa-f]*", s), "not hex:", s)
    if n is not None:
        need(len(s) == 2 * n, "field of %d digits instead of %d" % (len(s), 2 * n))
    return bytes.fromhex(s)


def hnum(s, digits=None, upper=True):
    need(re.fullmatch(r"[0-9A-F]+" if upper else r"[0-9A-Fa-f]+", s), "not a hex number:", s)
    if digits is not None:
        need(len(s) == digits, "number of %d digits instead of %d" % (len(s), digits))
    return int(s, 16)


def lines_of(text, final_newline=None):
    if isinstance(text, (bytes, bytearray)):
        text = bytes(text).decode("ascii")
    need(text, "empty file")
    if final_newline:
        need(text.endswith("\n"), "no newline at end of file")
    if text.endswith("\n"):
        text = text[:-1]
    return [ln[:-1] if ln.endswith("\r") else ln for ln in text.split("\n")]


def runs(mem):
    """[(start, bytes)] maximal contiguous runs."""
    out = []
    for a in sorted(mem):
        if out and a == out[-1][0] + len(out[-1][1]):
            out[-1][1].append(mem[a])
        else:
            out.append((a, bytearray([mem[a]])))
    return [(a, bytes(d)) for a, d in out]


def nibbles(data):
    return sum((b >> 4) + (b & 15) for b in data)


def be(n, size):
    return n.to_bytes(size, "big")


def rxor(data):
    c = 0
    for b in data:
        c ^= b
        c = ((c << 1) | (c >> 7)) & 0xFF
    return c


def chop(rng, mem, max_len, bound=None, style=None):
    """Cut memory into records; never across a multiple of `bound`."""
    style = style or rng.choice(["fixed", "mixed", "small", "max"])
    fixed = rng.choice([1, 2, 3, 4, 8, 15, 16, 16, 17, 20, 32, 33, 64, max_len])
    out = []
    for a, d in runs(mem):
        i = 0
        while i < len(d):
            n = {"fixed": fixed, "mixed": rng.randint(1, max_len), "small": rng.randint(1, min(6, max_len)), "max": max_len}[style]
            n = min(n, max_len, len(d) - i)
            if bound is not None:
                n = min(n, bound - (a + i) % bound)
            out.append((a + i, d[i : i + n]))
            i += n
    return out


def with_empty(rng, recs):
    """Data records without data, at the start of, inside or next to other records."""
    for _ in range(rng.randint(1, 4)):
        a, d = rng.choice(recs)
        recs.insert(rng.randint(0, len(recs)), (a + rng.choice([0, 0, rng.randrange(len(d)) if d else 0, max(len(d) - 1, 0)]), b""))


def shuffled(rng, records, p=0.5):
    records = list(records)
    if rng.random() < p:
        k = rng.choice(["shuffle", "reverse", "swap"])
        if k == "shuffle":
            rng.shuffle(records)
        elif k == "reverse":
            records.reverse()
        elif len(records) > 1:
            i = rng.randrange(len(records) - 1)
            records[i], records[i + 1] = records[i + 1], records[i]
    return records


def finish(rng, lines, last_newline=None):
    eol = rng.choice(["\n", "\r\n"])
    text = eol.join(lines)
    if last_newline or (last_newline is None and rng.random() < 0.8):
        text += eol
    return text.encode("ascii")


def lower(rng, s, p=0.3):
    r = rng.random()
    if r < p / 2:
        return s.lower()
    if r < p:
        return "".join(c.lower() if rng.random() < 0.5 else c for c in s)
    return s


class Format:
    name = ""
    max_address = 0xFFFF  # of the writer
    read_max = 0xFFFF  # what conforming files of other producers may use
    max_row = 255
    option_row = True  # writer honours row_length
    checksummed = False

    def decode(self, text):
        raise NotImplementedError

    def generate(self, rng, mem, **kw):
        raise NotImplementedError


class IHex(Format):
    name = "ihex"
    max_address = 0xFFFFFFFF
    read_max = 0xFFFFFFFF
    checksummed = True

    def decode(self, text):
        d = Decoded()
        base = None
        ended = False
        kinds = set()
        for ln in lines_of(text, True):
            need(not ended, "record after end-of-file record")
            need(ln[:1] == ":", "no start code:", ln)
            raw = hx(ln[1:])
            need(len(raw) >= 5, "short record")
            need(len(raw) == raw[0] + 5, "wrong length field")
            need(sum(raw) & 0xFF == 0, "wrong checksum")
            ofs, typ, data = (raw[1] << 8) | raw[2], raw[3], raw[4:-1]
            if typ == 0:
                need(ofs + len(data) <= 0x10000, "record crosses a 64K boundary")
                d.put((base or 0) + ofs, data)
            elif typ == 1:
                need(not data, "data in end-of-file record")
                ended = True
            elif typ in (2, 4):
                need(len(data) == 2 and ofs == 0, "malformed extended address record")
                base = ((data[0] << 8) | data[1]) << (4 if typ == 2 else 16)
                kinds.add(typ)
            elif typ in (3, 5):
                need(len(data) == 4 and ofs == 0, "malformed start address record")
            else:
                need(False, "unknown record type", typ)
        need(ended, "no end-of-file record")
        need(len(kinds) < 2, "segment and linear addressing mixed")
        need(all(a < 1 << 32 for a in d.mem), "address beyond 32 bits")
        return d

    @staticmethod
    def record(typ, ofs, data):
        raw = bytes([len(data)]) + be(ofs, 2) + bytes([typ]) + bytes(data)
        return ":" + (raw + bytes([-sum(raw) & 0xFF])).hex().upper()

    def generate(self, rng, mem, **kw):
        top = max(mem)
        mode = rng.choice(["linear", "segment"]) if top < 0x100000 else "linear"
        lines, base = [], None
        redundant = rng.random() < 0.3
        if mode == "segment":
            # A record must lie within 64K of its segment base; bases are free.
            recs = shuffled(rng, chop(rng, mem, rng.choice([16, 32, 255]), 0x10000 if rng.random() < 0.5 else None))
            for a, data in recs:
                ok = base is not None and base <= a and a + len(data) <= base + 0x10000
                if not ok or redundant and rng.random() < 0.3:
                    if base is None and a + len(data) <= 0x10000 and rng.random() < 0.7:
                        base = 0  # default segment
                    else:
                        lo = max(0, (a + len(data) - 0x10000 + 15) // 16)
                        seg = rng.choice([min(a >> 4, 0xFFFF), max(lo, (a >> 16) << 12), rng.randint(lo, min(a >> 4, 0xFFFF))])
                        if not (seg * 16 <= a and a + len(data) <= seg * 16 + 0x10000):
                            seg = min(a >> 4, 0xFFFF)
                        base = seg * 16
                        lines.append(self.record(2, 0, be(seg, 2)))
                lines.append(self.record(0, a - base, data))
        else:
            recs = shuffled(rng, chop(rng, mem, rng.choice([16, 32, 255]), 0x10000))
            if rng.random() < 0.15:
                with_empty(rng, recs)
            for a, data in recs:
                if (base if base is not None else 0) != a >> 16 or redundant and rng.random() < 0.3:
                    base = a >> 16
                    lines.append(self.record(4, 0, be(base, 2)))
                elif base is None and rng.random() < 0.3:
                    base = 0
                    lines.append(self.record(4, 0, b"\0\0"))
                lines.append(self.record(0, a & 0xFFFF, data))
        extras = []
        if rng.random() < 0.4:
            extras.append(self.record(5, 0, be(rng.getrandbits(32), 4)))
        if rng.random() < 0.3:
            extras.append(self.record(3, 0, be(rng.getrandbits(32), 4)))
        for e in extras:
            lines.insert(rng.choice([0, len(lines), rng.randint(0, len(lines))]), e)
        lines.append(self.record(1, rng.choice([0, 0, 0, rng.getrandbits(16)]), b""))
        if rng.random() < 0.3:
            lines = [ln.lower() if rng.random() < 0.5 else ln for ln in lines]
        return finish(rng, lines)


class SRec(Format):
    name = "srec"
    max_address = 0xFFFFFFFF
    read_max = 0xFFFFFFFF
    max_row = 250
    checksummed = True
    WIDTH = {"0": 2, "1": 2, "2": 3, "3": 4, "6": 3, "7": 4, "8": 3, "9": 2}

    def decode(self, text):
        d = Decoded()
        d.extra.update(types=[], count=None, start=None, headers=[])
        lines = lines_of(text, True)
        ended = False
        for ln in lines:
            need(not ended, "record after termination record")
            need(re.match(r"S\d", ln), "no start code:", ln)
            typ, raw = ln[1], hx(ln[2:])
            need(len(raw) >= 3 and raw[0] == len(raw) - 1, "wrong count field")
            need(sum(raw) & 0xFF == 0xFF, "wrong checksum")
            d.extra["types"].append(typ)
            if typ in "56":
                # The writer uses the address width of its data records for the count (S5).
                need(len(raw) - 2 in ((2, 3, 4) if typ == "5" else (3,)), "malformed count record")
                d.extra["count"] = int.from_bytes(raw[1:-1], "big")
                need(d.extra["count"] == len(d.rows), "count record does not match number of data records")
                continue
            need(typ in self.WIDTH, "record type", typ)
            w = self.WIDTH[typ]
            need(len(raw) >= w + 2, "short record")
            a, data = int.from_bytes(raw[1 : 1 + w], "big"), raw[1 + w : -1]
            if typ in "123":
                need(a + len(data) <= 1 << (8 * w), "record runs over the end of the address space")
                d.put(a, data)
            elif typ == "0":
                need(not d.rows, "header after data")
                d.extra["headers"].append((a, bytes(data)))
            else:
                need(not data, "data in termination record")
                d.extra["start"] = (typ, a)
                ended = True
        kinds = set(d.extra["types"]) & set("123")
        need(len(kinds) == 1, "mixed data record types", kinds)
        if ended:
            need(int(d.extra["start"][0]) == 10 - int(min(kinds)), "termination record does not match data records")
        return d

    def record(self, typ, address, data=b"", width=None):
        w = width or self.WIDTH[typ]
        raw = bytes([w + len(data) + 1]) + be(address, w) + bytes(data)
        return "S" + typ + (raw + bytes([~sum(raw) & 0xFF])).hex().upper()

    def generate(self, rng, mem, **kw):
        top = max(mem)
        fit = [t for t, lim in (("1", 0xFFFF), ("2", 0xFFFFFF), ("3", 0xFFFFFFFF)) if top <= lim]
        t = rng.choice(fit)
        mixed = rng.random() < 0.25
        lines = []
        recs = shuffled(rng, chop(rng, mem, rng.choice([16, 32, 64, 250])))
        if rng.random() < 0.15:
            with_empty(rng, recs)
        for a, data in recs:
            tt = t
            if mixed:
                tt = rng.choice([x for x, lim in (("1", 0xFFFF), ("2", 0xFFFFFF), ("3", 0xFFFFFFFF)) if a + len(data) - 1 <= lim])
            lines.append(self.record(tt, a, data))
        if rng.random() < 0.6:
            h = bytes(rng.choice(b"abcXYZ0189 ._-") for _ in range(rng.randint(0, 24))) if rng.random() < 0.6 else rng.randbytes(rng.randint(0, 40))
            lines.insert(0, self.record("0", 0 if rng.random() < 0.8 else rng.getrandbits(16), h))
        if rng.random() < 0.4 and len(recs) < 0x10000:
            lines.append(self.record("5", len(recs), width=2) if rng.random() < 0.8 else self.record("6", len(recs)))
        if rng.random() < 0.8 or kw.get("terminated"):
            e = {"1": "9", "2": "8", "3": "7"}[t]
            start = rng.choice([0, rng.getrandbits(8 * self.WIDTH[e]), 1 << (8 * self.WIDTH[e] - 1)])
            lines.append(self.record(e, start))
        if rng.random() < 0.25:
            lines = [ln[0] + ln[1:].lower() for ln in lines]
        return finish(rng, lines)


class TiTxt(Format):
    name = "titxt"
    read_max = 0xFFFFFFFF
    max_row = 4096

    def decode(self, text):
        d = Decoded()
        lines = lines_of(text, True)
        need(lines[-1] == "q", "no terminator")
        a = None
        for ln in lines[:-1]:
            if ln.startswith("@"):
                need(4 <= len(ln) - 1 <= 8, "address width", ln)
                a = hnum(ln[1:])
            else:
                need(a is not None, "data without address")
                need(re.fullmatch(r"[0-9A-F]{2}( [0-9A-F]{2})*", ln), "malformed data line", ln)
                data = hx(ln.replace(" ", ""))
                d.put(a, data)
                a += len(data)
        return d

    def generate(self, rng, mem, **kw):
        lines = []
        pos = None
        trailing = rng.random() < 0.4
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 16, 16, 32, 7]))):
            if a != pos or rng.random() < 0.05:
                w = max(4, len("%X" % a))
                lines.append("@%0*X" % (rng.choice([w, w, w, min(8, w + w % 2), 8, 2]), a))
            lines.append(data.hex(" ").upper() + (" " if trailing else ""))
            pos = a + len(data)
        lines.append("q")
        if rng.random() < 0.25:
            lines = [ln.lower() for ln in lines]
        return finish(rng, lines)


class Tek(Format):
    name = "tek"
    checksummed = True

    def decode(self, text):
        d = Decoded()
        ended = False
        for ln in lines_of(text, True):
            need(not ended, "record after terminator")
            need(ln[:1] == "/", "no start code", ln)
            raw = hx(ln[1:])
            need(len(raw) >= 4, "short record")
            a, n = (raw[0] << 8) | raw[1], raw[2]
            need(raw[3] == nibbles(raw[:3]) & 0xFF, "wrong header checksum")
            if n == 0:
                need(len(raw) == 4, "data in terminator")
                ended = True
                continue
            need(len(raw) == n + 5, "wrong length field")
            need(raw[-1] == nibbles(raw[4:-1]) & 0xFF, "wrong data checksum")
            need(a + n <= 0x10000, "record runs over the end of the address space")
            d.put(a, raw[4:-1])
        need(ended, "no terminator")
        return d

    def generate(self, rng, mem, **kw):
        lines = []
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 32, 255]))):
            head = be(a, 2) + bytes([len(data)])
            lines.append("/" + (head + bytes([nibbles(head) & 0xFF]) + data + bytes([nibbles(data) & 0xFF])).hex().upper())
        head = be(rng.choice([0, rng.getrandbits(16)]), 2) + b"\0"
        lines.append("/" + (head + bytes([nibbles(head)])).hex().upper())
        return finish(rng, lines)


TEKVAL = {c: i for i, c in enumerate("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$%._abcdefghijklmnopqrstuvwxyz")}


class ETek(Format):
    name = "etek"
    max_address = 0xFFFFFF
    read_max = 0xFFFFFFFF
    max_row = 120
    checksummed = True

    @staticmethod
    def checksum(record):
        """record: everything behind the `%`."""
        return sum(TEKVAL[c] for c in record[:3] + record[5:]) & 0xFF

    def decode(self, text):
        d = Decoded()
        ended = False
        for ln in lines_of(text, True):
            need(not ended, "record after terminator")
            need(ln[:1] == "%" and len(ln) >= 6, "no start code", ln)
            body = ln[1:]
            need(hnum(body[:2]) == len(body), "wrong length field")
            need(all(c in TEKVAL for c in body), "illegal character")
            need(hnum(body[3:5]) == self.checksum(body), "wrong checksum")
            t, rest = body[2], body[5:]
            if t == "3":
                continue
            need(t in "68" and rest, "record type", t)
            n = hnum(rest[0]) or 16
            need(len(rest) >= 1 + n, "incomplete address")
            a, data = hnum(rest[1 : 1 + n]), hx(rest[1 + n :])
            if t == "6":
                d.put(a, data)
            else:
                need(not data, "data in terminator")
                ended = True
        need(ended, "no terminator")
        return d

    def record(self, t, payload):
        body = "%02X%s00%s" % (len(payload) + 5, t, payload)
        return "%" + body[:3] + "%02X" % self.checksum(body) + payload

    def generate(self, rng, mem, **kw):
        lines = []
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 32, 60, 115]))):
            w = max(1, len("%X" % a))
            w = rng.choice([w, max(4, w), 8, min(16, w + 1), rng.randint(w, 16), 16])
            w = max(w, len("%X" % a))
            lines.append(self.record("6", "%X%0*X%s" % (w % 16, w, a, data.hex().upper())))
        while rng.random() < 0.3:
            name = "".join(rng.choice("ABCXYZabcxyz_019") for _ in range(rng.randint(1, 12)))
            sym = "%X%s%s" % (len(name), name, "1%X%s%X%0*X" % (len(name), name, 4, 4, rng.getrandbits(16)))
            lines.insert(rng.randint(0, len(lines)), self.record("3", sym))
        w = rng.choice((rng.randint(1, 8), rng.randint(1, 16)))
        lines.append(self.record("8", "%X%0*X" % (w % 16, w, rng.getrandbits(4 * w))))
        return finish(rng, lines)


class Sig(Format):
    name = "sig"
    checksummed = True

    def decode(self, text):
        d = Decoded()
        ended = False
        for ln in lines_of(text, True):
            need(not ended, "record after terminator")
            need(ln[:1] == ":", "no start code", ln)
            raw = hx(ln[1:])
            need(len(raw) >= 3, "short record")
            a, n = (raw[0] << 8) | raw[1], raw[2]
            if n == 0:
                need(len(raw) == 3, "malformed terminator")
                ended = True
                continue
            need(len(raw) == n + 5, "wrong length field")
            need(raw[3] == rxor(raw[:3]), "wrong header checksum")
            need(raw[-1] == rxor(raw[4:-1]), "wrong data checksum")
            need(a + n <= 0x10000, "record runs over the end of the address space")
            d.put(a, raw[4:-1])
        need(ended, "no terminator")
        return d

    def generate(self, rng, mem, **kw):
        lines = []
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 32, 255]))):
            head = be(a, 2) + bytes([len(data)])
            lines.append(":" + (head + bytes([rxor(head)]) + data + bytes([rxor(data)])).hex().upper())
        lines.append(":%04X00" % rng.choice([0, rng.getrandbits(16)]))
        return finish(rng, lines)


class MosTec(Format):
    name = "mostec"
    checksummed = True

    def decode(self, text):
        d = Decoded()
        ended = False
        for ln in lines_of(text, True):
            need(not ended, "record after terminator")
            need(ln[:1] == ";", "no start code", ln)
            raw = hx(ln[1:])
            if raw[0] == 0:
                need(len(raw) in (1, 5), "malformed terminator")
                if len(raw) == 5:
                    need(int.from_bytes(raw[1:3], "big") == len(d.rows) == int.from_bytes(raw[3:], "big"), "wrong record count")
                ended = True
                continue
            need(len(raw) == raw[0] + 5, "wrong length field")
            need(int.from_bytes(raw[-2:], "big") == sum(raw[:-2]) & 0xFFFF, "wrong checksum")
            a = (raw[1] << 8) | raw[2]
            need(a + raw[0] <= 0x10000, "record runs over the end of the address space")
            d.put(a, raw[3:-2])
        need(ended, "no terminator")
        return d

    def generate(self, rng, mem, **kw):
        recs = shuffled(rng, chop(rng, mem, rng.choice([16, 24, 24, 255])))
        lines = []
        for a, data in recs:
            raw = bytes([len(data)]) + be(a, 2) + data
            lines.append(";" + (raw + be(sum(raw) & 0xFFFF, 2)).hex().upper())
        lines.append(rng.choice([";00", ";00%04X%04X" % (len(recs), len(recs))]) if len(recs) < 65536 else ";00")
        return finish(rng, lines)


class Emon52(Format):
    name = "emon52"
    checksummed = True

    def decode(self, text):
        d = Decoded()
        for ln in lines_of(text, True):
            m = re.fullmatch(r"([0-9A-F]{2}) ([0-9A-F]{4}):((?:[0-9A-F]{2} )+)([0-9A-F]{4})", ln)
            need(m, "malformed record", ln)
            data = hx(m[3].replace(" ", ""))
            need(len(data) == int(m[1], 16), "wrong length field")
            need(sum(data) & 0xFFFF == int(m[4], 16), "wrong checksum")
            a = int(m[2], 16)
            need(a + len(data) <= 0x10000, "record runs over the end of the address space")
            d.put(a, data)
        return d

    def generate(self, rng, mem, **kw):
        lines = []
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 16, 32, 255]))):
            lines.append("%02X %04X:%s %04X" % (len(data), a, data.hex(" ").upper(), sum(data) & 0xFFFF))
        return finish(rng, lines)


class Fpc(Format):
    name = "fpc"
    read_max = 0xFFFFFFFF
    max_row = 251
    DIGITS = "".join(chr(c) for c in range(37, 123) if c != 42)
    VALUE = {c: i for i, c in enumerate(DIGITS)}
    checksummed = False  # checksummed, but a digit of the text is a base 85 digit

    def decode(self, text):
        d = Decoded()
        ended = False
        for ln in lines_of(text):
            need(not ended, "record after terminator")
            need(ln[:1] == "$" and len(ln) % 5 == 1 and len(ln) > 1, "malformed line", ln)
            raw = b""
            for i in range(1, len(ln), 5):
                v = 0
                for c in ln[i : i + 5]:
                    need(c in self.VALUE, "illegal character", c)
                    v = v * 85 + self.VALUE[c]
                need(v < 1 << 32, "quintuple out of range")
                raw += be(v, 4)
            if raw == b"\0\0\0\0":
                ended = True
                continue
            need(len(raw) >= 8, "short record")
            chk, n, typ = raw[0], raw[1], int.from_bytes(raw[2:4], "big")
            need(typ == 0, "record type", typ)
            need(n > 4, "length field")
            a = int.from_bytes(raw[4:8], "big")
            data, pad = raw[8 : 8 + n - 4], raw[8 + n - 4 :]
            need(len(data) == n - 4, "length field exceeds record")
            need(len(pad) < 4 and not any(pad), "padding")
            need((chk + n + sum(raw[2:8]) + sum(data)) & 0xFF == 0, "wrong checksum")
            d.put(a, data)
        need(ended, "no terminator")
        return d

    def decode_group(self, g):
        v = 0
        for c in g:
            v = v * 85 + self.VALUE[c]
        return v

    def encode(self, raw):
        out = "$"
        for i in range(0, len(raw), 4):
            v = int.from_bytes(raw[i : i + 4], "big")
            q = ""
            for _ in range(5):
                q = self.DIGITS[v % 85] + q
                v //= 85
            out += q
        return out

    def generate(self, rng, mem, **kw):
        lines = []
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 32, 251]))):
            raw = bytes([len(data) + 4, 0, 0]) + be(a, 4) + data
            raw = bytes([-sum(raw) & 0xFF]) + raw
            lines.append(self.encode(raw + bytes(-len(raw) % 4)))
        lines.append("$" + self.DIGITS[0] * 5)
        return finish(rng, lines)


class Rca(Format):
    name = "rca"
    max_row = 4096

    def decode(self, text):
        d = Decoded()
        t = bytes(text)
        need(t.startswith(b"\0" * 48 + b"\r\n!M\n"), "no header")
        body = t[len(b"\0" * 48 + b"\r\n!M\n") :]
        tail = b"\0" * 48 + b"\r\n"
        need(body.endswith(tail), "no trailer")
        body = body[: -len(tail)]
        for ln in lines_of(body, True):
            m = re.fullmatch(r"([0-9A-F]{4}) ((?:[0-9A-F]{2})+);", ln)
            need(m, "malformed record", ln)
            a, data = int(m[1], 16), hx(m[2])
            need(a + len(data) <= 0x10000, "record runs over the end of the address space")
            d.put(a, data)
        return d

    def generate(self, rng, mem, **kw):
        eol = rng.choice(["\n", "\r\n"])
        pad = "\0" * rng.choice([0, 1, 16, 48, 60])
        out = pad + "\r\n!M" + eol if pad or rng.random() < 0.7 else "!M" + eol
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 32, 100]))):
            out += "%04X %s;%s" % (a, lower(rng, data.hex().upper(), 0.1), eol)
        out += rng.choice([pad + "\r\n", ":0000" + eol, ""])
        return out.encode("ascii")


class Cosmac(Format):
    name = "cosmac"
    max_row = 4096

    def decode(self, text):
        d = Decoded()
        for ln in lines_of(text, True):
            m = re.fullmatch(r"!M([0-9A-F]{4}) ((?:[0-9A-F]{2})+)", ln)
            need(m, "malformed record", ln)
            a, data = int(m[1], 16), hx(m[2])
            need(a + len(data) <= 0x10000, "record runs over the end of the address space")
            d.put(a, data)
        return d

    def generate(self, rng, mem, **kw):
        lines = []
        pos = None
        p = rng.choice([0, 0.3, 0.9])
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([4, 16, 32, 100]))):
            if a == pos and rng.random() < p:  # Continuation, the address is left out.
                lines.append(data.hex().upper())
            else:
                start = rng.choice(["!M", "!M", "!M", ""]) if lines else "!M"
                lines.append("%s%04X %s" % (start, a, data.hex().upper()))
            pos = a + len(data)
        return finish(rng, lines)


class Ash(Format):
    name = "ash"
    read_max = 0xFFFFFFFF
    max_row = 4096

    def decode(self, text):
        d = Decoded()
        t = bytes(text).decode("ascii")
        need(t.startswith("\x02"), "no STX")
        need(t.count("\x02") == 1 and t.count("\x03") == 1, "STX/ETX")
        body, tail = t[1:].split("\x03")
        m = re.fullmatch(r"\$S([0-9A-F]{4}),\r?\n", tail)
        need(m, "malformed checksum field", repr(tail))
        a = None
        total = 0
        lines = [ln.strip() for ln in body.split("\n")]
        for ln in lines:
            if not ln:
                continue
            if ln.startswith("$"):
                mm = re.fullmatch(r"\$A([0-9A-F]{4,8}),", ln)
                need(mm, "malformed address field", ln)
                a = int(mm[1], 16)
                continue
            need(a is not None, "data without address")
            need(re.fullmatch(r"[0-9A-F]{2}( [0-9A-F]{2})*", ln), "malformed data line", ln)
            data = hx(ln.replace(" ", ""))
            d.put(a, data)
            total += sum(data)
            a += len(data)
        need(int(m[1], 16) == total & 0xFFFF, "wrong checksum")
        return d

    def generate(self, rng, mem, **kw):
        sep = rng.choice([" ", "%", "'", ","])
        trailing = rng.choice(["", sep]) if sep != " " else rng.choice(["", " "])
        lines, pos = [], None
        for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 16, 32, 8]))):
            if a != pos:
                w = max(4, len("%X" % a))
                lines.append("$A%0*X," % (rng.choice([w, w, max(8, w)]), a))
            lines.append(sep.join("%02X" % b for b in data) + trailing)
            pos = a + len(data)
        lines[0] = "\x02 " + lines[0]
        lines.append("\x03$S%04X," % (sum(mem.values()) & 0xFFFF))
        return finish(rng, lines)


class Shf(Format):
    name = "shf"
    max_address = (1 << 64) - 1
    read_max = (1 << 64) - 1
    option_row = False
    max_row = 4096
    checksummed = True

    def decode(self, text):
        d = Decoded()
        t = bytes(text).decode("ascii")
        m = re.fullmatch(r'<\?xml version="1\.0" encoding="UTF-8"\?>\s*<dump ([^<>]*)>(.*)</dump>\s*', t, re.S)
        need(m, "not a SHF document")
        attrs = dict(re.findall(r'([\w-]+)="([^"]*)"', m[1]))
        need("name" in attrs, "no name")
        blocks = re.findall(r"\s*<block ([^<>]*)>([^<]*)</block>", m[2])
        need(re.fullmatch(r"(\s*<block [^<>]*>[^<]*</block>)*\s*", m[2]), "malformed blocks")
        need(blocks, "no blocks")
        if "blocks" in attrs:
            need(hnum(attrs["blocks"], upper=False) == len(blocks), "wrong number of blocks")
        for a, body in blocks:
            at = dict(re.findall(r'([\w-]+)="([^"]*)"', a))
            for k in ("name", "address", "word_size", "length", "checksum"):
                need(k in at, "attribute missing:", k)
            data = hx("".join(body.split()), upper=False)
            need(hnum(at["word_size"], upper=False) * hnum(at["length"], upper=False) == len(data), "wrong length")
            need(at["checksum"] == hashlib.sha1(data).hexdigest(), "wrong checksum")
            d.put(hnum(at["address"], upper=False), data)
        return d

    def generate(self, rng, mem, **kw):
        eol = rng.choice(["\n", "\r\n"])
        out = ['<?xml version="1.0" encoding="UTF-8"?>']
        blocks = shuffled(rng, chop(rng, mem, rng.choice([16, 100, 1000])), 0.5)
        name = sax.quoteattr("".join(rng.choice("abc XYZ<>&'19") for _ in range(rng.randint(1, 12))))
        out.append("<dump name=%s%s>" % (name, rng.choice([' blocks="%04x"' % len(blocks), ""])))
        for n, (a, data) in enumerate(blocks):
            ws = rng.choice([w for w in (1, 1, 2, 4, 8) if len(data) % w == 0])
            at = ['name="b%d"' % n, 'address="%0*x"' % (rng.choice([1, 4, 8, 16]), a), 'word_size="%0*x"' % (rng.choice([1, 2]), ws),
                  'length="%0*x"' % (rng.choice([1, 4, 8]), len(data) // ws), 'checksum="%s"' % hashlib.sha1(data).hexdigest()]
            if rng.random() < 0.3:
                rng.shuffle(at)
            if rng.random() < 0.2:  # digits in upper case
                at = [k + "=" + v.upper() if k != "name" else x for x in at for k, _, v in [x.partition("=")]]
            words = [data[i : i + ws].hex() for i in range(0, len(data), ws)]
            if rng.random() < 0.3:
                words = [w.upper() for w in words]
            per = rng.choice([1, 7, 16, 1000])
            rows = [" ".join(words[i : i + per]) for i in range(0, len(words), per)]
            indent = rng.choice(["", "  ", "\t"])
            out.append("%s<block %s>%s%s%s%s</block>" % (indent, rng.choice([" ", "\n  "]).join(at), eol, eol.join(indent * 2 + r for r in rows), eol, indent))
        out.append("</dump>")
        return (eol.join(out) + rng.choice(["", eol])).encode("ascii")


FORMATS = {f.name: f for f in (IHex(), SRec(), TiTxt(), Tek(), ETek(), Sig(), MosTec(), Emon52(), Fpc(), Rca(), Cosmac(), Ash(), Shf())}
NAMES = sorted(FORMATS)


def row_limit(fmt, top_address, record_type=None):
    """Largest row length the record format can carry."""
    if fmt == "srec":
        w = record_type or (1 if top_address <= 0xFFFF else 2 if top_address <= 0xFFFFFF else 3)
        return 255 - 1 - (w + 1)
    if fmt == "etek":
        return (255 - 5 - 1 - max(4, len("%X" % top_address))) // 2
    return {"fpc": 251, "ihex": 255, "tek": 255, "sig": 255, "mostec": 255, "emon52": 255}.get(fmt, 4096)
