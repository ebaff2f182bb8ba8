"""DWARF expressions with known operations, and a reader of their rendering (independent of objutils)."""
import re

# name, operands: a address, u1 s1 u2 s2 u4 s4 u8 s8 fixed, u s variable length, r reference of 4 bytes,
# bK block whose length is operand K
OPS = {
    0x03: ("addr", "a"), 0x06: ("deref", ""), 0x08: ("const1u", "u1"), 0x09: ("const1s", "s1"), 0x0A: ("const2u", "u2"), 0x0B: ("const2s", "s2"),
    0x0C: ("const4u", "u4"), 0x0D: ("const4s", "s4"), 0x0E: ("const8u", "u8"), 0x0F: ("const8s", "s8"), 0x10: ("constu", "u"), 0x11: ("consts", "s"),
    0x12: ("dup", ""), 0x13: ("drop", ""), 0x14: ("over", ""), 0x15: ("pick", "u1"), 0x16: ("swap", ""), 0x17: ("rot", ""), 0x18: ("xderef", ""),
    0x19: ("abs", ""), 0x1A: ("and", ""), 0x1B: ("div", ""), 0x1C: ("minus", ""), 0x1D: ("mod", ""), 0x1E: ("mul", ""), 0x1F: ("neg", ""),
    0x20: ("not", ""), 0x21: ("or", ""), 0x22: ("plus", ""), 0x23: ("plus_uconst", "u"), 0x24: ("shl", ""), 0x25: ("shr", ""), 0x26: ("shra", ""),
    0x27: ("xor", ""), 0x28: ("bra", "s2"), 0x29: ("eq", ""), 0x2A: ("ge", ""), 0x2B: ("gt", ""), 0x2C: ("le", ""), 0x2D: ("lt", ""), 0x2E: ("ne", ""),
    0x2F: ("skip", "s2"), 0x90: ("regx", "u"), 0x91: ("fbreg", "s"), 0x92: ("bregx", "u s"), 0x93: ("piece", "u"), 0x94: ("deref_size", "u1"),
    0x95: ("xderef_size", "u1"), 0x96: ("nop", ""), 0x97: ("push_object_address", ""), 0x98: ("call2", "u2"), 0x99: ("call4", "u4"), 0x9A: ("call_ref", "r"),
    0x9B: ("form_tls_address", ""), 0x9C: ("call_frame_cfa", ""), 0x9D: ("bit_piece", "u u"), 0x9E: ("implicit_value", "u b0"), 0x9F: ("stack_value", ""),
    0xA0: ("implicit_pointer", "r s"), 0xA1: ("addrx", "u"), 0xA2: ("constx", "u"), 0xA3: ("entry_value", "u b0"), 0xA4: ("const_type", "u u1 b1"),
    0xA5: ("regval_type", "u u"), 0xA6: ("deref_type", "u1 u"), 0xA7: ("xderef_type", "u1 u"), 0xA8: ("convert", "u"), 0xA9: ("reinterpret", "u"),
    0xE0: ("GNU_push_tls_address", ""), 0xF0: ("GNU_uninit", ""), 0xF2: ("GNU_implicit_pointer", "r s"), 0xF3: ("GNU_entry_value", "u b0"),
    0xF4: ("GNU_const_type", "u u1 b1"), 0xF5: ("GNU_regval_type", "u u"), 0xF6: ("GNU_deref_type", "u1 u"), 0xF7: ("GNU_convert", "u"),
    0xF9: ("GNU_reinterpret", "u"), 0xFA: ("GNU_parameter_ref", "r"), 0xFB: ("GNU_addr_index", "u"), 0xFC: ("GNU_const_index", "u"),
}
for _i in range(32):
    OPS[0x30 + _i] = ("lit%d" % _i, "")
    OPS[0x50 + _i] = ("reg%d" % _i, "")
    OPS[0x70 + _i] = ("breg%d" % _i, "s")


def uleb(v, pad=0):
    digits = [v % 128]
    v //= 128
    while v:
        digits.append(v % 128)
        v //= 128
    digits += [0] * pad
    return bytes([d + 128 for d in digits[:-1]] + [digits[-1]])


def sleb(v, pad=0):
    n = 1
    while not -(1 << (7 * n - 1)) <= v < (1 << (7 * n - 1)):
        n += 1
    n += pad
    u = v % (1 << (7 * n))
    digits = [(u // 128**i) % 128 for i in range(n)]
    return bytes([d + 128 for d in digits[:-1]] + [digits[-1]])


def word(rng, bits):
    k = rng.random()
    if k < 0.4:
        return rng.choice((0, 1, 2, 0x7F, 0x80, 0xFF, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1)) % (1 << bits)
    return rng.getrandbits(rng.randrange(1, bits + 1))


def operand(rng, kind, order, addr, values):
    """-> (value, bytes)"""
    if kind[0] == "b":
        b = rng.randbytes(values[int(kind[1])])
        return b, b
    if kind in "us":
        v = word(rng, rng.choice((7, 8, 14, 15, 32, 33, 64)))
        if kind == "s" and rng.random() < 0.5:
            v = -v
        return v, (uleb if kind == "u" else sleb)(v, rng.choice((0, 0, 0, 0, 2)))
    n = addr if kind == "a" else 4 if kind == "r" else int(kind[1])
    v = word(rng, 8 * n)
    raw = v.to_bytes(n, order)
    return int.from_bytes(raw, order, signed=kind[0] == "s"), raw


def expression(rng, order, addr, count, codes=None):
    """-> (bytes, [(name, operands)])"""
    out, ops = b"", []
    for _ in range(count):
        code = rng.choice(codes or CODES)
        name, kinds = OPS[code]
        kinds = kinds.split()
        values, raw = [], bytes([code])
        for i, k in enumerate(kinds):
            if any(o == "b%d" % i for o in kinds):  # length of a block
                v = rng.choice((0, 1, 2, 4, 8, 16, 100, 127) + ((128, 200) if k == "u" else (255,)))
                if k == "u" and rng.random() < 0.01:
                    v = rng.choice((255, 256, 300, 1000, 16383, 16384, 65535, 65536, 70000))
                b = uleb(v) if k == "u" else bytes([v])
            else:
                v, b = operand(rng, k, order, addr, values)
            values.append(v)
            raw += b
        out += raw
        ops.append((name, values))
    return out, ops


CODES = sorted(OPS)
CODES_WITHOUT_ADDR = [c for c in CODES if c != 0x03]
_ITEM = re.compile(r"^(\w+)\(([^()]*)\)$")


class BadRendering(Exception):
    pass


def parse(text):
    """Rendering -> [(name, operands as text)]"""
    if not isinstance(text, str):
        raise BadRendering("not a string: %r" % (text,))
    if not text:
        return []
    result = []
    for item in text.split(";"):
        m = _ITEM.match(item.strip())
        if not m:
            raise BadRendering("operation %r" % item[:80])
        name = m.group(1)
        result.append((name[:-1] if name in ("and_", "or_", "not_") else name, [a.strip() for a in m.group(2).split(",")] if m.group(2).strip() else []))
    return result


def differences(text, ops):
    """None, or what of the rendering does not agree with the operations."""
    try:
        got = parse(text)
    except BadRendering as e:
        return "unreadable rendering: %s" % e
    if [g[0] for g in got] != [o[0] for o in ops]:
        return "operations %s, expected %s" % ([g[0] for g in got][:40], [o[0] for o in ops][:40])
    for i, ((name, args), (_, want)) in enumerate(zip(got, ops)):
        want = list(want)
        if want and want[-1] == b"" and len(args) == len(want) - 1:
            want.pop()
        if len(args) != len(want):
            return "operation %d %s has %d operands, expected %d" % (i, name, len(args), len(want))
        for a, w in zip(args, want):
            try:
                v = bytes.fromhex(a) if isinstance(w, bytes) else int(a, 0)
            except ValueError:
                return "operation %d: operand %r of %s is unreadable, expected %r" % (i, a, name, w)
            if v != w:
                return "operation %d: operand %r of %s, expected %s" % (i, a, name, w.hex() if isinstance(w, bytes) else hex(w))
    return None


def decode(data, order, addr):
    """Bytes -> [(name, operands)], None if they are not an expression of known operations."""
    pos, ops = 0, []

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise IndexError
        pos += n
        return bytes(data[pos - n : pos])

    try:
        while pos < len(data):
            name, kinds = OPS[take(1)[0]]
            values = []
            for k in kinds.split():
                if k[0] == "b":
                    values.append(take(values[int(k[1])]))
                elif k in "us":
                    v = n = 0
                    while True:
                        d = take(1)[0]
                        v += (d % 128) << (7 * n)
                        n += 1
                        if d < 128:
                            break
                    values.append(v - (1 << (7 * n)) if k == "s" and d & 64 else v)
                else:
                    n = addr if k == "a" else 4 if k == "r" else int(k[1])
                    values.append(int.from_bytes(take(n), order, signed=k[0] == "s"))
            ops.append((name, values))
    except (IndexError, KeyError):
        return None
    return ops


PLAIN = [c for c in CODES if not OPS[c][1]]


def ambiguous(rng, order):
    """An expression for every kind of file, of different operations: the last four bytes of its long addresses are operations as well."""
    out = b""
    for _ in range(rng.choice((1, 1, 2, 3))):
        out += expression(rng, order, 4, rng.choice((0, 0, 1, 2)), CODES_WITHOUT_ADDR)[0]
        out += b"\x03" + rng.randbytes(4) + bytes(rng.choice(PLAIN) for _ in range(4))
    return out
