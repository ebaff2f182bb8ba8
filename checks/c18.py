"""C18: ARM build attributes are decoded completely and correctly."""
import os
import subprocess

from objutils.elf import ElfParser
from objutils.elf.arm import attributes

from vlib import elfgen
from vlib.armabi import TAGS
from vlib.core import Stream

PROPERTY = "C18"
LEVEL = "exploration"
QUICK_SCALE = 4
RULE = ("attribute sections of both byte orders with any number of vendors, tags, integers (of any length, also padded) and strings, decoded directly and through an ELF file, "
        "every tag and every defined value exhaustively, and sections written by clang's assembler; distinct = distinct (byte order, vendors, tags) and (tag, value)")
REQUIRED = {"attributes": 8000, "strings": 1500, "meanings": 4000, "sections": 800, "through ELF files": 60, "long integers": 300, "unknown tags": 300, "repeated vendors": 80, "huge sections": 20, "sections without entries": 30}

PLAIN = [t for t in TAGS]
VENDORS = ["aeabi", "gnu", "ARM", "iar", "TI", "anonXyz", "llvm", "a", "SEGGER" * 9, "M\u00fcller"]
ASSEMBLED = []


def uleb(n, pad=0):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n or pad:
            out.append(b | 0x80)
            if not n:
                out += b"\x80" * (pad - 1) + b"\0"
                return bytes(out)
        else:
            out.append(b)
            return bytes(out)


def kind_of(tag):
    if tag in TAGS:
        return TAGS[tag][1]
    return "s" if tag > 32 and tag % 2 else "u"


def rand_string(rng):
    if rng.random() < 0.05:
        return rng.choice(["Gr\u00f6\u00dfe", "\u30c7\u30fc\u30bf 1", "\U0001f600"])
    return "".join(chr(rng.randint(0x20, 0x7E)) for _ in range(rng.choice([0, 1, 3, 7, 12, 40, 200])))


def rand_int(case):
    rng = case.rng
    n = rng.choice([0, 1, 2, 3, rng.randrange(16), 0x41, 0x52, 0x4D, 127, 128, 129, 255, 256, 16383, 16384, rng.getrandbits(32), rng.getrandbits(64), rng.getrandbits(100)])
    case.seen("long integers", n > 127)
    return n


def encode_attribute(rng, tag, value):
    k = kind_of(tag)
    pad = rng.randint(1, 3) if rng.random() < 0.05 else 0
    b = uleb(tag, rng.randint(1, 2) if rng.random() < 0.03 else 0)
    if k == "u":
        return b + uleb(value, pad)
    if k == "s":
        return b + value.encode() + b"\0"
    return b + uleb(value[0], pad) + value[1].encode() + b"\0"


def rand_attribute(case, rng):
    r = rng.random()
    if r < 0.8:
        tag = rng.choice(PLAIN)
    else:
        tag = rng.choice([rng.randint(33, 127), rng.randint(128, 400), rng.getrandbits(20) | 128, 69, 46, 48])
        tag = tag if tag not in TAGS else 77
    k = kind_of(tag)
    if k == "u":
        value = rng.choice(sorted(TAGS[tag][2])) if tag in TAGS and TAGS[tag][2] and rng.random() < 0.6 else rand_int(case)
    elif k == "s":
        value = rand_string(rng)
    else:
        value = (rand_int(case), rand_string(rng))
    return tag, value


def section(order, vendors):
    """vendors: [(name, attribute bytes)]"""
    out = b"A"
    for name, data in vendors:
        sub = b"\x01" + (len(data) + 5).to_bytes(4, order) + data
        v = name.encode() + b"\0"
        out += (len(v) + len(sub) + 4).to_bytes(4, order) + v + sub
    return out


def compare(case, got, want):
    case.equal(list(got), [n for n, _ in want], "wrong vendors")
    for name, attrs in want:
        have = [(a.tag, a.value) for a in got[name]]
        if have != attrs:
            i = next((i for i, (x, y) in enumerate(zip(have, attrs)) if x != y), min(len(have), len(attrs)))
            case.fail("wrong tags or values", "vendor %r, attribute %d: got %r, expected %r (%d, %d attributes)" % (name, i, have[i : i + 2], attrs[i : i + 2], len(have), len(attrs)))
        case.ev()
        for a, (tag, value) in zip(got[name], attrs):
            case.seen("attributes")
            case.seen("strings", kind_of(tag) == "s")
            if tag not in TAGS:
                case.seen("unknown tags")
                continue
            if name != "aeabi":
                continue
            title, _, meanings = TAGS[tag]
            case.check(a.tag_name == title, "wrong name of a tag", "%d: %r" % (tag, a.tag_name))
            if meanings and value in meanings:
                case.seen("meanings")
                m = a.description
                ok = isinstance(m, str) and " ".join(m.split()) == meanings[value]
                if not ok and tag == 20 and (value == 2 and m == 2 or value in (0, 1) and isinstance(m, str) and " ".join(m.split()) == TAGS[19][2][value]):
                    raise_known.append((tag, value, m))
                    continue
                case.check(ok, "wrong meaning of a value", "tag %d (%s), value %r: %r" % (tag, title, value, m))
            elif meanings:
                case.check(a.description == value, "meaning given for an undefined value", "tag %d (%s), value %r: %r" % (tag, title, value, a.description))
            else:
                case.check(a.description == value, "wrong description of a plain value", "tag %d (%s), value %r: %r" % (tag, title, value, a.description))


raise_known = []


def finish(case):
    """The recorded finding is raised at the end of a case, after everything else was compared."""
    if raise_known:
        known = list(raise_known)
        raise_known.clear()
        case.seen("recorded finding", len(known))
        case.fail("FP denormal meanings", "tag 20 described with the meanings of tag 19: %r" % (known[:2],))


def huge(case):
    """Thousands of attributes, long strings, many vendors."""
    rng = case.rng
    raise_known.clear()
    order = rng.choice(["little", "big"])
    k = case.index % 3
    names = ["aeabi", "gnu"] if k < 2 else ["aeabi"] + ["vendor%d" % i for i in range(rng.randint(257, 400))]
    want, parts = {}, []
    for n in names:
        attrs = [rand_attribute(case, rng) for _ in range(rng.randint(2000, 6000) if k == 0 else 8)]
        if k == 1:
            for i in range(len(attrs)):
                tag = rng.choice([5, 67, 4, 32, 77])
                s = "".join(rng.choices("abc xyz/.-_", k=rng.choice([255, 256, 1000, 4096, 65535, 65536, 70000])))
                v = rng.getrandbits(rng.choice([300, 1000, 3000]))
                attrs.insert(rng.randrange(len(attrs)), (tag, s if kind_of(tag) == "s" else (v, s)))
                attrs.insert(rng.randrange(len(attrs)), (rng.choice([t for t in PLAIN if kind_of(t) == "u"]), v))
        attrs = [(t, v) for t, v in attrs if t != 20]
        want[n] = attrs
        parts.append((n, b"".join(encode_attribute(rng, t, v) for t, v in attrs)))
    blob = section(order, parts)
    case.note(order=order, section=blob.hex(), vendors=len(names))
    compare(case, attributes.parse(blob, "<" if order == "little" else ">"), list(want.items()))
    case.seen("huge sections")
    case.distinct("huge", order, k, len(blob) // 1000)


def make(case, rng, order):
    if rng.random() < 0.02:
        case.seen("sections without entries")
        return [], section(order, [])
    names = rng.sample(VENDORS, rng.choice([1, 1, 1, 2, 3]))
    if "aeabi" not in names and rng.random() < 0.7:
        names[rng.randrange(len(names))] = "aeabi"
    if rng.random() < 0.25:  # linkers of other tools write more than one section of a vendor
        names += rng.choices(names, k=rng.randint(1, 2))
        rng.shuffle(names)
        case.seen("repeated vendors")
    want, parts = {}, []
    for n in names:
        attrs = [rand_attribute(case, rng) for _ in range(rng.choice([0, 1, 2, 5, 12, 30, 80]))]
        if n == "aeabi" and rng.random() < 0.9:
            attrs = [(t, v) for t, v in attrs if not (t == 20 and v in (0, 1, 2))]
        want.setdefault(n, []).extend(attrs)
        parts.append((n, b"".join(encode_attribute(rng, t, v) for t, v in attrs)))
    return list(want.items()), section(order, parts)


def synthetic(case):
    rng = case.rng
    raise_known.clear()
    order = rng.choice(["little", "big"])
    want, blob = make(case, rng, order)
    case.note(order=order, section=blob.hex(), expected=want)
    buf = blob if rng.random() < 0.8 else bytearray(blob)
    got = attributes.parse(buf, "<" if order == "little" else ">") if order == "big" or rng.random() < 0.5 else attributes.parse(buf)
    compare(case, got, want)
    case.check(bytes(buf) == blob, "section changed")
    again = attributes.parse(blob, "<" if order == "little" else ">")
    compare(case, again, want)
    case.seen("sections")
    case.distinct(order, tuple((n, tuple(t for t, _ in a)) for n, a in want))
    case.sample("%s endian: %s" % (order, [(n, len(a)) for n, a in want]))
    finish(case)


def every_value(case):
    """All tags of the ABI with all values up to 140, both byte orders."""
    raise_known.clear()
    tags = sorted(TAGS)
    tag = tags[case.index % len(tags)]
    order = ["little", "big"][case.index // len(tags) % 2]
    k = kind_of(tag)
    values = list(range(141)) if k == "u" else ["", "x", "ARM v7", "A" * 130] if k == "s" else [(i, s) for i in (0, 1, 2, 127, 128, 300) for s in ("", "gnu", "x" * 128)]
    attrs = [(tag, v) for v in values]
    blob = section(order, [("aeabi", b"".join(encode_attribute(_Fixed, t, v) for t, v in attrs))])
    compare(case, attributes.parse(blob, "<" if order == "little" else ">"), [("aeabi", attrs)])
    # and each alone
    for t, v in attrs:
        one = section(order, [("aeabi", encode_attribute(_Fixed, t, v))])
        compare(case, attributes.parse(one, "<" if order == "little" else ">"), [("aeabi", [(t, v)])])
    case.seen("sections", len(attrs))
    case.distinct("every", tag, order)
    finish(case)


class _Fixed:
    random = staticmethod(lambda: 0.99)


def through_elf(case):
    rng = case.rng
    raise_known.clear()
    while True:
        info = elfgen.rand_elf(rng, small=True, machine=40)
        if info.elf.shstrndx and len(info.elf.sections) > 1:
            break
    elf = info.elf
    want, blob = make(case, rng, elf.order)
    if rng.random() < 0.05:
        want, blob = [], rng.choice((b"", section(elf.order, [])))
        case.seen("sections without entries")
    # take over the name of some section that is not the string table
    victims = [i for i, s in enumerate(elf.sections) if i and s.type == 1 and s.name != ".comment"]
    new = elfgen.Sec(".ARM.attributes", 0x70000003, 0, 0, blob)
    has = bool(victims) and rng.random() < 0.9
    if has:
        i = rng.choice(victims)
        elf.sections[i] = new
        strtab = elf.sections[elf.shstrndx]
        new.name_off = len(strtab.content)
        strtab.content += b".ARM.attributes\0"
        strtab.size = len(strtab.content)
    path = os.path.join(case.scratch, "f.elf")
    with open(path, "wb") as f:
        f.write(elf.build(rng))
    for _ in range(2):
        ep = ElfParser(path)
        got = ep.arm_attributes
        if has:
            compare(case, got, want)
        else:
            case.check(not got, "attributes without attribute section")
        ep.db.close()
    case.seen("through ELF files")
    case.distinct("elf", elf.cls, elf.order, has, len(want))
    finish(case)


def prepare(base, tier):
    ASSEMBLED.clear()
    clang = "/usr/bin/clang"
    if not os.access(clang, os.X_OK):
        return
    import random

    rng = random.Random(7)
    d = os.path.join(base, "asm")
    os.makedirs(d)
    procs = []
    for n in range(12 if tier == "quick" else 60):
        target = ["armv7-none-eabi", "armebv7-none-eabi"][n % 2]
        want = {}
        lines = [".syntax unified", '.cpu cortex-a9'] if n % 3 == 0 else [".syntax unified"]
        for t in rng.sample([t for t in PLAIN if kind_of(t) == "u" and t not in (20,)], rng.randint(1, 12)):
            v = rng.choice([0, 1, 2, 3, 4, rng.randrange(128), rng.randrange(200, 70000)])
            want[t] = v
            lines.append(".eabi_attribute %d, %d" % (t, v))
        if rng.random() < 0.5:
            want[67] = "2.09"
            lines.append('.eabi_attribute 67, "2.09"')
        src, out = os.path.join(d, "a%d.s" % n), os.path.join(d, "a%d.o" % n)
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\nnop\n")
        procs.append((want, out, subprocess.Popen([clang, "--target=" + target, "-c", src, "-o", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for want, out, p in procs:
        if p.wait() == 0:
            with open(out, "rb") as f:
                ASSEMBLED.append((want, f.read()))


def assembled(case):
    if not ASSEMBLED:
        return
    raise_known.clear()
    want, blob = ASSEMBLED[case.index % len(ASSEMBLED)]
    path = os.path.join(case.scratch, "a.o")
    with open(path, "wb") as f:
        f.write(blob)
    ep = ElfParser(path)
    got = ep.arm_attributes
    case.equal(list(got), ["aeabi"], "wrong vendors")
    have = {a.tag: a.value for a in got["aeabi"]}
    for t, v in want.items():
        if v == 0 and t not in have:
            continue  # the default may be left out
        case.check(have.get(t) == v, "attribute differs from the assembler source", "tag %d: %r instead of %r" % (t, have.get(t), v))
    compare(case, {"aeabi": got["aeabi"]}, [("aeabi", [(a.tag, a.value) for a in got["aeabi"]])])
    case.seen("assembled files")
    ep.db.close()
    finish(case)


STREAMS = [
    Stream("huge", huge, 6, 600),
    Stream("synthetic", synthetic, 3000, 40000),
    Stream("every value", every_value, 2 * len(TAGS), 2 * len(TAGS)),
    Stream("through ELF", through_elf, 150, 1500),
    Stream("assembled", assembled, 12, 60),
]
