"""C03: files of other conforming producers load to exactly the bytes they describe."""
import hashlib
import os
import re

import objutils

from vlib import gen, hexio
from vlib.core import Inconclusive, Stream, attempt
from vlib.formats import FORMATS, NAMES, chop, runs, shuffled

PROPERTY = "C03"
LEVEL = "exploration"
QUICK_SCALE = 6
RULE = ("files of an independent generator per codec (record order and size, digit case, line ends, addressing modes, non-data records) and of GNU objcopy, "
        "loaded and compared with the memory they describe; distinct = distinct (codec, record count class, line-end, case, non-data records, address widths, order) combinations")
REQUIRED = {"files loaded": 4000, "files with non-data records": 500, "permuted record cases": 500, "CRLF files": 800, "lower case files": 200, "objcopy files": 20, "files with other line ends": 5000, "dialects": 1000, "huge files": 8, "SHF documents": 500}
ASSUMPTIONS = ["the generators produce conforming files (cross-checked against the strict decoders where the layouts coincide)",
               "records do not describe an address twice"]


def mem_for(rng, fmt):
    lim = FORMATS[fmt].read_max
    k = rng.random()
    if lim > 0xFFFFFFFF:
        lim = 0xFFFFFFFF if k < 0.8 else lim
    elif lim > 0xFFFF and k < 0.4:
        lim = rng.choice([0xFFFF, 0xFFFFF, 0xFFFFFF])
    return gen.rand_mem(rng, lim, max_sections=5, big=rng.random() < 0.05)


def load(case, fmt, text):
    rng = case.rng
    if rng.random() < 0.15:
        path = os.path.join(case.scratch, "f")
        with open(path, "wb") as f:
            f.write(text)
        return objutils.load(fmt, path)
    return objutils.loads(fmt, text)


def judge(case, fmt, text, mem):
    case.note(format=fmt, mem=gen.mem_hex(mem), text=text)
    img = load(case, fmt, text)
    got = gen.mem_of(img)
    case.seen("files loaded")
    case.seen("format " + fmt)
    case.check(got == mem, "loaded data differs from what the %s file describes" % fmt, gen.mem_diff(got, mem))
    case.check([(x.start_address, bytes(x.data)) for x in img] == runs(mem), "contiguous data of the %s file is not joined" % fmt,
               "%d sections" % len(list(img)))
    for a, d in case.rng.sample(list(runs(mem)), 1):
        r = attempt(img.read, a, len(d))
        case.check(r.ok and r.value == bytes(d), "contiguous data of the %s file can not be read" % fmt, "%#x: %r" % (a, r))
    lines = text.split(b"\n")
    case.distinct(fmt, min(len(lines).bit_length(), 8), b"\r" in text, text != text.upper(), max(mem).bit_length(), min(mem).bit_length(), kinds(fmt, text))


def line_ends(case, fmt, text):
    """Other line ends than LF and CR LF: CR alone, with NULs as fillers, with blank lines."""
    rng = case.rng
    if fmt == "shf" or rng.random() < 0.6:
        return text
    text = text.replace(b"\r\n", b"\n")
    k = rng.randrange(4)
    if k == 0:
        text = text.replace(b"\n", b"\r")
    elif k == 1:
        text = text.replace(b"\n", rng.choice([b"\n", b"\r\n", b"\r"]) + bytes(rng.choice([1, 2, 10, 60])))
    elif k == 2:
        n = rng.choice([1, 1, 2])
        text = text.replace(b"\n", b"\n" * (n + 1)) + b"\n" * rng.randint(0, 2)
        if rng.random() < 0.5 and fmt != "rca":
            text = b"\n" + text
        if rng.random() < 0.5:
            text = text.replace(b"\n", b"\r\n")
    else:
        text = text.replace(b"\n", b"\r\n") + rng.choice([b"", b"\r\n", bytes(20), b"\0\r\n"])
    case.seen("files with other line ends")
    return text


def ash_dialect(rng, mem):
    """ASCII-Hex as described by docs/Data_Formats.pdf."""
    sep, end = rng.choice([(" ", ","), ("%", ","), ("'", ","), (",", ".")])
    start, stop = rng.choice([("\x02", "\x03"), ("\x01", "\x03"), ("\x12", "\x14")])
    eol = rng.choice(["\n", "\r\n", "\r"])
    lines, pos = [], 0  # addresses start with zero
    for a, data in chop(rng, mem, 16):
        if a != pos or rng.random() < 0.1:
            w = max(2, len("%X" % a))
            lines.append("$A%0*X%s" % (rng.choice([w, max(4, w), 8]), a, end))
        lines.append(sep.join("%02X" % b for b in data) + rng.choice([sep, sep, ""]))
        pos = a + len(data)
    lines[0] = start + rng.choice(["", " ", eol]) + lines[0]
    tail = rng.choice(["", "$S%04X," % (sum(mem.values()) & 0xFFFF)])
    if rng.random() < 0.7:
        lines.append(stop + tail)
    else:
        lines[-1] += rng.choice(["", " "]) + stop + tail
    return (eol.join(lines) + rng.choice([eol, ""])).encode("ascii")


def cosmac_dialect(rng, mem):
    """RCA Cosmac as described by docs/Data_Formats.pdf."""
    eol = rng.choice(["\n", "\r\n", "\r", "\r\n\0\0"])
    lines, pos = [], None
    for a, data in shuffled(rng, chop(rng, mem, rng.choice([16, 32]))):
        addr = "%0*X" % (rng.choice([1, 4]), a)
        hexed = data.hex().upper()
        if not lines:
            start = rng.choice(["!M", "?M"]) + addr + " "
            if start[0] == "?" or rng.random() < 0.4:
                lines += [start + ("," if start[0] == "!" else ""), hexed]
            else:
                lines.append(start + hexed)
        elif a == pos:
            lines[-1] += "," + rng.choice(["", "", " COMMENT"])
            lines.append(hexed)
        elif rng.random() < 0.25:  # the next command
            start = rng.choice(["!M", "?M"]) + addr
            lines += [start + (" ," if start[0] == "!" else ""), hexed]
        else:
            lines[-1] += ";" + rng.choice(["", "", " 1000 AB"])
            lines.append(addr + " " + hexed)
        pos = a + len(data)
    return (eol.join(lines) + rng.choice([eol, "\r", ""])).encode("ascii")


def tek_dialect(rng, mem):
    lines = FORMATS["tek"].generate(rng, mem).decode("ascii").split()
    if rng.random() < 0.5:  # abort record in place of the last one
        lines[-1] = "//" + rng.choice(["", "ABORTED", "0000100100"])
    while rng.random() < 0.4:
        lines.insert(rng.randint(0, len(lines) - 1), rng.choice(["COMMENT", "*** 12 ***", "0100"]))
    return "\r\n".join(lines + [""]).encode("ascii")


def mostec_dialect(rng, mem):
    lines = FORMATS["mostec"].generate(rng, mem).decode("ascii").split()
    n = len(lines) - 1
    lines[-1] = ";00%04X%04X" % (n, sum(n.to_bytes(2, "big")))
    while rng.random() < 0.5:  # ignored characters in front of the first semicolon
        lines.insert(0, rng.choice(["DUMP", "100000", "  ", "*"]))
    return "\r\n".join(lines + [""]).encode("ascii")


DIALECTS = {"ash": ash_dialect, "cosmac": cosmac_dialect, "tek": tek_dialect, "mostec": mostec_dialect}
FF = b"FF" * 16
SAMPLES = [  # the figures of docs/Data_Formats.pdf
    ("cosmac", b"!M0000 ,\r\n" + (FF + b",\r\n") * 4 + FF + b"\r\n", {0: 80}),
    ("ash", b"\x02$A0000,\r\n" + b"FF " * 16 + b"\r\n\x03$S0FF0,\r\n", {0: 16}),
    ("ash", b"\x02$A0000,\r\n" + b"FF%" * 16 + b"\r\n\x03$S0FF0,\r\n", {0: 16}),
    ("ash", b"\x02$A0000,\r\n" + b"FF'" * 16 + b"\r\n\x03$S0FF0,\r\n", {0: 16}),
    ("ash", b"\x02$A0000,\r\n" + b"FF," * 16 + b"\r\n\x03$S0FF0,\r\n", {0: 16}),
    ("ash", b"\x12$A0000,\r\n" + b"FF'" * 16 + b"\r\n\x14$S0FF0,\r\n", {0: 16}),
    ("mostec", b"".join(b";1000%02X%s10%02X\r\n" % (i * 16, FF, i * 16) for i in range(5)) + b";0000050005\r\n", {0: 80}),
    ("sig", b"".join(b":%s%s00\r\n" % (h, FF) for h in (b"00001020", b"00101060", b"002010A0", b"003010E0", b"00401021")) + b":000000\r\n", {0: 80}),
    ("tek", b"".join(b"/00%d010%02d%sE0\r\n" % (i, i + 1, FF) for i in range(5)) + b"/00000000\r\n", {0: 80}),
    ("srec", b"S00B00004441544120492F4FF3\r\n" + b"".join(b"S11300%d0%s%sC\r\n" % (i, FF, b"FEDCB"[i : i + 1]) for i in range(5)) + b"S9030000FC\r\n", {0: 80}),
    ("srec", b"S00B00004441544120492F4FF3\r\nS214FF0000" + FF + b"FC\r\n" + b"".join(b"S11300%d0%s%sC\r\n" % (i, FF, b"FEDCB"[i : i + 1]) for i in range(1, 5)) + b"S9030000FC\r\n", {0x10: 64, 0xFF0000: 16}),
    ("ihex", b":020000020000FC\r\n" + b"".join(b":1000%d000%s%s0\r\n" % (i, FF, b"0FEDC"[i : i + 1]) for i in range(5)) + b":00000001FF\r\n", {0: 80}),
    ("ihex", b":020000020000FC\r\n:020000040010EA\r\n" + b"".join(b":1000%d000%s%s0\r\n" % (i, FF, b"0FEDC"[i : i + 1]) for i in range(5)) + b":00000001FF\r\n", {0x100000: 80}),
]


def reference(case):
    """The dialects and samples of the reference document of the repository."""
    rng = case.rng
    if case.index < len(SAMPLES):
        fmt, text, blocks = SAMPLES[case.index]
        judge(case, fmt, text, {a + i: 255 for a, n in blocks.items() for i in range(n)})
        return
    fmt = sorted(DIALECTS)[case.index % len(DIALECTS)]
    mem = mem_for(rng, fmt)
    text = DIALECTS[fmt](rng, mem)
    case.seen("dialects")
    judge(case, fmt, text, mem)


def kinds(fmt, text):
    if fmt == "ihex":
        return tuple(sorted({ln[7:9] for ln in text.split(b"\n") if ln}))
    if fmt == "srec":
        return tuple(sorted({ln[:2] for ln in text.split(b"\n") if ln}))
    return len(set(map(len, text.split(b"\n")))) > 3


def generated(case):
    rng = case.rng
    fmt = hexio.pick_format(case)
    mem = mem_for(rng, fmt)
    text = FORMATS[fmt].generate(rng, mem)
    case.sample("%s %r" % (fmt, text[:120]))
    if b"\r\n" in text:
        case.seen("CRLF files")
    text = line_ends(case, fmt, text)
    if fmt != "shf" and text.upper() != text:
        case.seen("lower case files")
    k = kinds(fmt, text)
    if (fmt == "ihex" and len(k) > 2) or (fmt == "srec" and len(k) > 1) or b"%" in text and fmt == "etek":
        case.seen("files with non-data records")
    judge(case, fmt, text, mem)


def huge(case):
    """More than 65536 records, thousands of runs, runs over many banks."""
    rng = case.rng
    fmt = NAMES[(case.index * 5 + case.index // 13) % len(NAMES)]
    mem = gen.huge_mem(rng, min(FORMATS[fmt].read_max, 0xFFFFFFFF), case.index % 3)
    judge(case, fmt, line_ends(case, fmt, FORMATS[fmt].generate(rng, mem)), mem)
    case.seen("huge files")


def order(case):
    """Two to six small records in every order, with gaps, for codecs with addressed records."""
    rng = case.rng
    fmt = hexio.pick_format(case)
    start = rng.choice([0, 1, 0x80, 0xFE, 0x1000, 0xFFC0 if FORMATS[fmt].read_max == 0xFFFF else 0xFFF8])
    mem = {}
    a = start
    for _ in range(rng.randint(2, 6)):
        for _ in range(rng.randint(1, 4)):
            mem[a] = rng.randrange(256)
            a += 1
        a += rng.choice([0, 0, 1, 5])
    text = FORMATS[fmt].generate(rng, {k: v for k, v in mem.items() if k <= FORMATS[fmt].read_max})
    case.seen("permuted record cases")
    judge(case, fmt, text, {k: v for k, v in mem.items() if k <= FORMATS[fmt].read_max})


def ihex_addressing(case):
    """Intel HEX: every way of reaching an address (segment, linear, switching)."""
    rng = case.rng
    f = FORMATS["ihex"]
    lines, mem, base = [], {}, 0
    for _ in range(rng.randint(2, 12)):
        k = rng.random()
        if k < 0.4:
            seg = rng.choice([0, 1, 0x1000, 0xF000, 0xFFFF, rng.randrange(0x10000)])
            base = seg << 4
            lines.append(f.record(2, 0, seg.to_bytes(2, "big")))
        elif k < 0.75:
            seg = rng.choice([0, 1, 2, 0x7FFF, 0x8000, 0xFFFF, rng.randrange(0x10000)])
            base = seg << 16
            lines.append(f.record(4, 0, seg.to_bytes(2, "big")))
        n = rng.randint(1, 20)
        ofs = rng.choice([0, 0x10000 - n, rng.randint(0, 0x10000 - n)])
        if any(base + ofs + i in mem for i in range(n)):
            continue
        data = rng.randbytes(n)
        for i, b in enumerate(data):
            mem[base + ofs + i] = b
        lines.append(f.record(0, ofs, data))
        if rng.random() < 0.2:
            lines.append(f.record(rng.choice([3, 5]), 0, rng.randbytes(4)))
    if not mem:
        mem[base] = 0xA5
        lines.append(f.record(0, 0, b"\xa5"))
    lines.append(f.record(1, 0, b""))
    text = ("\n".join(lines) + "\n").encode()
    case.seen("files with non-data records")
    judge(case, "ihex", text, mem)


def objcopy(case):
    rng = case.rng
    if not hexio.have_objcopy():
        raise Inconclusive("no objcopy")
    out = ["ihex", "srec"][case.index % 2]
    kind = rng.choice(["binary", "binary", "chain"])
    if kind == "binary":
        n = rng.choice([1, 15, 16, 17, 300, 4096, 70000])
        data = gen.rand_bytes(rng, n)
        start = rng.choice([0, 0x100, 0xFFF0, 0xFFFF, 0x10000, 0xFFFF8, 0x12345678, 0xFFFFFF00 - n])
        mem = {start + i: b for i, b in enumerate(data)}
        with open(os.path.join(case.scratch, "in"), "wb") as f:
            f.write(data)
        args = ["-I", "binary", "-O", out, "--change-addresses", hex(start)]
        if rng.random() < 0.3:
            args += ["--set-start", hex(rng.choice([0, start, 0x1234]))]
        if out == "srec" and rng.random() < 0.5:
            args += ["--srec-len", str(rng.choice([1, 8, 30, 64])) ]
        if out == "srec" and rng.random() < 0.3:
            args += ["--srec-forceS3"]
    else:
        src = "srec" if out == "ihex" else "ihex"
        mem = gen.rand_mem(rng, rng.choice([0xFFFF, 0xFFFFFF, 0xFFFFFFFF]), max_sections=4)
        mem = {a: b for a, b in mem.items()}
        text = FORMATS[src].generate(rng, mem, terminated=True)
        with open(os.path.join(case.scratch, "in"), "wb") as f:
            f.write(text)
        args = ["-I", src, "-O", out]
    rc, msg = hexio.objcopy(args + ["in", "out"], case.scratch)
    if rc != 0:
        case.seen("objcopy declined")
        return
    with open(os.path.join(case.scratch, "out"), "rb") as f:
        text = f.read()
    case.seen("objcopy files")
    judge(case, out, text, mem)


def shf_xml(case):
    """SHF documents are XML: quotes, comments, CDATA, character references, document types, encodings, blocks without data."""
    rng = case.rng
    mem = mem_for(rng, "shf")
    t = FORMATS["shf"].generate(rng, mem).decode("ascii")
    decl, _, t = t.partition("?>")
    kinds = rng.sample(["quotes", "comments", "inside", "cdata", "references", "doctype", "empty", "instructions"], rng.randint(1, 4))
    empty = 'address="%x" word_size="%02x" length="%s" checksum="%s"' % (
        rng.choice([0, min(mem), max(mem), max(mem) + 1, rng.choice(sorted(mem)), 0xFFFFFFFF]), rng.choice([1, 2, 4]), rng.choice(["0", "00", "00000000"]), hashlib.sha1(b"").hexdigest())
    blocks = re.findall(r"\s*<block [^<>]*>[^<]*</block>", t)
    head, tail = t.split(blocks[0])[0], t.rpartition("</block>")[2]
    if "empty" in kinds:
        for _ in range(rng.choice([1, 1, 3])):
            blocks.insert(rng.randint(0, len(blocks)), "\n<block name=\"\" " + empty + rng.choice(["/>", " />", "></block>", ">\n</block>", "> </block>"]))
        head = re.sub(' blocks="[^"]*"', "", head)
    out = []
    for b in blocks:
        m = re.fullmatch(r"(\s*<block [^<>]*>)([^<]+)(</block>)", b)
        start, body, end = m.groups() if m else (b, "", "")
        if "quotes" in kinds and rng.random() < 0.7:
            start = re.sub(r'="([^"]*)"', r"='\1'", start).replace("='", rng.choice(["='", " = '"]))
        digits = [i for i, c in enumerate(body) if c.isalnum()]
        if digits and "references" in kinds:
            i = rng.choice(digits)
            body = body[:i] + rng.choice(["&#%d;", "&#x%x;"]) % ord(body[i]) + body[i + 1 :]
        elif digits and "cdata" in kinds:
            i, k = sorted(rng.sample(range(len(body) + 1), 2))
            body = body[:i] + "<![CDATA[" + body[i:k] + "]]>" + body[k:]
        elif digits and "inside" in kinds:
            i = rng.randint(0, len(body))
            body = body[:i] + rng.choice(["<!-- 00 -->", "<?pi 11 22?>", "<!---->"]) + body[i:]
        if "comments" in kinds and rng.random() < 0.5:
            start = rng.choice(["<!-- <block> -->", "\n<!-- 00 11 -->", "<!---->"]) + start
        if "instructions" in kinds and rng.random() < 0.5:
            start = "<?xml-stylesheet href='x'?>" + start
        out.append(start + body + end)
    t = head + "".join(out) + tail
    if "doctype" in kinds:
        t = "\n" + rng.choice(['<!DOCTYPE dump PUBLIC "-//IETF//DTD SHF//EN" "http://ietf.org/dtd/shf.dtd">', "<!DOCTYPE dump>",
                              "<!DOCTYPE dump [<!ELEMENT dump (block)+><!ATTLIST dump name CDATA #REQUIRED blocks CDATA #IMPLIED><!ELEMENT block (#PCDATA)>]>"]) + "\n" + t.lstrip()
    if "comments" in kinds:
        t += "<!-- end -->"
    enc = rng.choice(["utf-8", "utf-8", "utf-8", "ascii", "utf-8-sig", "utf-16", "iso-8859-1", "none"])
    if enc != "ascii" and enc != "none":
        t = t.replace('name="', 'name="\u00e4', 1)
    if enc == "none":
        text = t.lstrip().encode("ascii")
    else:
        text = ('<?xml version="1.0" encoding="%s"?>' % {"utf-8-sig": "UTF-8", "ascii": "US-ASCII"}.get(enc, enc.upper()) + t).encode(enc)
    case.note(kinds=kinds, encoding=enc)
    judge(case, "shf", text, mem)
    case.seen("SHF documents")
    case.distinct("shf xml", tuple(sorted(kinds)), enc)


def empty_and_garbage(case):
    """Non-data records alone never produce data."""
    rng = case.rng
    fmt = rng.choice(["ihex", "srec", "etek", "tek", "sig", "mostec"])
    f = FORMATS[fmt]
    if fmt == "ihex":
        recs = [f.record(4, 0, rng.randbytes(2)), f.record(5, 0, rng.randbytes(4)), f.record(2, 0, rng.randbytes(2)), f.record(3, 0, rng.randbytes(4)), f.record(1, 0, b"")]
    elif fmt == "srec":
        recs = [f.record("0", 0, rng.randbytes(9)), f.record("5", rng.randrange(65536), width=2), f.record(rng.choice("789"), rng.randrange(65536))]
    elif fmt == "etek":
        recs = [f.record("8", "4%04X" % rng.randrange(65536))]
    else:
        recs = [{"tek": "/00000000", "sig": ":000000", "mostec": ";00"}[fmt]]
    recs = recs[rng.randint(0, len(recs) - 1) :]
    text = ("\n".join(recs) + "\n").encode()
    case.note(format=fmt, text=text)
    got = gen.mem_of(objutils.loads(fmt, text))
    case.check(got == {}, "data out of nothing (%s)" % fmt, gen.mem_hex(got))
    case.seen("files without data")


STREAMS = [
    Stream("huge", huge, 8, 13 * 12),
    Stream("generated", generated, 13 * 700, 13 * 25000),
    Stream("reference", reference, 400, 20000),
    Stream("order", order, 13 * 120, 13 * 4000),
    Stream("ihex", ihex_addressing, 1000, 30000),
    Stream("objcopy", objcopy, 160, 3000),
    Stream("shf xml", shf_xml, 130, 4000),
    Stream("empty", empty_and_garbage, 120, 1500),
]
