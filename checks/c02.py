"""C02: written hex files are well-formed and mean the same to independent decoders."""
import io
import os

import objutils

from vlib import gen, hexio
from vlib.core import Inconclusive, Stream
from vlib.formats import FORMATS, NAMES, FormatError

PROPERTY = "C02"
LEVEL = "exploration"
QUICK_SCALE = 8
RULE = ("files written for random and edge-of-format images, decoded by strict independent decoders (and GNU objcopy for Intel HEX and S-records); "
        "distinct = distinct (codec, row length class, number of runs, address widths, size class, alignment, 64K crossing, last address) combinations")
REQUIRED = {"files decoded": 3000, "records decoded": 20000, "objcopy conversions": 20, "files with headers": 30, "huge images": 8}
ASSUMPTIONS = ["GNU objcopy reads Intel HEX and S-records correctly", "S5 count fields may be as wide as the address field of the data records"]


def decode(case, fmt, text, mem, row):
    case.note(format=fmt, row_length=row, mem=gen.mem_hex(mem), text=bytes(text))
    try:
        d = FORMATS[fmt].decode(bytes(text))
    except FormatError as e:
        case.fail("malformed %s file" % fmt, str(e))
    except UnicodeDecodeError as e:
        case.fail("malformed %s file" % fmt, "non-ASCII output: %s" % e)
    case.seen("files decoded")
    case.seen("records decoded", len(d.rows))
    case.check(d.mem == mem, "%s file describes other data" % fmt, gen.mem_diff(d.mem, mem))
    if FORMATS[fmt].option_row:
        case.check(max(d.rows) <= row, "record longer than requested (%s)" % fmt, "%d > %d" % (max(d.rows), row))
    case.distinct(hexio.feature_key(fmt, mem, row))
    return d


def random_case(case):
    rng = case.rng
    fmt = hexio.pick_format(case)
    mem = hexio.mem_for(rng, fmt, big=rng.random() < 0.1)
    row = hexio.pick_row(rng, fmt, mem)
    img = gen.make_image(rng, mem, join=rng.random() < 0.9)
    case.sample("%s row=%d %s" % (fmt, row, gen.mem_hex(mem, 3)))
    how = rng.random()
    if how < 0.75:
        text = objutils.dumps(fmt, img, row_length=row)
    elif how < 0.85:
        row = 16
        text = objutils.dumps(fmt, img)
    else:
        path = os.path.join(case.scratch, "f")
        if FORMATS[fmt].option_row:
            objutils.dump(fmt, path, img, row_length=row)
        else:
            objutils.dump(fmt, path, img)
        with open(path, "rb") as f:
            text = f.read()
        case.seen("files written by dump()")
    decode(case, fmt, text, mem, row)


def huge(case):
    """More than 65536 records, thousands of runs, runs over many banks."""
    rng = case.rng
    fmt, kind = NAMES[(case.index * 5 + case.index // 13) % len(NAMES)], case.index % 3
    mem = gen.huge_mem(rng, min(FORMATS[fmt].max_address, 0xFFFFFFFF), kind)
    row = 1 if kind == 0 and FORMATS[fmt].option_row else rng.choice([16, 32, 57])
    if not FORMATS[fmt].option_row:
        row = 16
    case.note(kind=kind)
    decode(case, fmt, objutils.dumps(fmt, gen.plain_image(mem), row_length=row), mem, row)
    case.seen("huge images")


def edges(case):
    rng = case.rng
    fmt = hexio.pick_format(case)
    limit = FORMATS[fmt].max_address
    bounds = [b for b in (0, 0xFF, 0x100, 0x8000, 0x10000, 0x20000, 0x30000, 0xF0000, 0x100000, 0x110000, 0x1000000, 0x1010000, 0x80000000, 0xFFFF0000, limit + 1) if b <= limit + 1]
    mem = {}
    for b in rng.sample(bounds, rng.randint(1, min(3, len(bounds)))):
        for a in range(max(0, b - rng.choice([0, 1, 3, 16, 20])), min(limit + 1, b + rng.choice([0, 1, 3, 16, 20]))):
            mem[a] = rng.randrange(256)
    if not mem:
        mem[limit] = 0x5A
    row = hexio.pick_row(rng, fmt, mem)
    decode(case, fmt, objutils.dumps(fmt, gen.make_image(rng, mem), row_length=row), mem, row)


def srec_options(case):
    """S-record variants: forced record types, count record, start address, headers."""
    rng = case.rng
    rt = rng.choice([1, 2, 3])
    mem = gen.rand_mem(rng, (1 << (8 * (rt + 1))) - 1, max_sections=4)
    row = hexio.pick_row(rng, "srec", mem, rt)
    kw = {"record_type": rt} if rng.random() < 0.8 else {}
    if not kw:
        row = min(row, 250)
    if rng.random() < 0.5:
        kw["s5record"] = True
    start = None
    if rng.random() < 0.5:
        start = kw["start_address"] = rng.choice([0, 1, 0xFF, 0x100, 0x8000, 0xFFFF, rng.randrange(0x10000)])
    img = gen.make_image(rng, mem)
    headers = []
    if rng.random() < 0.4:
        # A header arrives in an image through a file that has one.
        h = rng.randbytes(rng.randint(1, 30))
        src = FORMATS["srec"].record("0", rng.choice([0, 0, rng.randrange(65536)]), h).encode() + b"\n" + bytes(objutils.dumps("srec", img))
        img = objutils.loads("srec", src)
        headers = [h]
        case.seen("files with headers")
    text = objutils.dumps("srec", img, row_length=row, **kw)
    d = decode(case, "srec", text, mem, row)
    case.equal([h for _, h in d.extra["headers"]], headers, "S0 header lost or changed")
    case.note(options=kw)
    case.distinct("options", tuple(sorted(kw)), rt, max(mem).bit_length(), bool(headers))


def objcopy(case):
    """GNU objcopy reads the file and must see the same memory."""
    rng = case.rng
    if not hexio.have_objcopy():
        raise Inconclusive("no objcopy")
    fmt = NAMES_OC[case.index % len(NAMES_OC)]
    mem = gen.rand_mem(rng, rng.choice([0xFFFF, 0xFFFFF, 0xFFFFFF, 0xFFFFFFFF]), max_sections=4)
    row = rng.choice([1, 7, 16, 32, 100, 250 if fmt == "srec" else 255])
    text = objutils.dumps(fmt, gen.make_image(rng, mem), row_length=row)
    case.note(format=fmt, row_length=row, mem=gen.mem_hex(mem), text=bytes(text))
    with open(os.path.join(case.scratch, "in"), "wb") as f:
        f.write(text)
    out = "ihex" if fmt == "srec" else "srec"
    rc, msg = hexio.objcopy(["-I", fmt, "-O", out] + (["--srec-forceS3"] if out == "srec" else []) + ["in", "out"], case.scratch)
    case.seen("objcopy conversions")
    case.check(rc == 0, "objcopy rejects %s file" % fmt, msg)
    with open(os.path.join(case.scratch, "out"), "rb") as f:
        res = f.read()
    d = FORMATS[out].decode(res) if out == "srec" else decode_ihex_lenient(res)
    case.check(d.mem == mem, "objcopy sees other data in %s file" % fmt, gen.mem_diff(d.mem, mem))
    case.distinct("objcopy", hexio.feature_key(fmt, mem, row))


def decode_ihex_lenient(text):
    """objcopy may mix segment and linear records; decode addresses only."""
    from vlib.formats import Decoded, hx, lines_of

    d, base = Decoded(), 0
    for ln in lines_of(text):
        raw = hx(ln[1:])
        typ = raw[3]
        if typ == 0:
            d.put(base + (raw[1] << 8 | raw[2]), raw[4:-1])
        elif typ in (2, 4):
            base = (raw[4] << 8 | raw[5]) << (4 if typ == 2 else 16)
    return d


NAMES_OC = ["ihex", "srec"]

STREAMS = [
    Stream("huge", huge, 8, 13 * 12),
    Stream("random", random_case, 13 * 600, 13 * 20000),
    Stream("edges", edges, 13 * 200, 13 * 6000),
    Stream("srec", srec_options, 1200, 30000),
    Stream("objcopy", objcopy, 160, 3000),
]
