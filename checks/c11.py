"""C11: images never alias or modify their inputs or one another."""
import array
import io

import numpy as np
import objutils
from objutils import Image, Section
from objutils.section import join_sections

from vlib import gen, hexio, model, ops
from vlib.core import Stream, attempt
from vlib.formats import FORMATS, NAMES

PROPERTY = "C11"
LEVEL = "exploration"
QUICK_SCALE = 7
RULE = ("histories that build several images from the same buffers, sections, lists and other images and then mutate one object at a time (through images, "
        "sections or the caller's buffers); byte snapshots of every live object before and after each step; distinct = distinct (how the objects were built, "
        "sequence of mutations)")
REQUIRED = {"mutations": 10000, "objects watched": 100000, "read snapshots": 5000, "default sections": 1000, "codec steps": 2000, "joins": 2000, "huge buffers": 50}


class World:
    """Live objects and the bytes each of them must show."""

    def __init__(self, case):
        self.case = case
        self.watch = []  # [name, observe, expected]

    def add(self, name, observe):
        self.watch.append([name, observe, observe()])

    def verify(self, what, but=()):
        for w in self.watch:
            if w[0] in but:
                w[2] = w[1]()
                continue
            now = w[1]()
            self.case.ev()
            if now != w[2]:
                self.case.fail("%s changed by %s" % (w[0].split("#")[0], what.split("(")[0]), "%s: %s" % (w[0], what), before=w[2], after=now)
        self.case.seen("objects watched", len(self.watch))


def raw(buf):
    if isinstance(buf, (array.array, memoryview)):
        return buf.tobytes()
    if isinstance(buf, Section):
        return (buf.start_address, bytes(buf.data))
    if isinstance(buf, (list, tuple)):
        return list(buf)
    if isinstance(buf, str):
        return buf
    return bytes(buf)


def poke(rng, buf):
    """The caller modifies a buffer of his own; False if immutable."""
    if isinstance(buf, Section):
        buf.data[rng.randrange(len(buf.data))] ^= 0xFF
        return True
    if isinstance(buf, (bytearray, list)) or isinstance(buf, array.array):
        i = rng.randrange(len(buf))
        buf[i] ^= 0x55
        return True
    return False


def mutate_image(rng, img):
    """One successful write through an image; returns a description."""
    s = rng.choice(list(img.sections))
    a = s.start_address + rng.randrange(len(s))
    left = s.start_address + len(s) - a
    k = rng.choice(["write", "numeric", "array", "string", "ndarray", "insert", "insert"])
    old = bytes(img.read(a, 1))[0]
    new = old ^ (1 + rng.randrange(255))
    if k == "write":
        img.write(a, bytes([new]) + rng.randbytes(min(left - 1, rng.randint(0, 5))))
    elif k == "numeric":
        img.write_numeric(a, new, "uint8_le")
    elif k == "array":
        img.write_numeric_array(a, [new], "uint8_be")
    elif k == "string":
        img.write_string(a, "") if left < 2 else img.write_string(a, "z")
    elif k == "ndarray":
        img.write_ndarray(a, np.array([new], dtype="uint8"))
    else:
        end = max(x.start_address + len(x) for x in img.sections)
        img.insert_section(rng.randbytes(3), end + rng.choice([0, 0, 5]))
    return "%s(%#x)" % (k, a)


def big_regions(rng):
    out, a = [], rng.choice([0, 0x1000, 1 << 32])
    for _ in range(rng.choice([1, 2, 3])):
        n = rng.choice([4096, 5000, 65535, 65536, 65537, 100000, 200001])
        out.append((a, gen.rand_bytes(rng, n)))
        a += n + rng.choice([0, 0, 1, 16])
    return out


def huge(case):
    """Buffers of up to some hundred kilobytes."""
    k = case.index % 3
    regions = big_regions(case.rng)
    if k == 0:
        buffers(case, regions)
    elif k == 1:
        reads(case, regions)
    else:
        fmts = [f for f in NAMES if FORMATS[f].max_address > 0xFFFF] + ["bin"]
        codecs(case, case.rng.choice(fmts), gen.huge_mem(case.rng, 0xFFFFFF, 2))
    case.seen("huge buffers")


def buffers(case, regions=None):
    rng = case.rng
    w = World(case)
    regions = regions or ops.rand_regions(rng, n=rng.choice([1, 1, 2, 3]))
    inputs = []
    for i, (a, d) in enumerate(regions):
        buf = ops.as_input(rng, d) if rng.random() < 0.5 else bytearray(d)
        inputs.append(buf)
        w.add("caller's %s#%d" % (type(buf).__name__, i), lambda b=buf: raw(b))
    how = []
    images = []

    def add_image(img, kind):
        images.append(img)
        how.append(kind)
        w.add("image#%d" % (len(images) - 1), lambda: ops.layout_of(img))

    sections = [Section(a, b) for (a, _), b in zip(regions, inputs)]
    for i, s in enumerate(sections):
        w.add("caller's section#%d" % i, lambda s=s: (s.start_address, bytes(s.data)))
    lst = list(sections)
    w.add("caller's list", lambda: [id(s) for s in lst])
    again = [Section(a, b) for (a, _), b in zip(regions, inputs)]
    for i, s in enumerate(again):
        w.add("second section#%d" % i, lambda s=s: (s.start_address, bytes(s.data)))
    w.verify("Section()")
    for _ in range(rng.randint(2, 4)):
        k = rng.choice(["list", "list", "tuple", "insert buffers", "insert sections", "from image", "from sections of image", "join_sections"])
        if k == "list":
            add_image(Image(lst), k)
        elif k == "tuple":
            add_image(Image(tuple(lst)), k)
        elif k == "insert buffers":
            img = Image()
            for (a, _), b in zip(regions, inputs):
                img.insert_section(b, a)
            add_image(img, k)
        elif k == "insert sections":
            img = Image()
            for s in sections:
                img.insert_section(s, s.start_address)
            add_image(img, k)
        elif k == "from image" and images:
            add_image(Image(rng.choice(images)), k)
        elif k == "from sections of image" and images:
            add_image(Image(rng.choice(images).sections), k)
        else:
            srt = sorted(sections, key=lambda s: s.start_address)
            ids = [id(s) for s in srt]
            res = join_sections(srt)
            case.check([id(s) for s in srt] == ids, "caller's list changed by join_sections")
            case.seen("joins")
            w.verify("join_sections(")
            add_image(Image(list(res)), k)
        w.verify("building (%s)" % k)
    case.note(regions=[(hex(a), d.hex()) for a, d in regions], inputs=[type(b).__name__ for b in inputs], images=how)
    log = []
    for _ in range(rng.randint(4, 12)):
        k = rng.random()
        if k < 0.6 and images:
            i = rng.randrange(len(images))
            what = "image#%d.%s" % (i, mutate_image(rng, images[i]))
            log.append(what)
            case.note(log=log)
            w.verify("writing to another image (%s)" % what, ["image#%d" % i])
        elif k < 0.8:
            i = rng.randrange(len(inputs))
            if not poke(rng, inputs[i]):
                continue
            log.append("buffer %d" % i)
            case.note(log=log)
            w.verify("changing the caller's buffer", ["caller's %s#%d" % (type(inputs[i]).__name__, i)])
        elif k < 0.9:
            i = rng.randrange(len(sections))
            which, name = rng.choice([(sections, "caller's section"), (again, "second section")])
            which[i].write(which[i].start_address, bytes([which[i].data[0] ^ 0xAA]))
            log.append("%s %d" % (name, i))
            case.note(log=log)
            w.verify("writing to a section", ["%s#%d" % (name, i)])
        else:
            lst.append(Section(1 << 50, b"more")) if rng.random() < 0.5 else lst.reverse()
            log.append("list")
            case.note(log=log)
            w.verify("changing the caller's list", ["caller's list"])
        case.seen("mutations")
    case.distinct(tuple(how), tuple(type(b).__name__ for b in inputs), tuple(x.split("(")[0] for x in log))
    case.sample("images built by %s; %s" % (how, log[:6]))


def defaults(case):
    """Default-constructed sections and images are independent of each other."""
    rng = case.rng
    n = rng.randint(2, 5)
    secs = [Section() if rng.random() < 0.6 else Section(rng.choice([0, 100, 7])) for _ in range(n)]
    i = rng.randrange(n)
    data = gen.rand_bytes(rng, rng.randint(1, 20))
    k = rng.choice(["extend", "append", "slice", "insert"])
    if k == "extend":
        secs[i].data.extend(data)
    elif k == "append":
        secs[i].data.append(data[0])
        data = data[:1]
    elif k == "slice":
        secs[i].data[0:0] = data
    else:
        secs[i].data.insert(0, data[0])
        data = data[:1]
    for j, s in enumerate(secs):
        case.check(bytes(s.data) == (data if i == j else b""), "default sections share their storage", "section %d of %d shows %r" % (j, n, bytes(s.data)))
    case.check(bytes(Section().data) == b"", "default sections share their storage", "new section shows %r" % bytes(Section().data))
    imgs = [Image() for _ in range(3)]
    imgs[0].insert_section(data, 16)
    imgs[0].meta["x"] = 1
    case.check(len(imgs[1]) == len(imgs[2]) == len(Image()) == 0, "empty images share their sections")
    case.check(not imgs[1].meta and not Image().meta, "images share their meta data")
    imgs[1].insert_section(data[::-1], 16)
    case.check(bytes(imgs[0].read(16, len(data))) == data, "empty images share their sections")
    case.seen("default sections", n)
    case.distinct("defaults", n, i, k, len(data))


def reads(case, regions=None):
    """What a read returned does not change afterwards (and changing it does not change the image)."""
    rng = case.rng
    regions = regions or ops.rand_regions(rng, n=2)
    obj = Image([Section(a, d) for a, d in regions]) if rng.random() < 0.6 else Section(*regions[0])
    m = model.Model(regions if isinstance(obj, Image) else regions[:1])
    a, d = m.regions[0]
    n = len(d)
    before = bytes(d)
    held = [("read", obj.read(a, n), lambda v: bytes(v))]
    held.append(("read_numeric_array", obj.read_numeric_array(a, n, "uint8_le"), lambda v: bytes(v)))
    held.append(("read_ndarray", obj.read_ndarray(a, n, "uint8_le", (n,)), lambda v: v.tobytes()))
    held.append(("read_string", obj.read_string(a, length=n), lambda v: v.encode("latin1")))
    if isinstance(obj, Section):
        held.append(("tobytes", obj.tobytes(), bytes))
        held.append(("tolist", obj.tolist(), bytes))
    k = rng.randrange(n)
    obj.write(a + k, bytes([before[k] ^ 0xFF]))
    want = bytearray(before)
    want[k] ^= 0xFF
    case.note(object=type(obj).__name__, at=k, length=n)
    for name, v, f in held:
        case.check(f(v) == before, "result of %s changed by a later write" % name)
        case.seen("read snapshots")
    for name, v, f in held:
        if name == "read" and isinstance(v, bytearray):
            v[0] ^= 0x5A
        elif name == "read_ndarray" and v.flags.writeable:
            v[0] ^= 0x5A
        elif name == "tolist":
            v[0] ^= 0x5A
        case.check(bytes(obj.read(a, n)) == bytes(want), "memory changed through the result of %s" % name)
    # an array that was written stays the caller's
    arr = np.frombuffer(bytearray(want), dtype="uint8").copy()
    obj.write_ndarray(a, arr)
    src = bytearray(want)
    obj.write(a, src)
    lst = list(want)
    obj.write_numeric_array(a, lst, "uint8_le")
    arr[0] ^= 0xFF
    src[0] ^= 0xFF
    lst[0] ^= 0xFF
    case.check(bytes(obj.read(a, n)) == bytes(want), "memory shares the storage of written data")
    obj.write(a, bytes(n))
    case.check(arr.tobytes()[1:] == bytes(want)[1:] and bytes(src)[1:] == bytes(want)[1:] and lst[1:] == list(want)[1:], "written data changed by a later write")
    case.distinct("read", type(obj).__name__, n, k)


def codecs(case, fmt=None, mem=None):
    """Images going through codecs: nothing of the source changes, the loaded image is independent."""
    rng = case.rng
    if fmt is None:
        fmt = (NAMES + ["bin"])[case.index % (len(NAMES) + 1)]
        limit = FORMATS[fmt].max_address if fmt != "bin" else 0xFFFF
        mem = gen.rand_mem(rng, limit, max_sections=3)
    if fmt == "bin" and len(mem) < 65536:
        base = min(mem)
        mem = {a: b for a, b in mem.items() if a - base < 3000}
    w = World(case)
    img = gen.plain_image(mem)
    w.add("written image", lambda: (ops.layout_of(img), dict(img.meta), img.address))
    text = objutils.dumps(fmt, img)
    w.verify("dumps()")
    objutils.dump(fmt, io.BytesIO(), img)
    w.verify("dump()")
    first, second = bytearray(text), bytes(text)
    loaded = [objutils.loads(fmt, second), objutils.loads(fmt, second), objutils.load(fmt, io.BytesIO(second))]
    out = attempt(objutils.loads, fmt, first)
    case.check(bytes(first) == second, "buffer changed by loads()")
    if out.ok:
        loaded.append(out.value)
    for i, x in enumerate(loaded):
        w.add("loaded image#%d" % i, lambda x=x: (ops.layout_of(x), dict(x.meta)))
    first[:] = bytes(len(first))
    w.verify("changing the buffer that was loaded")
    for _ in range(3):
        i = rng.randrange(len(loaded))
        what = mutate_image(rng, loaded[i])
        w.verify("writing to a loaded image (%s)" % what, ["loaded image#%d" % i])
        case.seen("mutations")
    mutate_image(rng, img)
    w.verify("writing to the source image", ["written image"])
    case.check(bytes(text) == second, "written text changed")
    case.seen("codec steps")
    case.distinct("codec", fmt, tuple((a, len(d)) for a, d in gen.runs(mem)))


def failing(case):
    """Rejected operations do not change the arguments either."""
    rng = case.rng
    regions = ops.rand_regions(rng, n=2)
    img = Image([Section(a, d) for a, d in regions])
    a, d = regions[0]
    w = World(case)
    w.add("image", lambda: ops.layout_of(img))
    buf = bytearray(gen.rand_bytes(rng, len(d) + 200))
    lst = list(buf)
    arr = np.frombuffer(bytes(buf), dtype="uint8").copy()
    sec = Section(a, buf)
    for name, o in (("bytearray", lambda: bytes(buf)), ("list", lambda: list(lst)), ("ndarray", lambda: arr.tobytes()), ("section", lambda: (sec.start_address, bytes(sec.data)))):
        w.add("caller's " + name, o)
    end = regions[-1][0] + len(regions[-1][1])
    for fn, args in (("write", (a, buf)), ("write", (end, buf)), ("insert_section", (buf, a)), ("insert_section", (sec, a)), ("write_numeric_array", (end, lst, "uint8_le")),
                     ("write_ndarray", (end, arr)), ("insert_section", (lst, a))):
        out = attempt(getattr(img, fn), *args)
        case.check(not out.ok, "invalid access accepted", fn)
        w.verify("rejected %s(" % fn)
    case.distinct("failing", tuple(len(d) for _, d in regions))


STREAMS = [
    Stream("huge", huge, 9, 900),
    Stream("buffers", buffers, 8000, 150000),
    Stream("defaults", defaults, 800, 8000),
    Stream("reads", reads, 2000, 40000),
    Stream("codecs", codecs, (len(NAMES) + 1) * 150, (len(NAMES) + 1) * 3000),
    Stream("failing", failing, 500, 5000),
]
