"""C07: file, file-object and in-memory entry points agree and are free of side effects."""
import builtins
import copy
import io
import os

import objutils
from objutils import Image, Section

from vlib import gen, hexio
from vlib.core import Stream, attempt
from vlib.formats import FORMATS, NAMES

PROPERTY = "C07"
LEVEL = "exploration"
QUICK_SCALE = 10
RULE = ("all codecs x images x entry points (path, file object on disk, in-memory file object, bytes, str), repeated on the same objects, with monitors on "
        "every file the library opens and deep snapshots of the images and buffers involved; distinct = distinct (codec, image class, entry point history)")
REQUIRED = {"writes compared": 3000, "loads compared": 3000, "library-opened files observed": 1000, "binary round trips": 200, "text as binary data": 100, "huge files": 8, "files of a buffer's size": 100}
ALL = NAMES + ["bin"]


class OpenTap:
    """Records every file opened while active (references kept, so nothing is closed behind our back)."""

    def __enter__(self):
        self.files = []
        self.orig = builtins.open
        tap = self

        def opener(*a, **k):
            f = tap.orig(*a, **k)
            tap.files.append((a[0] if a else k.get("file"), f))
            return f

        builtins.open = io.open = opener
        return self

    def __exit__(self, *exc):
        builtins.open = io.open = self.orig

    def open_ones(self):
        return [str(n) for n, f in self.files if not f.closed]


class MemFile(io.BytesIO):
    """In-memory file that remembers its contents when closed."""

    final = None

    def close(self):
        if not self.closed:
            self.final = self.getvalue()
        super().close()

    def contents(self):
        return self.final if self.closed else self.getvalue()


class ShortFile(io.BytesIO):
    """Reads with a size return less than asked for (as pipes, sockets or unbuffered files do)."""

    def read(self, size=-1):
        return super().read(size if size is None or size < 0 else min(size, 1 + size // 3))

    read1 = read

    def readline(self, size=-1):
        return super().readline(size if size is None or size < 0 else min(size, 1 + size // 3))


def snap(image):
    return ([(s.start_address, bytes(s.data), type(s.data)) for s in image.sections], [id(s) for s in image.sections], copy.deepcopy(dict(image.meta)), len(image))


def fds():
    return len(os.listdir("/proc/self/fd"))


def huge(case):
    """Files of several hundred kilobytes."""
    entry_points(case, True)
    case.seen("huge files")


def entry_points(case, huge=False):
    rng = case.rng
    fmt = ALL[case.index % len(ALL)]
    if huge:
        fmt = ALL[(case.index * 5 + case.index // len(ALL)) % len(ALL)]
        mem = gen.huge_mem(rng, min(FORMATS[fmt].max_address, 0xFFFFFFFF), rng.choice([1, 2])) if fmt != "bin" else gen.huge_mem(rng, 0xFFFFFFFF, 2)
    elif fmt == "bin":
        base = rng.choice([0, 0x1000, rng.getrandbits(32)])
        mem = {base + a: b for a, b in gen.rand_mem(rng, 0x3FFF, max_sections=3).items()}
    else:
        mem = hexio.mem_for(rng, fmt)
    img = gen.make_image(rng, mem)
    k = rng.random()
    if k < 0.3 and fmt != "bin":
        img = objutils.loads(fmt, FORMATS[fmt].generate(rng, {a & FORMATS[fmt].max_address: b for a, b in mem.items()}))
        mem = gen.mem_of(img)
    case.note(format=fmt, mem=gen.mem_hex(mem))
    kw = {}
    if fmt in FORMATS and FORMATS[fmt].option_row and rng.random() < 0.5:
        kw = {"row_length": hexio.pick_row(rng, fmt, mem)}
        if fmt == "srec":
            kw["row_length"] = min(kw["row_length"], 200)
    elif fmt == "bin" and rng.random() < 0.5:
        kw = {"filler": rng.randrange(256)}
    before = snap(img)
    ref = bytes(objutils.dumps(fmt, img, **kw))
    case.check(snap(img) == before, "writing modifies the image (%s)" % fmt, "dumps")
    history = []
    nfd = fds()
    for step in range(5):
        how = rng.choice(["path", "overwrite", "file", "memory", "dumps"])
        history.append(how)
        path = os.path.join(case.scratch, "w%d" % step)
        if how == "overwrite":
            with open(path, "wb") as f:
                f.write(rng.randbytes(rng.choice([1, len(ref) + 100])))
        with OpenTap() as tap:
            if how in ("path", "overwrite"):
                objutils.dump(fmt, path, img, **kw)
            elif how == "file":
                fo = tap.orig(path, "wb")
                objutils.dump(fmt, fo, img, **kw)
            elif how == "memory":
                mf = MemFile()
                objutils.dump(fmt, mf, img, **kw)
            else:
                got = bytes(objutils.dumps(fmt, img, **kw))
        if tap.files:
            case.seen("library-opened files observed", len(tap.files))
        case.check(not tap.open_ones(), "file opened by the writer left open (%s)" % fmt, str(tap.open_ones()))
        if how == "file":
            fo.close()
        if how in ("path", "overwrite", "file"):
            with open(path, "rb") as f:
                got = f.read()
        elif how == "memory":
            got = mf.contents()
        case.seen("writes compared")
        case.check(got == ref, "entry points write different data (%s, %s)" % (fmt, how), got=got[:500], want=ref[:500])
        case.check(snap(img) == before, "writing modifies the image (%s)" % fmt, how)
    # loading
    text = ref
    want = mem if fmt != "bin" else None
    addr = {} if fmt != "bin" else rng.choice([{}, {"address": min(mem)}, {"address": 0x8000}])
    path = os.path.join(case.scratch, "r")
    with open(path, "wb") as f:
        f.write(text)
    first = None
    ascii_ok = fmt != "bin" and all(b < 128 for b in text)
    for step in range(6):
        how = rng.choice(["path", "file", "memory", "short", "bytes", "bytearray"] + (["str"] if ascii_ok else []))
        history.append("load " + how)
        with OpenTap() as tap:
            if how == "path":
                r = objutils.load(fmt, path, **addr)
            elif how == "file":
                fo = tap.orig(path, "rb")
                r = objutils.load(fmt, fo, **addr)
            elif how == "memory":
                r = objutils.load(fmt, io.BytesIO(text), **addr)
            elif how == "short":
                r = objutils.load(fmt, ShortFile(text), **addr)
            elif how == "bytes":
                r = objutils.loads(fmt, text, **addr)
            elif how == "bytearray":
                buf = bytearray(text)
                r = objutils.loads(fmt, buf, **addr)
                case.check(buf == text, "reading modifies the buffer (%s)" % fmt)
            else:
                r = objutils.loads(fmt, text.decode("ascii"), **addr)
        if tap.files:
            case.seen("library-opened files observed", len(tap.files))
        case.check(not tap.open_ones(), "file opened by the reader left open (%s)" % fmt, str(tap.open_ones()))
        if how == "file":
            fo.close()
        with open(path, "rb") as f:
            case.check(f.read() == text, "reading modifies the file (%s)" % fmt)
        got = gen.mem_of(r)
        case.seen("loads compared")
        if want is not None:
            case.check(got == want, "entry points load different data (%s, %s)" % (fmt, how), gen.mem_diff(got, want))
        else:
            a0 = addr.get("address", 0)
            case.check(got == {a0 + i: b for i, b in enumerate(text)}, "entry points load different data (bin, %s)" % how)
        if first is None:
            first = r
        case.check((r == first) is True and (r != first) is False, "images loaded through different entry points compare unequal (%s, %s)" % (fmt, how))
        case.check({k: v for k, v in dict(r.meta).items()} == {k: v for k, v in dict(first.meta).items()}, "entry points load different meta-data (%s, %s)" % (fmt, how))
    case.check(fds() == nfd, "descriptors leaked (%s)" % fmt, "%d -> %d" % (nfd, fds()))
    case.distinct(fmt, tuple(history), tuple(kw))
    case.sample("%s %s %s" % (fmt, kw, history))


def size_of(fmt, n, kw):
    return len(objutils.dumps(fmt, Image([Section(0, bytes(n))]), **kw))


def sizes(case):
    """Files whose size is that of a buffer, one more or less: 4K, 8K ... 128K."""
    rng = case.rng
    fmt = ALL[case.index % len(ALL)]
    size = 1 << (12 + case.index // len(ALL) % 6)
    kw = {}
    if fmt in FORMATS and FORMATS[fmt].option_row and rng.random() < 0.5:
        kw = {"row_length": rng.choice([16, 17, 24, 32])}
    top = FORMATS[fmt].max_address + 1 if fmt != "bin" else size
    lo, hi = 1, min(size, top)
    while lo < hi:
        mid = (lo + hi) // 2
        if size_of(fmt, mid, kw) < size:
            lo = mid + 1
        else:
            hi = mid
    path = os.path.join(case.scratch, "s")
    done = set()
    for n in range(max(lo - 24, 1), min(lo + 25, top + 1)):
        data = bytes(n - 1) + b"\1"
        img = Image([Section(0, data)])
        text = bytes(objutils.dumps(fmt, img, **kw))
        if abs(len(text) - size) > 2 or len(text) in done:
            continue
        done.add(len(text))
        case.note(format=fmt, bytes=n, size=len(text))
        objutils.dump(fmt, path, img, **kw)
        with open(path, "rb") as f:
            case.check(f.read() == text, "entry points write different data (%s, path)" % fmt, "file of %d bytes" % len(text))
        mf = MemFile()
        objutils.dump(fmt, mf, img, **kw)
        case.check(mf.contents() == text, "entry points write different data (%s, memory)" % fmt, "file of %d bytes" % len(text))
        want = {i: b for i, b in enumerate(data)}
        for how, src in (("path", path), ("file", open(path, "rb")), ("memory", io.BytesIO(text)), ("bytes", text)):
            r = objutils.loads(fmt, src) if how == "bytes" else objutils.load(fmt, src)
            case.check(gen.mem_of(r) == want, "entry points load different data (%s, %s)" % (fmt, how), "file of %d bytes" % len(text))
        case.seen("files of a buffer's size")
        case.distinct("size", fmt, len(text))


def binary(case):
    """Plain binary data loaded at an address and saved again is the identical byte string."""
    rng = case.rng
    data = gen.rand_bytes(rng, rng.choice([1, 2, 15, 16, 255, 256, 4096, rng.randint(1, 9000)] if rng.random() < 0.98 else [65535, 65536, 65537, 1 << 17, 300000, rng.randint(1 << 16, 1 << 21)]))
    address = rng.choice([0, 1, 0xFFFF, 0x10000, 0xFFFFFFFF, 0x100000000, rng.getrandbits(48)])
    how = rng.choice(["bytes", "path", "file", "str"])
    if how == "str" or rng.random() < 0.3:  # Text, control characters included.
        data = bytes(rng.choice(b"\r\n\r\n\0\x1a\t  :S%AZaz09\x7f" if rng.random() < 0.7 else range(128)) for _ in range(rng.choice([1, 2, 3, 10, len(data)])))
        case.seen("text as binary data")
    if how == "bytes":
        img = objutils.loads("bin", data, address)
    elif how == "str":
        img = objutils.loads("bin", data.decode("ascii"), address)
    else:
        path = os.path.join(case.scratch, "b")
        with open(path, "wb") as f:
            f.write(data)
        img = objutils.load("bin", path if how == "path" else open(path, "rb"), address=address)
    case.note(address=hex(address), data=data, how=how)
    case.check(gen.mem_of(img) == {address + i: b for i, b in enumerate(data)}, "binary data loaded incorrectly")
    case.check(bytes(objutils.dumps("bin", img)) == data, "binary round trip differs")
    case.check(bytes(objutils.dumps("bin", img, filler=0)) == data, "binary round trip differs")
    mf = MemFile()
    objutils.dump("bin", mf, img)
    case.check(mf.contents() == data, "binary round trip differs")
    # lossless through a text format, if representable
    fmt = rng.choice([n for n in NAMES if address + len(data) - 1 <= FORMATS[n].max_address] or ["shf"])
    back = objutils.loads(fmt, objutils.dumps(fmt, img))
    case.check(bytes(objutils.dumps("bin", back)) == data, "binary data changed by %s" % fmt)
    case.seen("binary round trips")
    case.distinct("bin", len(data), address, how, fmt)


def empty(case):
    """Empty images: same (empty) result everywhere, no crash, image unchanged."""
    fmt = ALL[case.index % len(ALL)]
    img = Image() if case.index % 2 else Image([])
    case.note(format=fmt)
    ref = bytes(objutils.dumps(fmt, img))
    path = os.path.join(case.scratch, "e")
    objutils.dump(fmt, path, img)
    with open(path, "rb") as f:
        case.check(f.read() == ref, "entry points write different data (%s, empty image)" % fmt)
    case.check(len(img) == 0 and not list(img), "writing modifies the image (%s)" % fmt)
    case.distinct("empty", fmt)


STREAMS = [
    Stream("huge", huge, 8, 14 * 6),
    Stream("entry points", entry_points, 14 * 50, 14 * 1500),
    Stream("sizes", sizes, 14, 14 * 30),
    Stream("binary", binary, 700, 8000),
    Stream("empty", empty, 28, 28),
]
