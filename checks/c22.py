"""C22: calls do not influence each other (in threads, nested, one after another with the same object)."""
import io
import os
import random

import objutils
from objutils import Image, Section, checksums
from objutils.registry import registry

from vlib import gen, hexio
from vlib.core import Stream, attempt
from vlib.formats import FORMATS, NAMES
from vlib.sched import Deadlock, Scheduler, free_run

PROPERTY = "C22"
LEVEL = "exploration"
QUICK_SCALE = 2
RULE = ("sequences of calls of one reader or writer compared with calls of new ones; 2..4 scripts (loading valid and corrupted files, writing with valid and unknown options, converting, reader and writer objects used alternately, editing and "
        "dumping images, checksums, registry) run alone and run together: under a seeded scheduler that switches at lines, calls or opcodes of objutils, as free threads with "
        "a switch interval of 1 us, and nested within one thread through file objects; all results, errors and last error reports compared; "
        "distinct = distinct schedules (sequence of switches and their places)")
REQUIRED = {"scheduled runs": 250, "switches": 20000, "places of switches": 300, "results compared": 8000, "free runs": 20, "nested calls": 500, "scripts of one codec": 100, "calls of used objects": 3000, "iterations": 1500}
ASSUMPTIONS = ["different images, readers and writers in different threads"]
CPU_LIMIT = 120.0


# -- scripts: functions of (rng, dir) returning a list of observations ------------------------
def outcome(fn, *args, **kws):
    o = attempt(fn, *args, **kws)
    return ("value", o.value) if o.ok else ("error", type(o.exc).__name__)


def image_facts(o):
    if o[0] == "error":
        return o
    img = o[1]
    meta = None
    if isinstance(img.meta, dict):
        meta = {k: [(m.address, bytes(m.chunk) if isinstance(m.chunk, (bytes, bytearray)) else m.chunk) for m in v] for k, v in img.meta.items()}
    return "image", [(s.start_address, bytes(s.data)) for s in img.sections], meta


def text_facts(o):
    return o if o[0] == "error" else ("text", bytes(o[1]))


def make_mem(rng, fmt, small=True):
    f = FORMATS[fmt]
    limit = min(f.max_address, f.read_max, 0xFFFFFFFF)
    if rng.random() < 0.5:
        limit = min(limit, 0xFFFF)
    return gen.rand_mem(rng, limit, max_sections=3)


def make_text(rng, fmt):
    text = FORMATS[fmt].generate(rng, make_mem(rng, fmt))
    if rng.random() < 0.25:  # corrupt a digit
        spots = [i for i, c in enumerate(text) if c in b"0123456789ABCDEF"]
        if spots:
            i = rng.choice(spots)
            text = text[:i] + rng.choice(b"0123456789ABCDEF").to_bytes(1, "big") + text[i + 1 :]
    return text


def options(rng, fmt, mem):
    kws = {}
    if FORMATS[fmt].option_row and rng.random() < 0.7:
        kws["row_length"] = hexio.pick_row(rng, fmt, mem)
    if fmt == "srec":
        if rng.random() < 0.5:
            kws["s5record"] = rng.random() < 0.7
        if rng.random() < 0.4:
            kws["start_address"] = rng.getrandbits(16)
        if rng.random() < 0.4:
            kws["record_type"] = rng.choice([1, 2, 3])
    if fmt == "ash" and rng.random() < 0.5:
        kws["separator"] = rng.choice([" ", "%", "'", ","])
    if rng.random() < 0.08:
        kws["no_such_option"] = 1
    return kws


def s_load(rng, d, codecs):
    fmt = rng.choice(codecs)
    text = make_text(rng, fmt)
    k = rng.random()
    if k < 0.5:
        return [image_facts(outcome(objutils.loads, fmt, text))]
    if k < 0.7:
        path = os.path.join(d, "f%d" % rng.getrandbits(60))
        with open(path, "wb") as f:
            f.write(text)
        return [image_facts(outcome(objutils.load, fmt, path))]
    r = registry.get(fmt).Reader()
    return [image_facts(outcome(r.loads, text)), r.logger.getLastError()]


def s_write(rng, d, codecs):
    fmt = rng.choice(codecs)
    mem = make_mem(rng, rng.choice(codecs))
    img = gen.make_image(rng, mem)
    kws = options(rng, fmt, mem)
    if rng.random() < 0.25:
        path = os.path.join(d, "f%d" % rng.getrandbits(60))
        o = outcome(objutils.dump, fmt, path, img, **kws)
        data = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                data = f.read()
        return [o, data]
    return [text_facts(outcome(objutils.dumps, fmt, img, **kws))]


def s_convert(rng, d, codecs):
    a, b = rng.choice(codecs), rng.choice(codecs)
    o = outcome(objutils.loads, a, make_text(rng, a))
    out = [image_facts(o)]
    if o[0] == "value":
        out.append(text_facts(outcome(objutils.dumps, b, o[1])))
        if out[-1][0] == "text":
            out.append(image_facts(outcome(objutils.loads, b, out[-1][1])))
    return out


def s_objects(rng, d, codecs):
    """Several reader and writer objects, used alternately, each more than once."""
    readers = [(f, registry.get(f).Reader()) for f in (rng.choice(codecs) for _ in range(2))]
    writers = [(f, registry.get(f).Writer()) for f in (rng.choice(codecs) for _ in range(2))]
    out = []
    for _ in range(rng.randint(3, 6)):
        if rng.random() < 0.5:
            f, r = rng.choice(readers)
            out.append((f, image_facts(outcome(r.loads, make_text(rng, f)))))
            if rng.random() < 0.6:
                out.append(r.logger.getLastError())
        else:
            f, w = rng.choice(writers)
            mem = make_mem(rng, f)
            out.append((f, text_facts(outcome(w.dumps, gen.make_image(rng, mem), **options(rng, f, mem)))))
    return out


def s_image(rng, d, codecs):
    img = gen.make_image(rng, gen.rand_mem(rng, 0xFFFF, max_sections=3))
    out = []
    for _ in range(8):
        s = rng.choice(img.sections)
        a = s.start_address + rng.randrange(len(s) + 1)
        k = rng.randrange(7)
        if k == 0:
            out.append(outcome(img.write, a, rng.randbytes(rng.randint(1, 8))))
        elif k == 1:
            out.append(outcome(img.read, a, rng.randint(1, 8)))
        elif k == 2:
            out.append(outcome(img.read_numeric, a, rng.choice(["uint16_be", "uint32_le", "int8_le", "float32_be"])))
        elif k == 3:
            out.append(outcome(img.write_numeric, a, rng.randrange(128), rng.choice(["uint16_be", "uint32_le", "int8_le", "uint64_be"])))
        elif k == 4:
            o = outcome(img.insert_section, rng.randbytes(rng.randint(1, 20)), rng.choice([a, a + 1, a + 40]))
            out.append(o if o[0] == "error" else "inserted")
        elif k == 5:
            f = io.StringIO()
            img.hexdump(f)
            out.append(f.getvalue())
        else:
            out.append(a in img)
    out.append(image_facts(("value", img)))
    return [repr(o) for o in out]


def s_checksum(rng, d, codecs):
    data = rng.randbytes(rng.randint(1, 60))
    out = [checksums.check(data, a) for a in ("CHK_ADD_11", "CHK_ADD_12", "CHK_CRC_16", "CHK_CRC_16_CCITT", "CHK_CRC_32")]
    out += [checksums.lrc(data, 8, checksums.COMPLEMENT_TWOS), checksums.nibble_sum(data), checksums.xor(data), checksums.rotatedXOR(data, 8, checksums.ROTATE_LEFT)]
    return out


def s_registry(rng, d, codecs):
    name = rng.choice(codecs)
    c = registry.get(name.upper() if rng.random() < 0.3 else name)
    return [c.Reader.__module__, c.Writer.__module__, c.Reader.codecName, outcome(registry.get, "none such"), sorted(registry.formats), len(list(registry))]


SCRIPTS = [s_load, s_load, s_load, s_write, s_write, s_write, s_convert, s_convert, s_objects, s_objects, s_image, s_checksum, s_registry]


def script(seed, codecs, kinds, d):
    """A function without arguments; every run of it makes the same calls."""
    def run():
        rng = random.Random(seed)
        return [(k.__name__, k(rng, d, codecs)) for k in kinds]
    return run


def make_scripts(case, n, length):
    rng = case.rng
    d = case.scratch
    if rng.random() < 0.5:
        codecs = [rng.choice(NAMES)]
        case.seen("scripts of one codec")
    else:
        codecs = rng.sample(NAMES, rng.choice([2, 4, 13]))
    fns = []
    for i in range(n):
        kinds = [rng.choice(SCRIPTS) for _ in range(length)]
        fns.append(script("%s|%s|%s|%d" % (case.seed, case.stream, case.index, i), codecs, kinds, d))
    case.note(codecs=codecs)
    return fns


def compare(case, alone, together, what):
    for i, want in enumerate(alone):
        got = together[i]
        for (name, w), (_, g) in zip(want, got):
            case.seen("results compared", len(w))
            case.check(w == g, "result of a call depends on other calls (%s)" % name[2:].replace("_", " "), "%s, thread %d: alone %r, together %r" % (what, i, w, g))


def finish(case, r, n, what):
    for i, e in sorted(r.errors.items()):
        raise e
    case.check(len(r.values) == n, "calls do not end", what)


def scheduled(case):
    rng = case.rng
    n = rng.choice([2, 2, 3, 4])
    gran = rng.choice(["line", "line", "call", "opcode"])
    fns = make_scripts(case, n, rng.choice([1, 1, 2, 4]) if gran == "opcode" else rng.choice([1, 2, 4, 6]))
    before = rng.random() < 0.5
    alone = [f() for f in fns] if before else None
    s = Scheduler(rng, gran, {"line": rng.choice([0.02, 0.1, 0.4]), "call": rng.choice([0.1, 0.5]), "opcode": rng.choice([0.005, 0.05])}[gran])
    case.note(granularity=gran, threads=n, probability=s.p)
    try:
        r = s.run(fns)
    except Deadlock as e:
        case.fail("calls do not end", str(e))
    finish(case, r, n, "scheduled")
    if not before:
        alone = [f() for f in fns]
    compare(case, alone, r.values, "%d threads switched at %ss" % (n, gran))
    case.sample("%d threads, switched at %ss, %d points, %d switches, e.g. at %s" % (n, gran, r.points, r.switches, sorted(r.places)[:3]))
    case.seen("scheduled runs")
    case.seen("switches", r.switches)
    case.seen("points", r.points)
    case.seen("steals", r.steals)
    have = case.shared.setdefault("_places", set())
    for p in r.places - have:
        case.seen("places of switches")
    have |= r.places
    if r.switches:
        case.distinct(r.trail.hexdigest())


def free(case):
    rng = case.rng
    n = rng.choice([3, 4, 6])
    fns = make_scripts(case, n, 12)
    before = rng.random() < 0.5
    alone = [f() for f in fns] if before else None
    try:
        r = free_run(fns)
    except Deadlock as e:
        case.fail("calls do not end", str(e))
    finish(case, r, n, "free")
    if not before:
        alone = [f() for f in fns]
    compare(case, alone, r.values, "%d free threads" % n)
    case.seen("free runs")


class Nest:
    """File object whose methods make further calls."""

    def __init__(self, data, hook):
        self.f, self.hook, self.out = io.BytesIO(data), hook, b""

    def readlines(self, *a):
        self.hook()
        r = self.f.readlines(*a)
        self.hook()
        return r

    def read(self, *a):
        self.hook()
        r = self.f.read(*a)
        self.hook()
        return r

    def write(self, data):
        self.hook()
        self.out += bytes(data)
        self.hook()
        return len(data)

    def close(self):
        self.hook()


class NestImage(Image):
    """Image whose sections are fetched while it is written."""

    hook = None

    def __iter__(self):
        for s in super().__iter__():
            if self.hook:
                self.hook()
            yield s
        if self.hook:
            self.hook()


def nested(case):
    """Calls made while another call of the same thread is in progress."""
    rng = case.rng
    codecs = [rng.choice(NAMES)] if rng.random() < 0.5 else rng.sample(NAMES, 3)

    def build(depth, srng, hook_on):
        """Observations of one call; `hook_on`: with further calls inside."""
        out = []
        inner = []

        def hook():
            case.seen("nested calls")
            if hook_on and len(inner) < 3:
                inner.append(None)
                inner[-1] = build(depth + 1, random.Random(srng2.random()), depth < 2 and hook_on)

        srng2 = random.Random(srng.random())
        fmt = srng.choice(codecs)
        if srng.random() < 0.5:
            text = make_text(srng, fmt)
            reader = registry.get(fmt).Reader()
            if fmt == "shf" or srng.random() < 0.2:
                out.append(image_facts(outcome(reader.loads, text)))
                hook()
            else:
                out.append(image_facts(outcome(reader.load, Nest(text, hook))))
            out.append(reader.logger.getLastError())
        else:
            mem = make_mem(srng, fmt)
            kws = options(srng, fmt, mem)
            img = NestImage([Section(a, b) for a, b in gen.runs(mem)])
            img.hook = hook
            f = Nest(b"", hook)
            writer = registry.get(fmt).Writer()
            out.append(outcome(writer.dump, f, img, **kws))
            out.append(f.out)
        return out, inner

    seed = rng.random()
    want = build(0, random.Random(seed), False)
    got, inner = build(0, random.Random(seed), True)
    case.check(got == want[0], "result of a call depends on calls nested in it", "alone %r, with nested calls %r" % (want[0], got))
    case.seen("results compared", len(got))

    # the nested calls themselves, alone
    def walk(pairs, srng):
        srng2 = random.Random(srng.random())
        for k in pairs:
            s = srng2.random()
            alone = build(9, random.Random(s), False)[0]
            case.check(k[0] == alone, "result of a nested call depends on the outer call", "alone %r, nested %r" % (alone, k[0]))
            case.seen("results compared", len(alone))
            walk(k[1], random.Random(s))

    walk(inner, random.Random(seed))


def reused(case):
    """One reader and one writer, used again and again: every call as if the object were new."""
    rng = case.rng
    fmt = NAMES[case.index % len(NAMES)]
    old_r, old_w = registry.get(fmt).Reader(), registry.get(fmt).Writer()
    case.note(format=fmt)
    last, nxt = "nothing", None
    for _ in range(rng.randint(3, 10)):
        if rng.random() < 0.5:
            text = make_text(rng, fmt) if rng.random() < 0.7 else bytes(objutils.dumps(fmt, gen.make_image(rng, gen.rand_mem(rng, 0xFFFF, max_sections=2))))
            if rng.random() < 0.25:  # not all of the file
                lines = text.split(b"\n")
                text = b"\n".join(lines[rng.randrange(len(lines)) :]) if rng.random() < 0.5 else text[: rng.randrange(len(text)) + 1]
            what = "loads(%r)" % text[:300]
            new = registry.get(fmt).Reader()
            old_r.logger.getLastError()
            got = image_facts(outcome(old_r.loads, text)), old_r.logger.getLastError()
            want = image_facts(outcome(new.loads, text)), new.logger.getLastError()
        else:
            if nxt is not None and rng.random() < 0.6:  # goes on where the last one ended
                mem = {nxt + i: b for i, b in enumerate(rng.randbytes(rng.randint(1, 40))) if nxt + i <= 0xFFFF} or {0: 0}
            else:
                mem = gen.rand_mem(rng, rng.choice([0xFFFF, 0xFFFF, 0xFFFFFF, 0xFFFFFFFF]), max_sections=2)
            nxt = max(mem) + 1 if max(mem) < 0xFFFF else None
            kws = options(rng, fmt, mem)
            what = "dumps(%s, %s)" % (gen.mem_hex(mem), kws)
            new = registry.get(fmt).Writer()
            old_w.logger.getLastError()
            secs = gen.split_sections(rng, mem)
            got = text_facts(outcome(old_w.dumps, Image([Section(a, d) for a, d in secs]), **kws)), old_w.logger.getLastError()
            want = text_facts(outcome(new.dumps, Image([Section(a, d) for a, d in secs]), **kws)), new.logger.getLastError()
        case.check(got == want, "result depends on former uses of the %s (%s)" % (what.split("(")[0].replace("loads", "reader").replace("dumps", "writer"), fmt),
                   "%s after %s: %r, with a new object %r" % (what, last, got, want))
        case.seen("calls of used objects")
        case.seen("results compared", 2)
        case.distinct(fmt, what[:5], last[:5], got[0][0], want[0][0])
        last = what


def iterations(case):
    """Several iterations over the same image (find over the same section, the registry) at the same time."""
    rng = case.rng
    img = Image([Section(i * 64, rng.randbytes(rng.randint(1, 40))) for i in range(rng.randint(2, 9))])
    sec = Section(0x100, bytes(rng.choice(b"ab") for _ in range(rng.randint(2, 60))))
    whats = {
        "image": (lambda: iter(img), [(s.start_address, bytes(s.data)) for s in img.sections], lambda s: (s.start_address, bytes(s.data))),
        "find": (lambda: sec.find(b"a+"), list(sec.find(b"a+")), lambda x: x),
        "registry": (lambda: iter(registry), [n for n, _ in list(registry)], lambda x: x[0]),
    }
    kind = rng.choice(sorted(whats) + ["image"])
    start, want, key = whats[kind]
    running, done = [], 0
    for _ in range(rng.randint(5, 80)):
        if not running or len(running) < 4 and rng.random() < 0.2:
            running.append((start(), []))
        k = rng.randrange(len(running))
        it, got = running[k]
        try:
            got.append(key(next(it)))
        except StopIteration:
            case.check(got == want, "iterations over one object influence each other", "%s: %r instead of %r" % (kind, got, want))
            done += 1
            del running[k]
        x = rng.random()  # Other uses meanwhile.
        if x < 0.1:
            case.check([key(y) for y in start()] == want, "iterations over one object influence each other", kind)
        elif x < 0.15 and kind == "image":
            case.check(len(img) == sum(len(d) for _, d in want) and 0 in img and img == Image(img) and len(repr(img).split("\n")) == len(want), "iterations over one object influence each other", "uses meanwhile")
            objutils.dumps("srec", img)
    for it, got in running:
        got += [key(y) for y in it]
        case.check(got == want, "iterations over one object influence each other", "%s: %r instead of %r" % (kind, got, want))
        done += 1
    if kind == "image":
        case.check([(a.start_address, b.start_address) for a in img for b in img] == [(a, b) for a, _ in want for b, _ in want], "iterations over one object influence each other", "nested")
    case.seen("iterations", done)
    case.distinct("iterations", kind, done, len(want))


STREAMS = [Stream("iterations", iterations, 600, 10000), Stream("reused", reused, 13 * 60, 13 * 2500), Stream("scheduled", scheduled, 320, 14000), Stream("free", free, 32, 1500), Stream("nested", nested, 400, 12000)]
