"""C16: the side-car database of an ELF file is never stale or partial."""
import gc
import json
import os
import shutil
import subprocess
import sys

from objutils.elf import ElfParser

from checks.c15 import compare
from vlib import core, elfgen
from vlib.core import Inconclusive, Stream, attempt

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("openings interrupted at every change of a side-car file (process killed before, in the middle of or after the system call; this or all further calls failing), "
        "at executed lines and at SQL statements (process killed, error, interrupt, out of memory), on side-car files that are absent, complete, foreign or themselves left "
        "by an interruption; histories of openings, replaced contents (rename, in place, same size and time stamp, one byte changed), swapped side-car files and further "
        "processing; the next opening is compared with the known contents; distinct = distinct (kind, way, point, previous state)")
REQUIRED = {"io points": 300, "killed": 200, "failed calls": 60, "line points": 100, "sql points": 100, "next openings": 600, "histories": 70, "changed contents": 150, "in-process errors": 60, "files open together": 150}
SHIM = [None]
TIME_QUICK = 200


def prepare(base, tier):
    gcc = next((p for p in ("/usr/bin/gcc", "/usr/bin/clang", "/usr/bin/cc") if os.path.exists(p)), None)
    if gcc:
        so = os.path.join(base, "ioshim.so")
        r = subprocess.run([gcc, "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(core.VERIF, "native", "ioshim.c"), "-ldl"], capture_output=True)
        if r.returncode == 0:
            SHIM[0] = so
        else:
            print(r.stderr.decode()[:1000])


class Opener:
    """The helper process of this worker."""

    proc = None

    @classmethod
    def ask(cls, **req):
        if cls.proc is None or cls.proc.poll() is not None:
            env = dict(os.environ, VERIF_REPO=core.REPO, PYTHONPATH=os.path.join(core.VERIF, "vlib", "site"))
            if SHIM[0]:
                env["LD_PRELOAD"] = SHIM[0]
            cls.proc = subprocess.Popen([sys.executable, "-B", os.path.join(core.VERIF, "vlib", "zygote.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        req = dict(dict(kind="none", n=0, how="kill"), **req)
        cls.proc.stdin.write(json.dumps(req) + "\n")
        cls.proc.stdin.flush()
        line = cls.proc.stdout.readline()
        if not line:
            raise Inconclusive("helper process gave no answer")
        res = json.loads(line)
        if "broken" in res:
            raise Inconclusive("helper process: " + res["broken"])
        return res


def write(path, blob, how="rename", stamp=None):
    if how == "rename":
        with open(path + ".new", "wb") as f:
            f.write(blob)
        os.replace(path + ".new", path)
    else:
        with open(path, "wb") as f:
            f.write(blob)
    if stamp is not None:
        os.utime(path, ns=(stamp, stamp))


def make(rng, big=False):
    info = elfgen.rand_elf(rng, small=True)
    if big and info.elf.sections:
        plain = [s for s in info.elf.sections if s.has_contents and s.type == 1 and s.name != ".comment"]
        if plain:
            s = rng.choice(plain)
            s.content = rng.randbytes(rng.choice([3000, 70000, 200000, 1100000, 2200000 if rng.random() < 0.8 else 17000000]))
            s.size = len(s.content)
    blob = info.elf.build(rng)
    return info, blob


def verify(case, path, info, blob, what, close=True):
    """The next opening reports exactly what the file contains."""
    out = attempt(ElfParser, path)
    if not out.ok:
        case.fail("opening fails after " + what, "%r" % out.exc)
    ep = out.value
    try:
        compare(case, ep, info, blob)
    except core.Violation as v:
        v.mechanism = "%s, after %s" % (v.mechanism, what)
        v.witness = dict(v.witness, after=what)
        raise
    finally:
        if close:
            ep.db.close()
    case.seen("next openings")


SIDE = ("", "-journal", "-wal", "-shm")


def snapshot(side):
    return {s: open(side + s, "rb").read() for s in SIDE if os.path.exists(side + s)}


def restore(side, snap):
    for s in SIDE:
        if s in snap:
            with open(side + s, "wb") as f:
                f.write(snap[s])
        elif os.path.exists(side + s):
            os.unlink(side + s)


def previous_state(case, path, side):
    """Brings the side-car file into some state; returns its description."""
    rng = case.rng
    k = rng.choice(["absent", "absent", "foreign", "foreign", "interrupted", "foreign interrupted", "foreign, changed in place"])
    if k == "absent":
        return k
    if k == "interrupted":
        n = Opener.ask(path=path)["io"]
        os.unlink(side)
        if n:
            Opener.ask(path=path, kind="io", n=rng.randint(1, n), how=rng.choice(["kill", "after", "torn"]))
        return k
    good = open(path, "rb").read()
    _, other = make(rng)
    write(path, other)
    if k == "foreign interrupted":
        n = Opener.ask(path=path)["io"]
        os.unlink(side)
        if n:
            Opener.ask(path=path, kind="io", n=rng.randint(1, n), how=rng.choice(["kill", "after", "torn"]))
    else:
        Opener.ask(path=path)
    write(path, good, "in place" if "in place" in k else "rename")
    return k


def io_points(case):
    rng = case.rng
    if not SHIM[0]:
        raise Inconclusive("no compiler for the preloaded library")
    info, blob = make(rng)
    path = os.path.join(case.scratch, "f.elf")
    side = os.path.join(case.scratch, "f.prgdb")
    write(path, blob)
    state = previous_state(case, path, side)
    snap = snapshot(side)
    res = Opener.ask(path=path)
    case.check(res.get("opened"), "opening fails (side-car file: %s)" % state, res.get("error", ""))
    n = res["io"]
    want = res["digest"]
    verify(case, path, info, blob, "an opening in another process (side-car file: %s)" % state)
    points = list(range(1, n + 1))
    # most of the changes belong to the creation of the tables; those of the contents come last
    pick = lambda k: rng.sample(points, min(k, n)) + rng.sample(points[-45:], min(k, len(points[-45:])))
    if case.tier == "quick":
        todo = [(p, rng.choice(["kill", "kill", "after", "torn"])) for p in pick(5)] + [(p, rng.choice(["fail", "full"])) for p in pick(2)]
    else:
        todo = [(p, rng.choice(["kill", "after", "torn"])) for p in points] + [(p, rng.choice(["fail", "full"])) for p in pick(20)]
    for p, how in todo:
        restore(side, snap)
        case.note(point="system call %d of %d: %s" % (p, n, how), state=state)
        res = Opener.ask(path=path, kind="io", n=p, how=how)
        case.seen("io points")
        if how in ("kill", "after", "torn"):
            if res["status"] == -9:
                case.seen("killed")
        else:
            case.seen("failed calls", res.get("hits", 0))
            if res.get("opened") and res.get("digest", want) != want:
                case.fail("opening reports other contents although writing its side-car file failed", "point %d %s" % (p, how))
        verify(case, path, info, blob, "an opening interrupted while writing its side-car file (%s, system call %d of %d; before: %s)" % (how, p, n, state))
        case.distinct("io", how, p, state)
    case.sample("%d changes of the side-car file (previous state: %s), interrupted at %r" % (n, state, todo[:6]))


def code_points(case, kind):
    rng = case.rng
    info, blob = make(rng)
    path = os.path.join(case.scratch, "f.elf")
    side = os.path.join(case.scratch, "f.prgdb")
    write(path, blob)
    state = previous_state(case, path, side)
    snap = snapshot(side)
    res = Opener.ask(path=path, kind="count")
    case.check(res.get("opened"), "opening fails (side-car file: %s)" % state, res.get("error", ""))
    n = res[kind]
    if not n:
        raise Inconclusive("no points")
    for _ in range(8 if case.tier == "quick" else 40):
        how = rng.choice(["kill", "error", "memory", "interrupt"])
        p = rng.randint(1, n) if rng.random() < 0.7 else max(1, n - rng.randint(0, 30))
        restore(side, snap)
        res = Opener.ask(path=path, kind=kind, n=p, how=how, close=rng.random() < 0.5)
        case.seen(kind + " points")
        case.note(point="%s %d of %d: %s" % (kind, p, n, how), state=state, result=res)
        if res["status"] == -9:
            case.seen("killed")
        verify(case, path, info, blob, "an opening interrupted (%s, %s %d of %d; before: %s)" % (how, kind, p, n, state))
        case.distinct(kind, how, p, state)


def line_points(case):
    code_points(case, "line")


def sql_points(case):
    code_points(case, "sql")


def in_process(case):
    """Errors raised within this process; the file is opened again right afterwards."""
    from sqlalchemy import event
    from sqlalchemy.engine import Engine

    rng = case.rng
    info, blob = make(rng)
    path = os.path.join(case.scratch, "f.elf")
    side = os.path.join(case.scratch, "f.prgdb")
    write(path, blob)
    state = previous_state(case, path, side)
    count = [0, 0]

    class Injected(Exception):
        pass

    def hook(*args):
        count[0] += 1
        if count[0] == count[1]:
            raise {"error": Injected(), "memory": MemoryError(), "os": OSError(5, "injected")}[how]

    n = Opener.ask(path=path, kind="count")["sql"]
    for s in SIDE:
        if os.path.exists(side + s):
            os.unlink(side + s)
    for _ in range(4):
        how = rng.choice(["error", "memory", "os"])
        count[:] = [0, rng.randint(1, n)]
        event.listen(Engine, "before_cursor_execute", hook)
        event.listen(Engine, "after_cursor_execute", hook)
        event.listen(Engine, "commit", hook)
        try:
            out = attempt(ElfParser, path)
        finally:
            event.remove(Engine, "before_cursor_execute", hook)
            event.remove(Engine, "after_cursor_execute", hook)
            event.remove(Engine, "commit", hook)
        raised = not out.ok
        if out.ok:
            out.value.db.close()
        del out
        for _ in range(3):  # the connection pool needs more than one pass
            gc.collect()
        case.note(point="SQL event %d of about %d: %s, raised: %s" % (count[1], n, how, raised))
        case.seen("in-process errors")
        verify(case, path, info, blob, "an error (%s) in an earlier opening of this process" % how)
        case.distinct("in process", how, count[1], state)
        if rng.random() < 0.7:
            gc.collect()
            os.unlink(side)


def changed(case):
    """Contents that differ as little as possible from those the side-car file was written for."""
    rng = case.rng
    info, blob = make(rng, big=rng.random() < 0.6)
    path = os.path.join(case.scratch, "f.elf")
    write(path, blob)
    stamp = rng.choice([None, 1700000000 * 10**9])
    write(path, blob, stamp=stamp)
    verify(case, path, info, blob, "nothing")
    for _ in range(3):
        # a byte of a section's contents, the smallest change of what is to be reported
        secs = [s for s in info.elf.sections if s.has_contents and s.type not in (2, 3, 7, 11, 18) and s.name != ".comment"]
        if secs and rng.random() < 0.8:
            s = max(secs, key=lambda s: s.size) if rng.random() < 0.6 else rng.choice(secs)
            p = rng.choice([0, s.size - 1, rng.randrange(s.size)])
            s.content = s.content[:p] + bytes([s.content[p] ^ (1 << rng.randrange(8))]) + s.content[p + 1 :]
            b = bytearray(blob)
            b[s.offset : s.offset + s.size] = s.content
            new = bytes(b)
            what = "a changed byte of a section (%d of %d)" % (p, s.size)
        else:
            field = rng.choice(["e_entry", "e_flags", "ei_osabi", "e_version"])
            info.elf.hdr[field] ^= 1
            new = info.elf.pack_header() + blob[info.elf.hdr["e_ehsize"] :]
            what = "a changed header field (%s)" % field
        how = rng.choice(["rename", "in place"])
        keep = rng.random() < 0.6
        st = os.stat(path)
        gc.collect()
        write(path, new, how, stamp=st.st_mtime_ns if keep else None)
        blob = new
        verify(case, path, info, blob, "%s, %s%s" % (what, how, ", same time stamp" if keep else ""))
        case.seen("changed contents")
        verify(case, path, info, blob, "a repeated opening")
        case.distinct("changed", what.split("(")[0], how, keep)


def histories(case):
    rng = case.rng
    d = case.scratch
    contents = [make(rng) for _ in range(3)]
    names = ["f.elf", "f.o", "g.elf", "f.v2.elf"]  # f.elf and f.o share their side-car file
    now = {}
    log = []

    def put(name, i, how="rename"):
        gc.collect()
        write(os.path.join(d, name), contents[i][1], how)
        now[name] = i

    for nme in names:
        put(nme, rng.randrange(3))
    for step in range(rng.randint(5, 12)):
        name = rng.choice(names)
        path = os.path.join(d, name)
        side = os.path.splitext(path)[0] + ".prgdb"
        k = rng.choice(["open", "open", "put", "put", "interrupted", "interrupted", "remove", "swap", "touch", "child", "no close", "twice", "rename"])
        log.append("%s %s" % (k, name))
        case.note(history=log, contents=now)
        if k == "open":
            info, blob = contents[now[name]]
            verify(case, path, info, blob, "a history")
        elif k == "put":
            put(name, rng.randrange(3), rng.choice(["rename", "in place"]))
        elif k == "interrupted":
            kind = rng.choice(["line", "sql", "io"]) if SHIM[0] else rng.choice(["line", "sql"])
            n = {"line": 1500, "sql": 150, "io": 40}[kind]
            how = rng.choice(["kill", "after", "torn", "fail", "full"]) if kind == "io" else rng.choice(["kill", "error", "memory", "interrupt"])
            Opener.ask(path=path, kind=kind, n=rng.randint(1, n), how=how)
        elif k == "remove" and os.path.exists(side):
            gc.collect()
            os.unlink(side)
        elif k == "swap" and os.path.exists(side):
            gc.collect()
            target = os.path.join(d, rng.choice(["f.prgdb", "g.prgdb", "f.v2.prgdb"]))
            if target != side:  # with the journal an interruption left, which belongs to the database
                for s in SIDE:
                    if os.path.exists(target + s):
                        os.unlink(target + s)
                    if os.path.exists(side + s):
                        shutil.copyfile(side + s, target + s)
        elif k == "touch":
            os.utime(path, (2 * 10**9, 2 * 10**9) if rng.random() < 0.5 else (10**9, 10**9))
            if os.path.exists(side):
                os.utime(side, (10**9, 10**9) if rng.random() < 0.5 else (2 * 10**9, 2 * 10**9))
        elif k == "child":
            res = Opener.ask(path=path)
            case.check(res.get("opened"), "opening fails in a history", res.get("error", ""))
        elif k == "no close":
            res = Opener.ask(path=path, close=False)
            case.check(res.get("opened"), "opening fails in a history", res.get("error", ""))
        elif k == "twice":
            info, blob = contents[now[name]]
            verify(case, path, info, blob, "a history")
            verify(case, path, info, blob, "a history")
        elif k == "rename":
            other = rng.choice(names)
            if other != name:
                gc.collect()
                blob = open(path, "rb").read()
                write(os.path.join(d, other), blob)
                now[other] = now[name]
    for name in names:
        info, blob = contents[now[name]]
        verify(case, os.path.join(d, name), info, blob, "a history")
    case.seen("histories")
    case.distinct("history", tuple(log))
    case.sample(" / ".join(log))


def together(case):
    """Files with databases of their own, all open at the same time."""
    rng = case.rng
    d = os.path.join(case.scratch, rng.choice(["plain", "v1.2", "a.b.c", ".hidden", "with space", "d.elf", "q?mode=memory", "h#x", "p%2e", "it's"]))
    os.mkdir(d)
    stems = rng.sample(["f", "f.v1", "f.v2", "f.v2.1", "g", "F", "f-1", "f_1", "f 1", ".f", "f.prgdb", "\u00e4", "f?mode=ro", "f?", "f#g", "f%41", "f&immutable=1", "f'g", 'f"g', "f;g", "-f", "f\\g"], 4)
    names = [s + rng.choice([".elf", ".o", ".x"]) for s in stems]
    contents = [make(rng) for _ in names]
    for nme, (info, blob) in zip(names, contents):
        write(os.path.join(d, nme), blob)
    opened = []
    try:
        for k in range(2):
            for i, (nme, (info, blob)) in enumerate(zip(names, contents)):
                if not k:
                    out = attempt(ElfParser, os.path.join(d, nme))
                    if not out.ok:
                        case.fail("opening fails while other files are open", "%r: %r" % (nme, out.exc), names=names)
                    opened.append(out.value)
                compare(case, opened[i], info, blob)
                case.seen("files open together")
    finally:
        for ep in opened:
            ep.db.close()
    for nme, (info, blob) in zip(names, contents):
        verify(case, os.path.join(d, nme), info, blob, "they were open together")
    case.distinct("together", tuple(names))


STREAMS = [
    Stream("io points", io_points, 32, 120),
    Stream("line points", line_points, 16, 500),
    Stream("sql points", sql_points, 16, 500),
    Stream("in process", in_process, 24, 1500),
    Stream("changed", changed, 64, 3000),
    Stream("histories", histories, 80, 4000),
    Stream("together", together, 24, 600),
]
