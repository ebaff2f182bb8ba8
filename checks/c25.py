"""C25: each registered codec name resolves to its own reader and writer."""
import importlib
import io
import itertools
import json
import os
import subprocess
import sys

import objutils
import objutils.hexfile as hexfile
from objutils.registry import CodecAlreadyExistError, CodecDoesNotExistError, registry
from objutils.utils import SingletonBase

from vlib import gen
from vlib.core import REPO, VERIF, Stream, attempt, forked
from vlib.formats import FORMATS, NAMES, FormatError
from vlib.sched import Deadlock, Scheduler, free_run

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("histories of register, get, iterate, list, load and write operations (names in random letter case, existing, unknown, nearly existing) compared with a map after every step, each history "
        "in its own process; threads registering and resolving names under a seeded scheduler, the recorded events checked per name for linearizability as a write-once register; processes in which "
        "several threads make the first use of the package; distinct = distinct (operation sequences, schedules, sets of first users)")
REQUIRED = {"operations": 10000, "registrations": 1500, "refused registrations": 1000, "unknown names": 1000, "resolved": 4000, "uses of built-in codecs": 1500, "uses of further codecs": 800,
            "raced registrations": 300, "events checked": 3000, "singletons": 60, "first uses": 60, "switches": 3000, "registrations during iteration": 50, "large registries": 5}
BUILTIN = NAMES + ["bin", "binzip"]
CPU_LIMIT = 120.0


# -- codecs of our own -------------------------------------------------------------------
def make_codec(rng, tag):
    """A reader and a writer class which record how they were used."""
    log = []

    class Reader:
        def load(self, *args, **kws):
            log.append((tag, "load", args, kws, type(self)))
            return ("loaded", tag, len(log))

        def loads(self, *args, **kws):
            log.append((tag, "loads", args, kws, type(self)))
            return ("loaded", tag, len(log))

    class Writer:
        def dump(self, *args, **kws):
            log.append((tag, "dump", args, kws, type(self)))

        def dumps(self, *args, **kws):
            log.append((tag, "dumps", args, kws, type(self)))
            return ("written", tag, len(log))

    return Reader, Writer, log


def derived_codec(rng):
    """Derived from the classes of an existing codec; works like it."""
    base = rng.choice(NAMES)
    codec = registry.get(base)
    return type("DerivedReader", (codec.Reader,), {}), type("DerivedWriter", (codec.Writer,), {}), base


def any_case(rng, name):
    k = rng.random()
    if not name.isascii():  # Only letters with one upper case form of their own.
        return "".join(c.upper() if k < 0.7 and rng.random() < 0.5 and len(c.upper()) == 1 and c.upper().lower() == c else c for c in name)
    if k < 0.3:
        return name
    if k < 0.5:
        return name.upper()
    if k < 0.6:
        return name.capitalize()
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in name)


def new_name(rng, model):
    while True:
        k = rng.random()
        if k < 0.4:  # close to an existing one
            n = rng.choice(sorted(model))
            n = rng.choice([n + rng.choice("0x_-"), n[:-1] or "q", n[1:] or "q", n + n, rng.choice("abxyz") + n, n + " ", n.replace("e", "3")])
        else:
            n = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_-.") for _ in range(rng.randint(1, 12)))
        if rng.random() < 0.1:
            i = rng.randint(0, len(n))
            n = n[:i] + rng.choice(["\u00df", "\u00e4", "\u044f\u0436", "\u017f", "\u0131", "\u00e9", "ss\u00df", "\ufb01", "\u4e2d"]) + n[i:]
        if n.lower() not in model:
            return n


def use_builtin(case, name, base):
    """Load and write through the name; the text is judged with the decoder of the format meant."""
    rng = case.rng
    if base == "binzip":
        return
    if base == "bin":
        data = rng.randbytes(rng.randint(1, 40))
        img = objutils.loads(name, data, 0x100)
        case.check([(s.start_address, bytes(s.data)) for s in img.sections] == [(0x100, data)], "name resolves to a wrong reader", name)
        case.check(bytes(objutils.dumps(name, img)) == data, "name resolves to a wrong writer", name)
        case.seen("uses of built-in codecs")
        return
    f = FORMATS[base]
    mem = gen.rand_mem(rng, 0xFFFF, max_sections=2)
    img = gen.make_image(rng, mem)
    if rng.random() < 0.5:
        text = objutils.dumps(name, img)
    else:
        path = os.path.join(case.scratch, "o%d" % rng.getrandbits(60))
        objutils.dump(name, path, img)
        with open(path, "rb") as fh:
            text = fh.read()
    try:
        case.check(f.decode(bytes(text)).mem == mem, "name resolves to a wrong writer", "%s: %r" % (name, bytes(text)[:80]))
    except (FormatError, UnicodeDecodeError) as e:
        case.fail("name resolves to a wrong writer", "%s: %s %r" % (name, e, bytes(text)[:80]))
    text = f.generate(rng, mem)
    back = objutils.loads(name, text) if rng.random() < 0.5 else objutils.load(name, io.BytesIO(text)) if base != "shf" else objutils.loads(name, text)
    case.check(gen.mem_of(back) == mem, "name resolves to a wrong reader", name)
    case.seen("uses of built-in codecs")


def use_own(case, name, entry):
    rng = case.rng
    log, tag = entry["log"], entry["tag"]
    n = len(log)
    args = tuple(rng.choice([1, "x", b"data", None, (1, 2)]) for _ in range(rng.randint(0, 3)))
    kws = {k: rng.getrandbits(8) for k in rng.sample(["row_length", "address", "option", "filler"], rng.randint(0, 2))}
    fn = rng.choice(["load", "loads", "dump", "dumps"])
    got = getattr(objutils, fn)(name, *args, **kws)
    case.check(len(log) == n + 1 and log[-1][:4] == (tag, fn, args, kws), "codec not called with the given arguments", "%s(%r, *%r, **%r): %r" % (fn, name, args, kws, log[n:]))
    case.check(log[-1][4] is (entry["R"] if fn.startswith("load") else entry["W"]), "name resolves to a wrong class", name)
    want = {"load": ("loaded", tag, n + 1), "loads": ("loaded", tag, n + 1), "dump": None, "dumps": ("written", tag, n + 1)}[fn]
    case.check(got == want, "result of the codec not returned", "%s: %r" % (fn, got))
    case.seen("uses of further codecs")


def initial(case):
    """The model: name -> entry, taken from the registry at the start of the process."""
    model = {}
    for n in BUILTIN:
        c = registry.get(n)
        model[n] = dict(R=c.Reader, W=c.Writer, description=c.description, base=n, log=None)
    case.equal(sorted(n for n, _ in registry), sorted(model), "wrong codecs listed")
    return model


def registries():
    from objutils.registry import Registry

    return [registry, Registry(), objutils.registry, importlib.import_module("objutils.registry").registry if "objutils.registry" in sys.modules else registry,
            sys.modules["objutils.registry"].Registry()]


def compare_all(case, reg, model):
    listed = list(reg)
    case.equal(sorted(n for n, _ in listed), sorted(model), "wrong codecs listed")
    for n, c in listed:
        e = model[n]
        case.check(c.Reader is e["R"] and c.Writer is e["W"] and c.description == e["description"], "listed codec is not the registered one", n)
    case.equal(list(reg.formats), sorted(model), "wrong list of formats")
    case.equal(sorted(reg.codecs), sorted(model), "wrong codecs")


@forked()
def history(case):
    rng = case.rng
    model = initial(case)
    trail, unknown = [], []
    tags = itertools.count()
    pool = registries()
    for r in pool:
        case.check(r is registry, "several registries")
    if case.index % 40 == 39:  # hundreds of codecs
        for _ in range(rng.choice([128, 256, 300, 1100])):
            name = new_name(rng, model)
            e = dict(tag=next(tags), description="", base=None)
            e["R"], e["W"], e["log"] = make_codec(rng, e["tag"])
            registry.register(any_case(rng, name), e["R"], e["W"])
            model[name.lower()] = e
        compare_all(case, registry, model)
        case.seen("large registries")
    for _ in range(rng.randint(20, 70)):
        reg = rng.choice(pool)
        op = rng.choice(["register", "register", "again", "again", "get", "get", "get", "unknown", "list", "use", "use", "use", "iterate", "same classes", "derived", "unknown use", "registry"])
        trail.append(op)
        case.note(history=trail)
        case.seen("operations")
        if op in ("register", "same classes", "derived"):
            name = new_name(rng, model)
            if unknown and rng.random() < 0.5:  # was looked up before
                name = unknown.pop()
                if name.lower() in model:
                    continue
            e = dict(tag=next(tags), description=rng.choice(["", "text", "Text " + name]), base=None)
            if op == "same classes":
                o = model[rng.choice(sorted(model))]
                e.update(R=o["R"], W=o["W"], log=o["log"], base=o["base"], tag=o.get("tag"))
            elif op == "derived":
                e["R"], e["W"], e["base"] = derived_codec(rng)
                e["log"] = None
            else:
                e["R"], e["W"], e["log"] = make_codec(rng, e["tag"])
            given = any_case(rng, name)
            case.note(register=given)
            if e["description"] == "" and rng.random() < 0.5:
                reg.register(given, e["R"], e["W"])
            else:
                reg.register(given, e["R"], e["W"], e["description"])
            model[name.lower()] = e
            case.seen("registrations")
        elif op == "again":
            name = any_case(rng, rng.choice(sorted(model)))
            R, W, log = make_codec(rng, None)
            o = attempt(reg.register, name, R, W, "other")
            case.check(isinstance(o.exc, CodecAlreadyExistError), "existing name registered again", "%r: %r" % (name, o))
            case.seen("refused registrations")
        elif op == "get":
            for n in rng.sample(sorted(model), 3):
                c = reg.get(any_case(rng, n))
                e = model[n]
                case.check(c.Reader is e["R"] and c.Writer is e["W"] and c.description == e["description"], "name resolves to a wrong codec", n)
                case.seen("resolved")
        elif op == "unknown":
            name = any_case(rng, new_name(rng, model))
            o = attempt(reg.get, name)
            case.check(isinstance(o.exc, CodecDoesNotExistError), "unknown name accepted", "%r: %r" % (name, o))
            case.seen("unknown names")
            unknown.append(name)
        elif op == "unknown use":
            name = any_case(rng, new_name(rng, model))
            path = os.path.join(case.scratch, "unknown")
            for fn, args in rng.sample([("loads", (b"S0",)), ("load", (path,)), ("dumps", (objutils.Image(),)), ("dump", (path, objutils.Image()))], 2):
                o = attempt(getattr(objutils, fn), name, *args)
                case.check(isinstance(o.exc, CodecDoesNotExistError), "unknown name accepted", "%s(%r): %r" % (fn, name, o))
                case.check(not os.path.exists(path), "file written for an unknown name", name)
                case.seen("unknown names")
        elif op == "list":
            compare_all(case, reg, model)
        elif op == "iterate":
            # registering meanwhile does not disturb
            before, during = sorted(model), []
            for i, (n, c) in enumerate(reg):
                during.append(n)
                if i == 2:
                    name = new_name(rng, model)
                    e = dict(tag=next(tags), description="", base=None)
                    e["R"], e["W"], e["log"] = make_codec(rng, e["tag"])
                    reg.register(name, e["R"], e["W"])
                    model[name.lower()] = e
                    case.seen("registrations during iteration")
            case.check(set(before) <= set(during) <= set(model) and len(during) == len(set(during)), "iteration misses codecs", "%r" % during)
        elif op == "registry":
            again = registries()
            for r in again:
                case.check(r is registry, "several registries")
            compare_all(case, again[1], model)
        else:
            name = rng.choice(sorted(model) if rng.random() < 0.5 else BUILTIN)
            e = model[name]
            if e["base"] is not None:
                use_builtin(case, any_case(rng, name), e["base"])
            else:
                use_own(case, any_case(rng, name), e)
    compare_all(case, registry, model)
    for n in BUILTIN:
        use_builtin(case, any_case(rng, n), n)
    for n, e in model.items():
        if e["base"] is None:
            use_own(case, any_case(rng, n), e)
    case.distinct("history", tuple(trail))
    case.sample(" ".join(trail))


# -- threads -----------------------------------------------------------------------------
def check_events(case, events, before):
    """events: (thread, op, name, invoked, responded, result). Per name: a write-once register."""
    names = {e[2] for e in events if e[2]}
    for n in names:
        mine = [e for e in events if e[2] == n]
        wins = [e for e in mine if e[1] == "register" and e[5] == "ok"]
        initial_value = before.get(n)
        case.check(len(wins) <= (0 if initial_value else 1), "name registered twice", "%r: %r" % (n, wins))
        value = initial_value or (wins[0][6] if wins else None)
        begin = -1 if initial_value else wins[0][3] if wins else None  # may have taken effect from here
        done = -1 if initial_value else wins[0][4] if wins else None  # must have taken effect by here
        for e in mine:
            t, op, _, inv, res, result = e[:6]
            if op == "register":
                if result == "refused":
                    case.check(begin is not None and begin < res, "registration refused although the name did not exist", "%r" % (e,))
                else:
                    case.check(result == "ok", "registration failed", "%r" % (e,))
            elif op == "get":
                if result == "missing":
                    case.check(done is None or inv < done, "registered name not found", "%r, registered %r" % (e, wins))
                else:
                    case.check(result == value and begin is not None and begin < res, "name resolves to a wrong codec", "%r, registered %r" % (e, wins))
            case.seen("events checked")
        # nobody sees the registration vanish
        found = [e for e in mine if (e[1] == "get" and e[5] != "missing") or (e[1] == "register")]
        for m in mine:
            if m[1] == "get" and m[5] == "missing":
                for f in found:
                    case.check(not f[4] < m[3], "registered name vanished", "%r then %r" % (f, m))
        if value is not None and not initial_value:
            c = attempt(registry.get, n)
            case.check(c.ok and id(c.value.Reader) == value, "registered name lost", "%r: %r" % (n, c))
    for t, op, _, inv, res, result in [e[:6] for e in events if e[1] == "list"]:
        case.check(len(result) == len(set(result)), "codec listed twice", "%r" % (result,))
        must = set(before) | {e[2] for e in events if e[1] == "register" and e[5] == "ok" and e[4] < inv}
        may = set(before) | {e[2] for e in events if e[1] == "register" and e[5] == "ok" and e[3] < res}
        case.check(must <= set(result) <= may, "wrong codecs listed", "missing %r, unexpected %r" % (sorted(must - set(result)), sorted(set(result) - may)))
        case.seen("events checked")


def script(rng, clock, events, tid, names, n):
    def run():
        for _ in range(n):
            op = rng.choice(["register", "register", "get", "get", "list"])
            name = rng.choice(names)
            if op == "register":
                R, W, _ = make_codec(rng, None)
                inv = next(clock)
                o = attempt(registry.register, any_case(rng, name), R, W)
                result = "ok" if o.ok else "refused" if isinstance(o.exc, CodecAlreadyExistError) else repr(o)
                events.append((tid, op, name, inv, next(clock), result, id(R), R))
            elif op == "get":
                inv = next(clock)
                o = attempt(registry.get, any_case(rng, name))
                result = id(o.value.Reader) if o.ok else "missing" if isinstance(o.exc, CodecDoesNotExistError) else repr(o)
                events.append((tid, op, name, inv, next(clock), result))
            else:
                inv = next(clock)
                k = rng.random()
                result = [n for n, _ in registry] if k < 0.5 else list(registry.formats)
                events.append((tid, op, None, inv, next(clock), result))

    return run


@forked()
def threads(case):
    rng = case.rng
    before = {n: id(c.Reader) for n, c in registry}
    names = [new_name(rng, before).lower() for _ in range(rng.randint(1, 3))] + rng.sample(BUILTIN, 1)
    k = rng.choice([2, 2, 3, 4])
    events, clock = [], itertools.count()
    import random

    fns = [script(random.Random(rng.getrandbits(64)), clock, events, t, names, rng.randint(4, 12)) for t in range(k)]
    gran = rng.choice(["line", "opcode", "opcode", "call"])
    case.note(names=names, threads=k, granularity=gran)
    try:
        if rng.random() < 0.15:
            r = free_run(fns)
        else:
            r = Scheduler(rng, gran, rng.choice([0.1, 0.3, 0.6]), stall=0.03, limit=20.0).run(fns)
            case.seen("switches", r.switches)
            case.distinct("schedule", r.trail.hexdigest())
    except Deadlock as e:
        case.fail("threads block", str(e))
    for t, e in r.errors.items():
        raise e
    case.note(events=[e[:6] for e in events])
    case.seen("raced registrations", sum(e[1] == "register" for e in events))
    check_events(case, events, before)


@forked()
def singletons(case):
    """First use of a singleton class by several threads."""
    rng = case.rng
    classes = [type("Single%d" % i, (SingletonBase,), {}) for i in range(rng.randint(1, 3))]
    k = rng.randint(2, 4)

    def make(seed):
        import random

        r = random.Random(seed)
        order = [r.choice(classes) for _ in range(4)] + classes

        def run():
            return [(c, c()) for c in order]

        return run

    try:
        r = Scheduler(rng, rng.choice(["opcode", "line"]), rng.choice([0.2, 0.5]), stall=0.03, limit=20.0).run([make(rng.getrandbits(64)) for _ in range(k)])
    except Deadlock as e:
        case.fail("threads block", str(e))
    for e in r.errors.values():
        raise e
    got = {}
    for values in r.values.values():
        for c, o in values:
            case.check(got.setdefault(c, o) is o and type(o) is c, "several instances of a singleton", c.__name__)
    case.check(len({id(o) for o in got.values()}) == len(classes), "singletons of different classes are the same object")
    case.seen("singletons", len(classes))
    case.seen("switches", r.switches)
    case.distinct("singleton", r.trail.hexdigest())


# -- first use of the package ----------------------------------------------------------------
FIRST = r'''
import importlib, json, sys, threading
plan = json.loads(sys.argv[1])
sys.setswitchinterval(plan["interval"])
barrier = threading.Barrier(len(plan["threads"]))
out = [None] * len(plan["threads"])
def main(i, what):
    barrier.wait()
    try:
        res = []
        for step in what:
            if step[0] == "import":
                importlib.import_module(step[1])
            elif step[0] == "registry":
                from objutils.registry import Registry, registry
                res.append(["id", id(Registry()) , id(registry)])
            elif step[0] == "attribute":
                import objutils
                res.append(["id", id(objutils.registry)])
            elif step[0] == "get":
                import objutils
                from objutils.registry import registry
                c = registry.get(step[1])
                res.append(["codec", step[1].lower(), c.Reader.__module__ + "." + c.Reader.__qualname__, c.Writer.__module__ + "." + c.Writer.__qualname__])
            elif step[0] == "use":
                import objutils
                img = objutils.Image([objutils.Section(step[2], bytes(step[3]))])
                res.append(["text", step[1].lower(), step[2], step[3], bytes(objutils.dumps(step[1], img)).decode("latin1")])
            elif step[0] == "list":
                import objutils
                from objutils.registry import registry
                res.append(["list", sorted(n for n, _ in registry), list(registry.formats)])
        out[i] = ["ok", res]
    except BaseException as e:
        out[i] = ["error", "%s: %s" % (type(e).__name__, e)]
ts = [threading.Thread(target=main, args=(i, w)) for i, w in enumerate(plan["threads"])]
for t in ts: t.start()
for t in ts: t.join()
print("RESULT" + json.dumps(out))
'''
MODULES = ["objutils", "objutils.registry", "objutils.srec", "objutils.hexfile", "objutils.utils", "objutils.image", "objutils.elf", "objutils.ihex", "objutils.shf"]


def first_use(case):
    rng = case.rng
    plan = dict(interval=rng.choice([1e-6, 1e-5, 1e-4, 5e-3]), threads=[])
    for _ in range(rng.randint(2, 5)):
        steps = [("import", "objutils")]
        if rng.random() < 0.7:
            steps.append(("import", rng.choice(MODULES)))
        for _ in range(rng.randint(2, 5)):
            k = rng.choice(["registry", "attribute", "get", "get", "use", "list"])
            if k == "get":
                steps.append((k, any_case(rng, rng.choice(BUILTIN))))
            elif k == "use":
                steps.append((k, any_case(rng, rng.choice(NAMES)), rng.randrange(0x8000), list(rng.randbytes(rng.randint(1, 20)))))
            else:
                steps.append((k,))
        plan["threads"].append(steps)
    case.note(plan=plan)
    env = dict(os.environ, PYTHONPATH=os.path.join(VERIF, "vlib", "site") + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([sys.executable, "-c", FIRST, json.dumps(plan)], cwd=case.scratch, env=env, capture_output=True, timeout=120)
    except subprocess.TimeoutExpired:
        case.fail("threads block", "first use of the package does not end")
    marker = p.stdout.rfind(b"RESULT")
    case.check(marker >= 0, "first use of the package fails", "status %r: %r" % (p.returncode, p.stderr[-1500:]))
    ids = set()
    for kind, res in json.loads(p.stdout[marker + 6 :]):
        case.check(kind == "ok", "first use of the package fails", "%r" % res)
        for r in res:
            if r[0] == "id":
                ids |= set(r[1:])
            elif r[0] == "codec":
                c = registry.get(r[1])
                want = [c.Reader.__module__ + "." + c.Reader.__qualname__, c.Writer.__module__ + "." + c.Writer.__qualname__]
                case.equal(r[2:], want, "name resolves to a wrong codec")
            elif r[0] == "text":
                mem = {r[2] + i: b for i, b in enumerate(r[3])}
                try:
                    case.check(FORMATS[r[1]].decode(r[4].encode("latin1")).mem == mem, "name resolves to a wrong writer", "%r" % r)
                except FormatError as e:
                    case.fail("name resolves to a wrong writer", "%r: %s" % (r, e))
            else:
                case.equal(r[1], sorted(BUILTIN), "wrong codecs listed")
                case.equal(r[2], sorted(BUILTIN), "wrong list of formats")
    case.check(len(ids) <= 1, "several registries", "%r" % ids)
    case.seen("first uses", len(plan["threads"]))
    case.distinct("first", plan["interval"], tuple(tuple(s[:2] for s in t) for t in plan["threads"]))


STREAMS = [
    Stream("history", history, 400, 12000),
    Stream("threads", threads, 200, 6000),
    Stream("singletons", singletons, 60, 2000),
    Stream("first use", first_use, 40, 800),
]
