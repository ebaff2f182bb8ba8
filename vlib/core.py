"""Runner shared by all checks.

A check module (checks/cNN.py) defines

    PROPERTY   id
    LEVEL      level for the evidence file
    RULE       how cases are made, and what makes one non-trivial
    STREAMS    [Stream(name, function, quick, thorough)]; function(case) runs
               ONE case of the workload under the monitors
    QUICK_SCALE  (optional) factor for the quick case counts (at most the thorough ones)
    REQUIRED   {event: minimum} -- what the monitors must have observed (quick
               tier) before a silent run counts as "held"; otherwise the run is
               inconclusive (exit 2)

Every case is a pure function of (VERIF_SEED, property, stream, index), so a
violation is replayed with  run.py <property> --replay <file>.
"""
import collections
import errno
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OBJUTILS = os.path.join(REPO, "objutils") + os.sep

Stream = collections.namedtuple("Stream", "name function quick thorough")


class Violation(Exception):
    def __init__(self, mechanism, message, witness):
        super().__init__(message)
        self.mechanism, self.message, self.witness = mechanism, message, witness


class CaseTimeout(BaseException):
    """CPU time of one case exhausted."""


class Inconclusive(Exception):
    """The machinery could not decide this case (never folded into a verdict)."""


def short(x, limit=400):
    if not isinstance(x, str) and isinstance(x, (bytes, bytearray, list, tuple)) and len(x) > 4 * limit:
        return "%s... [%d items]" % (repr(x[:limit])[:limit], len(x))
    r = x if isinstance(x, str) else repr(x)
    return r if len(r) <= limit else r[: limit // 2] + " ...[%d]... " % len(r) + r[-limit // 2 :]


class ChildRecord(Exception):
    """Violation or error found in a forked child."""

    def __init__(self, record):
        super().__init__("in child")
        self.record = record


class Outcome:
    """What a call of the code under test did: value or exception."""

    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        return "returned " + short(self.value) if self.ok else "raised %s: %s" % (type(self.exc).__name__, short(str(self.exc), 200))


def attempt(fn, *args, **kws):
    try:
        return Outcome(value=fn(*args, **kws))
    except Exception as e:  # BaseException (timeouts, interrupts) passes through
        return Outcome(exc=e)


class Case:
    def __init__(self, prop, stream, index, seed, tier, shared):
        self.prop, self.stream, self.index, self.seed, self.tier = prop, stream, index, seed, tier
        self.rng = random.Random("%s|%s|%s|%s" % (seed, prop, stream, index))
        self.shared = shared
        self.notes = {}
        self._scratch = None

    # -- what the monitors observed ------------------------------------------------
    def ev(self, n=1):
        self.shared["evaluations"] += n

    def seen(self, event, n=1):
        self.shared["seen"][event] += n

    def distinct(self, *key):
        """Record a distinct non-trivial situation."""
        self.shared["distinct"].add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, text):
        s = self.shared["samples"].setdefault(self.stream, [])
        if len(s) < 2:
            s.append(short(text, 500))

    def note(self, **kws):
        """Facts that go into the replay file if this case fails."""
        self.notes.update({k: short(v, 3000) for k, v in kws.items()})

    # -- verdicts --------------------------------------------------------------------
    def fail(self, mechanism, message, **witness):
        raise Violation(mechanism, message, {k: short(v, 3000) for k, v in witness.items()})

    def check(self, cond, mechanism, message="", **witness):
        self.shared["evaluations"] += 1
        if not cond:
            self.fail(mechanism, message or mechanism, **witness)

    def equal(self, got, want, mechanism, message="", **witness):
        self.shared["evaluations"] += 1
        if got != want:
            self.fail(mechanism, (message + ": " if message else "") + "got %s, expected %s" % (short(got, 300), short(want, 300)), **witness)

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="verif_", dir=self.shared["scratch"])
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None


def _new_shared(scratch):
    return {"evaluations": 0, "seen": collections.Counter(), "distinct": set(), "samples": {}, "scratch": scratch}


def _through_objutils(tb):
    return any(f.filename.startswith(OBJUTILS) for f in traceback.extract_tb(tb))


CPU_LIMIT = 60.0
SHAPE_ERRORS = (TypeError, AttributeError, KeyError, IndexError, ValueError, struct.error, AssertionError, ArithmeticError, StopIteration)


def run_case(module, stream, index, seed, tier, shared):
    """Returns None or a violation record or ('error', text)."""
    case = Case(module.PROPERTY, stream.name, index, seed, tier, shared)

    def on_timer(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGPROF, on_timer)
    limit = getattr(module, "CPU_LIMIT", CPU_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        try:
            stream.function(case)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return None
    except Violation as v:
        return dict(mechanism=v.mechanism, message=v.message, witness=dict(case.notes, **v.witness), stream=stream.name, index=index)
    except CaseTimeout:
        return dict(mechanism="no result", message="no result after %.0f s of CPU time" % limit, witness=dict(case.notes),
                    stream=stream.name, index=index)
    except Inconclusive as e:
        shared["seen"]["inconclusive cases"] += 1
        shared["samples"].setdefault("inconclusive", []).append(short(str(e)))
        return None
    except ChildRecord as e:
        return e.record
    except Exception as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN, errno.EDQUOT):
            return ("error", text)
        if _through_objutils(e.__traceback__):
            return dict(mechanism="unexpected %s" % type(e).__name__, message="%s: %s" % (type(e).__name__, short(str(e), 300)),
                        witness=dict(case.notes, traceback=text), stream=stream.name, index=index)
        if isinstance(e, SHAPE_ERRORS):
            return dict(mechanism="malformed result", message="the observed result can not be interpreted: %s: %s" % (type(e).__name__, short(str(e), 300)),
                        witness=dict(case.notes, traceback=text), stream=stream.name, index=index)
        return ("error", text)
    finally:
        case.cleanup()


def forked(limit=120.0):
    """Stream functions that change process-wide state run in a forked child; what it observed is merged."""

    def wrap(fn):
        def run(case):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    shared = _new_shared(case.shared["scratch"])
                    module = type("M", (), {"PROPERTY": case.prop})
                    record = run_case(module, Stream(case.stream, fn, 0, 0), case.index, case.seed, case.tier, shared)
                    data = pickle.dumps((shared["evaluations"], shared["seen"], shared["distinct"], shared["samples"], record))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            chunks = []
            end = time.monotonic() + limit
            try:
                while True:
                    ready, _, _ = select.select([r], [], [], max(0.0, end - time.monotonic()))
                    if not ready:
                        os.kill(pid, signal.SIGKILL)
                        case.fail("no result", "no result after %.0f s" % limit)
                    b = os.read(r, 1 << 16)
                    if not b:
                        break
                    chunks.append(b)
            finally:
                os.close(r)
                _, status = os.waitpid(pid, 0)
            if not chunks:
                raise ChildRecord(("error", "child ended with status %r" % status))
            evaluations, seen, distinct, samples, record = pickle.loads(b"".join(chunks))
            case.shared["evaluations"] += evaluations
            case.shared["seen"].update(seen)
            case.shared["distinct"] |= distinct
            for k, v in samples.items():
                have = case.shared["samples"].setdefault(k, [])
                have += v[: max(0, 2 - len(have))]
            if record is not None:
                raise ChildRecord(record)

        return run

    return wrap


def _silence():
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.excepthook = sys.__excepthook__
    logging.getLogger("objutils").propagate = False
    for name in list(logging.root.manager.loggerDict):
        if name.startswith("objutils"):
            for h in logging.getLogger(name).handlers:
                if isinstance(h, logging.StreamHandler):
                    h.setStream(devnull)


def _worker(module_name, wid, nworkers, seed, tier, deadline, scratch, conn):
    try:
        module = importlib.import_module(module_name)
        _silence()
        sys.stderr = open(os.devnull, "w")
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        shared = _new_shared(scratch)
        violations, errors, done = [], [], collections.Counter()
        # Interleave the streams so that a deadline cuts all of them evenly.
        plan = []
        for s in module.STREAMS:
            n = min(s.quick * getattr(module, "QUICK_SCALE", 1), s.thorough) if tier == "quick" else s.thorough
            for i in range(n):
                # (Few long cases come first, one for each worker.)
                plan.append((0 if tier == "quick" and s.name in ("huge", "large") and n <= nworkers else (i + 0.5) / n, s, i))
        plan.sort(key=lambda t: (t[0], t[1].name, t[2]))
        mechanisms = collections.Counter()
        known = {m for p, m in load_known() if p == module.PROPERTY}
        cut = False
        for pos in range(wid, len(plan), nworkers):
            if time.monotonic() > deadline:
                cut = True
                break
            _, s, i = plan[pos]
            r = run_case(module, s, i, seed, tier, shared)
            done[s.name] += 1
            if isinstance(r, dict):
                mechanisms[r["mechanism"]] += 1
                if mechanisms[r["mechanism"]] <= 2:
                    violations.append(r)
                if sum(n for m, n in mechanisms.items() if m not in known) >= 40:
                    break
            elif r is not None:
                errors.append("%s[%d]: %s" % (s.name, i, r[1]))
                if len(errors) >= 3:
                    break
        conn.send(dict(shared=shared, violations=violations, errors=errors, done=done, cut=cut, mechanisms=mechanisms))
    except BaseException:
        conn.send(dict(shared=None, errors=[traceback.format_exc()], violations=[], done={}, cut=False, mechanisms={}))
    finally:
        conn.close()
        os._exit(0)


def load_known():
    """(property, mechanism) -> text, for findings that are recorded but not repaired."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property="):
                head, text = line[len("known: property=") :].split(" ", 1)
                mech, text = text.split(" :: ", 1)
                known[(head, mech)] = text
    return known


def main(module_name, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    module = importlib.import_module(module_name)
    prop = module.PROPERTY
    base = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        if "--replay" in argv:
            return replay(module, argv[argv.index("--replay") + 1], base)
        if hasattr(module, "prepare"):
            module.prepare(base, tier)
        return explore(module, module_name, prop, tier, seed, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def explore(module, module_name, prop, tier, seed, base, t0):
    nworkers = min(getattr(module, "WORKERS", 8), os.cpu_count() or 1)
    limit = getattr(module, "TIME_QUICK", 240) if tier == "quick" else getattr(module, "TIME_THOROUGH", 780)
    deadline = t0 + limit
    ctx = mp.get_context("fork")
    procs = []
    sys.stdout.flush()
    for wid in range(nworkers):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(module_name, wid, nworkers, seed, tier, deadline, base, w))
        p.start()
        w.close()
        procs.append((p, r))
    shared = _new_shared(base)
    violations, errors, done, cut, mechanisms = [], [], collections.Counter(), False, collections.Counter()
    for p, r in procs:
        res = None
        try:
            if r.poll(max(1.0, deadline + 60 - time.monotonic())):
                res = r.recv()
        except (EOFError, OSError):
            pass
        if res is None:
            errors.append("worker died or did not answer (exit code %r)" % p.exitcode)
            p.kill()
        else:
            violations += res["violations"]
            errors += res["errors"]
            done.update(res["done"])
            mechanisms.update(res["mechanisms"])
            cut = cut or res["cut"]
            if res["shared"]:
                shared["evaluations"] += res["shared"]["evaluations"]
                shared["seen"].update(res["shared"]["seen"])
                shared["distinct"] |= res["shared"]["distinct"]
                for k, v in res["shared"]["samples"].items():
                    shared["samples"].setdefault(k, []).extend(v)
        p.join(5)
    # findings that are recorded in known_findings.txt are reported, not raised
    known = load_known()
    violations.sort(key=lambda v: (v["stream"], v["index"]))
    reported, fresh = {}, []
    for v in violations:
        if (prop, v["mechanism"]) in known:
            reported[v["mechanism"]] = known[(prop, v["mechanism"])]
        else:
            fresh.append(v)
    for mech, text in sorted(reported.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, mech, text))
    samples = []
    for k in sorted(shared["samples"]):
        samples += ["%s: %s" % (k, s) for s in shared["samples"][k][:2]]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": module.LEVEL,
        "coverage": {
            "evaluations": shared["evaluations"],
            "distinct_nontrivial": len(shared["distinct"]),
            "rule": module.RULE,
            "samples": samples[:40] or ["none"],
            "cases": dict(sorted(done.items())),
            "observed": dict(sorted(shared["seen"].items())),
            "cut_by_deadline": cut,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %.1f s%s" % (
        prop, tier, seed, sum(done.values()), shared["evaluations"], len(shared["distinct"]), time.monotonic() - t0,
        " (cut by deadline)" if cut else ""))
    if fresh:
        outdir = os.path.join(VERIF, "out")
        os.makedirs(outdir, exist_ok=True)
        printed = set()
        for n, v in enumerate(fresh):
            if v["mechanism"] in printed or len(printed) >= 5:
                continue
            printed.add(v["mechanism"])
            path = os.path.join(outdir, "%s_%s_%d.json" % (prop, "".join(c if c.isalnum() else "_" for c in v["stream"]), v["index"]))
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, seed=seed, tier=tier), f, indent=1, default=str)
            print("  %s[%d] %s: %s" % (v["stream"], v["index"], v["mechanism"], short(v["message"], 600)))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %d failing cases: %s" % (sum(mechanisms.values()), dict(mechanisms.most_common(10))))
        return 1
    if errors:
        print("ERROR of the check itself:\n" + "\n".join(errors[:3]))
        return 3
    missing = {k: (shared["seen"].get(k, 0), n) for k, n in getattr(module, "REQUIRED", {}).items() if shared["seen"].get(k, 0) < n}
    if missing or not shared["evaluations"]:
        print("INCONCLUSIVE: monitors observed too little (seen, required): %s" % missing)
        return 2
    return 0


def replay(module, path, base):
    rec = json.load(open(path))
    if hasattr(module, "prepare"):
        module.prepare(base, rec["tier"])
    stream = [s for s in module.STREAMS if s.name == rec["stream"]][0]
    out = sys.stdout
    _silence()
    r = run_case(module, stream, rec["index"], rec["seed"], rec["tier"], _new_shared(base))
    sys.stdout = out
    if isinstance(r, dict):
        print(json.dumps(r, indent=1, default=str))
        print("VIOLATION property=%s replay=%s" % (module.PROPERTY, path))
        return 1
    if r is not None:
        print(r[1])
        return 3
    print("case passes")
    return 0
