"""C14: a binary diff reconstructs the second input from the first."""
import itertools

from objutils.utils.diff import diff_bin

from vlib import gen
from vlib.core import Stream, attempt

PROPERTY = "C14"
LEVEL = "exploration"
QUICK_SCALE = 14
RULE = ("all pairs of byte strings over two symbols up to length 6 (8 in the thorough tier) and three symbols up to length 4 (5), plus random long pairs derived "
        "from one another by edits at the start, the end and in between; the reported differences are applied to the first string and checked for order, "
        "disjointness and maximality; distinct = distinct (shape of the list of differences, relation of the lengths)")
REQUIRED = {"pairs": 20000, "modifications": 10000, "appended tails": 3000, "deleted tails": 3000, "equal inputs": 200, "modification up to the end": 2000, "huge pairs": 30, "differences at block ends": 500}


def judge(case, a, b, ta=bytes, tb=bytes):
    xa, xb = ta(a), tb(b)
    got = attempt(diff_bin, xa, xb)
    case.check(got.ok, "diff failed", "%r, %r: %r" % (a[:500], b[:500], got.exc))
    case.check(bytes(xa) == a and bytes(xb) == b, "inputs modified")
    diffs = got.value
    shown, ahex, bhex = repr(diffs[:20])[:2000], a[:2000].hex(), b[:2000].hex()
    case.seen("pairs")
    out = bytearray(a)
    pos = 0
    common = min(len(a), len(b))
    shape = []
    for i, d in enumerate(diffs):
        typ, off, da, db = d.type, d.offset, d.a, d.b
        case.check(off >= pos, "differences overlap or are unordered", shown, a=ahex, b=bhex)
        if typ == "M":
            da, db = bytes(da), bytes(db)
            n = len(da)
            case.check(n == len(db) > 0, "modification of unequal lengths", repr(d)[:500], a=ahex, b=bhex)
            case.check(a[off : off + n] == da and b[off : off + n] == db, "modification shows wrong bytes", repr(d)[:500], a=ahex, b=bhex)
            case.check(all(x != y for x, y in zip(da, db)), "modification contains equal bytes", repr(d)[:500], a=ahex, b=bhex)
            case.check(off == 0 or off > common or a[off - 1] == b[off - 1], "modification is not maximal", shown, a=ahex, b=bhex)
            case.check(off + n >= common or a[off + n] == b[off + n], "modification is not maximal", shown, a=ahex, b=bhex)
            out[off : off + n] = db
            pos = off + n
            case.seen("modifications")
            if pos == common:
                case.seen("modification up to the end")
        elif typ == "A":
            case.check(i == len(diffs) - 1 and off == len(a) and not da and bytes(db) == b[len(a) :] and len(b) > len(a), "wrong appended tail", shown, a=ahex, b=bhex)
            out += db
            case.seen("appended tails")
        elif typ == "D":
            case.check(i == len(diffs) - 1 and off == len(b) and not db and bytes(da) == a[len(b) :] and len(a) > len(b), "wrong deleted tail", shown, a=ahex, b=bhex)
            del out[off:]
            case.seen("deleted tails")
        else:
            case.fail("unknown kind of difference", repr(d))
        shape.append((typ, min(len(da or db), 3)))
    case.check(bytes(out) == b, "differences do not reconstruct the second input", shown, a=ahex, b=bhex)
    if a == b:
        case.check(len(diffs) == 0, "equal inputs yield differences", shown)
        case.seen("equal inputs")
    case.distinct(tuple(shape[:200]), (len(a) > len(b)) - (len(a) < len(b)))


def strings(symbols, upto):
    return [bytes(t) for n in range(upto + 1) for t in itertools.product(symbols, repeat=n)]


def exhaustive(case):
    """One first string against all second strings."""
    two = strings(b"\x00\xff", 6 if case.tier == "quick" else 8)
    three = strings(b"\x00\x01\xff", 4 if case.tier == "quick" else 5)
    if case.index < len(two):
        for b in two:
            judge(case, two[case.index], b)
    elif case.index - len(two) < len(three):
        for b in three:
            judge(case, three[case.index - len(two)], b)


def edits(case):
    rng = case.rng
    a = gen.rand_bytes(rng, rng.choice([0, 1, 2, 15, 16, 17, 64, 255, 256, 257, rng.randint(0, 2000)]))
    b = bytearray(a)
    for _ in range(rng.choice([0, 1, 1, 2, 5, 20])):
        if not b:
            break
        n = rng.choice([1, 1, 2, 8, 16, 100])
        i = rng.choice([0, max(0, len(b) - n), rng.randrange(len(b)), max(0, len(b) // 2 - n)])
        for j in range(i, min(len(b), i + n)):
            b[j] ^= rng.choice([1, 0x80, 0xFF, 1 + rng.randrange(255)])
    k = rng.random()
    if k < 0.3:
        b += rng.randbytes(rng.choice([1, 2, 16, 300]))
    elif k < 0.6 and b:
        del b[rng.choice([0, len(b) - 1, rng.randrange(len(b)), max(0, len(b) - 16)]) :]
    case.note(a=a.hex(), b=b.hex())
    case.sample("%d bytes against %d bytes" % (len(a), len(b)))
    types = [bytes, bytearray]
    judge(case, a, bytes(b), rng.choice(types), rng.choice(types))
    judge(case, bytes(b), a, rng.choice(types), rng.choice(types))


def huge(case):
    """Hundreds of kilobytes; thousands of differences."""
    rng = case.rng
    a = rng.randbytes(rng.randint(66000, 200000))
    b = bytearray(a)
    if rng.random() < 0.5:
        for i in range(0, len(b), rng.choice([7, 50, 1000])):
            b[i] ^= 1 + rng.randrange(255)
    else:
        n = rng.randint(4097, 66000)
        k = rng.randrange(len(b) - n)
        b[k : k + n] = bytes(x ^ 0xFF for x in b[k : k + n])
    b = bytes(b[: rng.choice([len(b), len(b), rng.randrange(len(b))])]) + rng.randbytes(rng.choice([0, 0, 70000]))
    judge(case, a, b)
    judge(case, b, a)
    case.seen("huge pairs")


def blocks(case):
    """Differences which end or begin where blocks of a power of two (or of 10**n) bytes do, equal blocks between them."""
    rng = case.rng
    size = rng.choice([4, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384])
    n = rng.randint(2, 8 if size > 1000 else 20)
    a = rng.choice([bytes(size * n), rng.randbytes(size * n)])
    b = bytearray(a)
    for i in range(n):
        k = rng.choice(["equal", "equal", "head", "tail", "both", "all", "before", "middle"])
        lo, hi = i * size, (i + 1) * size
        spots = {"equal": [], "head": [lo], "tail": [hi - 1], "both": [lo, hi - 1], "all": range(lo, hi), "before": range(max(hi - rng.randint(1, 3), lo), hi), "middle": [rng.randrange(lo, hi)]}[k]
        for p in spots:
            b[p] ^= 1 + rng.randrange(255)
    b = bytes(b)
    k = rng.choice([0, 0, 0, -1, 1, -size, size])
    if k < 0:
        b = b[:k]
    elif k:
        b += rng.randbytes(k)
    judge(case, a, b)
    judge(case, b, a)
    case.seen("differences at block ends")


def unrelated(case):
    rng = case.rng
    a, b = rng.randbytes(rng.randint(0, 300)), rng.randbytes(rng.randint(0, 300))
    case.note(a=a.hex(), b=b.hex())
    judge(case, a, b)


def typing(case):
    rng = case.rng
    good = rng.randbytes(4)
    for bad in ("abcd", [1, 2], None, 5):
        for args in ((good, bad), (bad, good)):
            out = attempt(diff_bin, *args)
            case.check(not out.ok and isinstance(out.exc, TypeError), "input of wrong type accepted", repr(args))
    # results are snapshots, calls are independent
    a, b = bytearray(b"abcdef"), bytearray(b"abXdefgh")
    first = diff_bin(a, b)
    keep = [(d.type, d.offset, bytes(d.a or b""), bytes(d.b or b"")) for d in first]
    a[:] = bytes(6)
    b[:] = bytes(8)
    second = diff_bin(b"zz", b"yy")
    case.check([(d.type, d.offset, bytes(d.a or b""), bytes(d.b or b"")) for d in first] == keep, "differences change afterwards")
    case.check(len(second) == 1, "differences of independent calls mix", repr(second))


STREAMS = [
    Stream("huge", huge, 4, 200),
    Stream("exhaustive", exhaustive, 127 + 121, 511 + 364),
    Stream("edits", edits, 4000, 80000),
    Stream("blocks", blocks, 300, 10000),
    Stream("unrelated", unrelated, 500, 5000),
    Stream("typing", typing, 4, 4),
]
