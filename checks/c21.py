"""C21: DWARF location expressions are rendered operation by operation."""
import contextlib
import io
import os

from objutils.dwarf import DwarfProcessor
from objutils.elf import ElfParser

from vlib import elfgen
from vlib.core import Stream, attempt
from vlib.dwarfops import CODES, OPS, ambiguous, decode, differences, expression

PROPERTY = "C21"
LEVEL = "exploration"
RULE = ("random sequences of all 168 standard and GNU operations known to the library with boundary and random operands, evaluated by 2..4 processors of ELF files "
        "of all four kinds (32/64 bit, little/big endian) in random interleaving (some with the very same bytes for all of them), every rendering parsed back and compared with the operations encoded; errors "
        "in between; distinct = distinct (kind of file, operation, class of operand values)")
REQUIRED = {"expressions": 3000, "operations": 30000, "switches between processors": 1500, "kinds of files": 4, "operation kinds": len(CODES) * 4, "after an error": 300,
            "same operation": 1000, "same bytes": 4000, "blocks": 2000}
KINDS = [(c, o) for c in (32, 64) for o in ("little", "big")]


def open_processor(case, kind, n):
    cls, order = kind
    elf = elfgen.Elf(cls, order)
    table, offs = elfgen.string_table(None, ["", ".debug_info", ".debug_abbrev", ".shstrtab"])
    elf.sections = [elfgen.Sec("", elfgen.SHT_NULL)] + [elfgen.Sec(s, content=b"\0" * 4) for s in (".debug_info", ".debug_abbrev")] + [elfgen.Sec(".shstrtab", elfgen.SHT_STRTAB, content=table)]
    for s in elf.sections:
        s.name_off = offs[s.name]
    elf.shstrndx = 3
    path = os.path.join(case.scratch, "f%d.elf" % n)
    with open(path, "wb") as f:
        f.write(elf.build())
    ep = ElfParser(path)
    return ep, DwarfProcessor(ep)


def run(case):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case)


def value_class(v):
    if isinstance(v, bytes):
        return min(len(v), 3)
    return (v > 0) - (v < 0), abs(v).bit_length() // 7


def _run(case):
    rng = case.rng
    kinds = [rng.choice(KINDS) for _ in range(rng.choice((2, 3, 4)))]
    if case.index < 8:  # every pair of kinds at least once
        kinds = KINDS[:]
        rng.shuffle(kinds)
    open_ = []
    try:
        for n, kind in enumerate(kinds):
            ep, dp = open_processor(case, kind, n)
            open_.append((kind, ep, dp))
            if rng.random() < 0.3 and n:  # use the earlier ones between the creations
                one(case, rng, open_[rng.randrange(n)], [])
        cycle = CODES[:]
        rng.shuffle(cycle)
        last = None
        pool = []
        for i in range(60):
            cur = rng.choice(open_)
            if cur is not last and last is not None:
                case.seen("switches between processors")
            last = cur
            if rng.random() < 0.08:  # cut off within an operand, or an unknown operation: whatever happens must not matter later
                kind, ep, dp = cur
                code = rng.choice([0x03, 0x0E, 0x9E, 0xA4, 0x92, 0x10, 0x01, 0xE9])
                attempt(dp.dwarf_expression, bytes([code]) + b"\x85" * rng.randrange(3))
                case.seen("after an error")
                cur = rng.choice(open_)
            if rng.random() < 0.12:  # the same bytes are other operations in another file
                data = rng.choice(pool) if pool and rng.random() < 0.6 else ambiguous(rng, rng.choice(("little", "big")))
                pool.append(data)
                for kind, ep, dp in rng.sample(open_, len(open_)):
                    ops = decode(data, kind[1], kind[0] // 8)
                    if ops is not None:
                        compare(case, dp, kind, data, ops)
                        case.seen("same bytes")
                continue
            codes = None
            if rng.random() < 0.3:
                codes = [rng.choice(CODES)]  # one operation again and again, with different operands
                case.seen("same operation")
            elif rng.random() < 0.5:
                codes = cycle[:6]
                cycle = cycle[6:] + cycle[:6]
            one(case, rng, cur, codes)
        for (kind, ep, dp) in open_:  # all operations in one expression
            if rng.random() < 0.25:
                codes = CODES[:]
                rng.shuffle(codes)
                data, ops = b"", []
                for c in codes:
                    d, o = expression(rng, kind[1], kind[0] // 8, 1, [c])
                    data += d
                    ops += o
                compare(case, dp, kind, data, ops)
    finally:
        for kind, ep, dp in open_:
            ep.db.close()


def one(case, rng, entry, codes):
    kind, ep, dp = entry
    data, ops = expression(rng, kind[1], kind[0] // 8, rng.choice((0, 1, 1, 1, 2, 3, 8, 30)) if rng.random() < 0.99 else rng.randint(300, 1500), codes)
    compare(case, dp, kind, data, ops)


def compare(case, dp, kind, data, ops):
    case.sample("%d bit %s endian: %s = %s" % (kind + (data[:40].hex(), ops[:6])))
    out = attempt(dp.dwarf_expression, data)
    case.check(out.ok, "expression is not rendered", "%s of %s: %r" % (data[:60].hex(), kind, out), expression=data.hex(), operations=ops)
    diff = differences(out.value, ops)
    case.check(diff is None, "rendering differs from the expression", "%s of a %d bit %s endian file: %s" % (data[:60].hex(), kind[0], kind[1], diff),
               expression=data.hex(), operations=ops, rendering=out.value)
    case.seen("expressions")
    case.seen("operations", len(ops))
    for name, values in ops:
        case.distinct(kind, name, tuple(value_class(v) for v in values))
        if values and isinstance(values[-1], bytes):
            case.seen("blocks")
    have = case.shared.setdefault("_kinds", set())
    for name, values in ops:
        if (kind, name) not in have:
            have.add((kind, name))
            case.seen("operation kinds")
    if ("kind", kind) not in have:
        have.add(("kind", kind))
        case.seen("kinds of files")


STREAMS = [Stream("interleaved", run, 500, 25000)]
