"""Shared pieces of the hex-format checks."""
import os
import subprocess

from . import gen
from .formats import FORMATS, NAMES, FormatError, row_limit, runs


def pick_format(case, names=NAMES):
    # Deterministic rotation: every format is reached evenly whatever the seed.
    return names[case.index % len(names)]


def pick_row(rng, fmt, mem, record_type=None):
    lim = row_limit(fmt, max(mem), record_type)
    k = rng.random()
    if k < 0.35:
        return 16
    if k < 0.6:
        return rng.randint(1, min(lim, 40))
    if k < 0.7:
        return lim
    if k < 0.8:
        return max(1, lim - rng.randint(0, 3))
    if k < 0.9:
        return rng.choice([1, 2, 3, 8, 15, 17, 31, 32, 33])
    return rng.randint(1, lim)


def mem_for(rng, fmt, big=False, max_sections=5):
    f = FORMATS[fmt]
    limit = f.max_address
    if limit > 0xFFFFFFFF and rng.random() < 0.7:
        limit = 0xFFFFFFFF
    elif limit > 0xFFFF and rng.random() < 0.35:
        limit = rng.choice([0xFFFF, 0xFFFFF, 0xFFFFFF])
        limit = min(limit, f.max_address)
    return gen.rand_mem(rng, limit, max_sections=max_sections, big=big)


def feature_key(fmt, mem, row=None):
    """What makes two cases of the hex checks different (for the evidence)."""
    rs = runs(mem)
    top, low = max(mem), min(mem)
    return (
        fmt, row if row is None or row < 20 else row // 16 * 16, min(len(rs), 4), top.bit_length(), low.bit_length(),
        min(len(mem).bit_length(), 9), rs[0][0] % 16 == 0, any(a // 65536 != (a + len(d) - 1) // 65536 for a, d in rs),
        top == FORMATS[fmt].max_address,
    )


def objcopy(args, cwd, timeout=60):
    p = subprocess.run(["objcopy"] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("latin1")


def have_objcopy():
    return any(os.access(os.path.join(p, "objcopy"), os.X_OK) for p in os.environ.get("PATH", "").split(":"))
