"""Generators of memories (sparse images) and helpers around objutils.Image."""
from .formats import runs


def rand_bytes(rng, n):
    k = rng.random()
    if k < 0.45:
        return rng.randbytes(n)
    if k < 0.55:
        return bytes(n)
    if k < 0.65:
        return b"\xff" * n
    if k < 0.75:
        return bytes((rng.randrange(256) + i) & 0xFF for i in range(n)) if n < 4 else bytes((i * rng.choice([1, 3, 7]) + 13) & 0xFF for i in range(n))
    if k < 0.85:
        return bytes(rng.choice(b"\x00\xff\x7f\x80\x0a\x0d\x20\x25\x3a\x53") for _ in range(n))
    pat = rng.randbytes(rng.randint(1, 18))
    return (pat * (n // len(pat) + 1))[:n]


def rand_len(rng, big=False):
    k = rng.random()
    if k < 0.25:
        return rng.randint(1, 5)
    if k < 0.6:
        return rng.randint(1, 40)
    if k < 0.75:
        return rng.choice([15, 16, 17, 31, 32, 33, 48, 64, 255, 256, 257])
    if k < 0.95 or not big:
        return rng.randint(20, 300)
    return rng.randint(300, 5000)


def anchors(limit):
    out = [0, 1, 0xF, 0x10, 0xFF, 0x100, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xFFF0, 0xFFFF]
    for b in (16, 17, 18, 20, 24, 31, 32, 33, 40, 48, 63):
        for m in (1, 2, 3):
            out += [(m << b) - 1, m << b, (m << b) + 1]
    out += [limit, limit - 1, limit - 15, limit - 16, limit - 255, limit // 2, limit // 2 + 1]
    return [a for a in out if 0 <= a <= limit]


def rand_address(rng, limit):
    k = rng.random()
    if k < 0.45:
        return min(limit, max(0, rng.choice(anchors(limit)) + rng.randint(-40, 40)))
    if k < 0.7:
        return rng.randint(0, min(limit, 0xFFFF))
    return rng.randint(0, limit)


def rand_mem(rng, limit=0xFFFF, max_sections=5, big=False, base=0):
    """{address: byte}; non-empty; addresses base..limit."""
    mem = {}
    n = rng.choice([1, 1, 1, 2, 2, 3, 4, max_sections])
    last = None
    for _ in range(n):
        ln = rand_len(rng, big)
        k = rng.random()
        if last is not None and k < 0.45:
            start = last + rng.choice([0, 0, 1, 2, 15, 16, 100, 0x8000, 0x10000, 0x10001])  # adjacent / small gap
        elif k < 0.6:
            start = limit + 1 - ln  # up to the last address
        else:
            start = rand_address(rng, limit)
        start = max(start, base)
        if start > limit:
            continue
        ln = min(ln, limit + 1 - start)
        data = rand_bytes(rng, ln)
        for i, b in enumerate(data):
            mem.setdefault(start + i, b)
        last = start + ln
    if not mem:
        mem[rng.randint(base, limit)] = rng.randrange(256)
    return mem


def huge_mem(rng, limit, kind):
    """Much of something: 0 a run of 64K (for single byte records), 1 thousands of runs, 2 a run over many banks."""
    if kind == 0:
        n = 65536 if limit == 0xFFFF else rng.randint(65537, 68000)
        return dict(enumerate(rand_bytes(rng, n), rng.randint(0, limit + 1 - n)))
    if kind == 1:
        mem = {}
        for _ in range(rng.randint(2000, 4000)):
            a = rng.randint(0, limit - 8)
            if not any(k in mem for k in range(a - 1, a + 9)):
                mem.update(enumerate(rand_bytes(rng, rng.randint(1, 8)), a))
        return mem
    n = min(rng.randint(250000, 450000), limit + 1)
    return dict(enumerate(rand_bytes(rng, n), rng.choice([0, limit + 1 - n, rng.randint(0, limit + 1 - n)])))


def split_sections(rng, mem, pieces=True):
    """Sections [(start, bytes)] covering mem, in random order, possibly adjacent."""
    out = []
    for a, d in runs(mem):
        if pieces and len(d) > 1 and rng.random() < 0.5:
            cuts = sorted({rng.randint(1, len(d) - 1) for _ in range(rng.randint(1, 4))})
            prev = 0
            for c in cuts + [len(d)]:
                out.append((a + prev, d[prev:c]))
                prev = c
        else:
            out.append((a, d))
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def make_image(rng, mem, pieces=True, join=True):
    from objutils import Image, Section

    secs = [Section(a, d) for a, d in split_sections(rng, mem, pieces)]
    return Image(secs) if join else Image(secs, join=False)


def plain_image(mem):
    from objutils import Image, Section

    return Image([Section(a, d) for a, d in runs(mem)])


def mem_of(image):
    """Bytes of an image through its public interface; rejects double coverage."""
    mem = {}
    for s in image.sections:
        data = bytes(s.data)
        assert len(data) == len(s)
        for i, b in enumerate(data):
            a = s.start_address + i
            assert a not in mem, "address %#x covered twice" % a
            mem[a] = b
    return mem


def mem_hex(mem, limit=6):
    r = ["%#x:%s" % (a, d.hex() if len(d) <= 64 else d[:64].hex() + "..(%d)" % len(d)) for a, d in runs(mem)]
    return " ".join(r[:limit]) + (" ..(%d runs)" % len(r) if len(r) > limit else "")


def mem_diff(got, want):
    out = []
    for a in sorted(set(got) | set(want)):
        if got.get(a) != want.get(a):
            out.append("%#x: got %s, expected %s" % (a, got.get(a), want.get(a)))
            if len(out) >= 5:
                out.append("...")
                break
    return "; ".join(out)
