"""Independent parser of the canonical hex dump."""
import re


class DumpError(ValueError):
    pass


def parse_lines(lines):
    """Lines of the dump of ONE section -> (start, bytes)."""
    start = None
    data = bytearray()
    pending = False
    last = None
    total = None
    full = True
    for ln in lines:
        if not ln.strip() or re.fullmatch(r"-+", ln.strip()):
            continue
        if total is not None:
            raise DumpError("text behind the byte count: %r" % ln)
        if ln.strip() == "*":
            if pending or last is None:
                raise DumpError("misplaced elision mark")
            pending = True
            continue
        m = re.fullmatch(r"\s*(\d+) bytes\s*", ln)
        if m:
            total = int(m[1])
            continue
        m = re.fullmatch(r"\s*([0-9a-f]{8,16})\s\s?(.*?)\s*\|(.*)\|\s*", ln, re.S)
        if not m:
            raise DumpError("unknown line %r" % ln)
        if not full:
            raise DumpError("row after a short row")
        addr = int(m[1], 16)
        row = bytes.fromhex(m[2])
        if len(row) > 16 or (not row and len(lines) > 6):
            raise DumpError("row of %d bytes" % len(row))
        shown = m[3]
        want = "".join(chr(b) if 0x20 <= b < 0x7F else "." for b in row)
        if shown.rstrip(" ") != want.rstrip(" ") or not shown.startswith(want) or shown[len(want) :].strip():
            raise DumpError("text column %r does not match %s" % (shown, row.hex()))
        if start is None:
            start = addr
        if pending:
            # The mark stands for rows identical to the one shown before it.
            gap = addr - (start + len(data))
            if gap <= 0 or gap % 16 or len(last) != 16:
                raise DumpError("elided run of %d bytes" % gap)
            data += last * (gap // 16)
            pending = False
        if addr != start + len(data):
            raise DumpError("row at %#x instead of %#x" % (addr, start + len(data)))
        data += row
        last = row
        full = len(row) == 16
    if pending:
        raise DumpError("last row elided")
    if total is None:
        raise DumpError("no byte count")
    if total != len(data):
        raise DumpError("byte count %d, rows show %d" % (total, len(data)))
    if start is None:
        raise DumpError("no rows")
    return start, bytes(data)


def parse_image(text):
    """Dump of an image -> [(start, bytes)]."""
    out = []
    cur = None
    number = 0
    for ln in text.split("\n"):
        m = re.fullmatch(r"Section #(\d+)", ln.strip())
        if m:
            if int(m[1]) != number:
                raise DumpError("section number %s instead of %d" % (m[1], number))
            number += 1
            if cur is not None:
                out.append(parse_lines(cur))
            cur = []
            continue
        if cur is None:
            if ln.strip():
                raise DumpError("text before the first section: %r" % ln)
            continue
        cur.append(ln)
    if cur is not None:
        out.append(parse_lines(cur))
    return out
