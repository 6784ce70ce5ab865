"""Container-level view of a Brunsli stream (no knowledge of section bodies)."""
SIG = bytes([0x0A, 0x04, 0x42, 0xD2, 0xD5, 0x4E])


def base128(v, width=None):
    r = bytearray()
    while True:
        b = v & 0x7f
        v >>= 7
        last = (v == 0) if width is None else (len(r) + 1 == width)
        r.append(b | (0 if last else 0x80))
        if last:
            return bytes(r)


def read128(d, p):
    v = 0
    for i in range(9):
        b = d[p]; p += 1
        v |= (b & 0x7f) << (7 * i)
        if not b & 0x80:
            return v, p
    raise ValueError


def split(d):
    """List of (tag, wire, payload or value, raw bytes)."""
    p, r = 0, []
    while p < len(d):
        s = p
        t = d[p]; p += 1
        v, p = read128(d, p)
        if t & 7 == 2:
            r.append((t >> 3, 2, d[p:p + v], d[s:p + v]))
            p += v
        else:
            r.append((t >> 3, 0, v, d[s:p]))
    return r


def sec(tag, payload):
    return bytes([tag << 3 | 2]) + base128(len(payload)) + bytes(payload)


def var(tag, v):
    return bytes([tag << 3]) + base128(v)
