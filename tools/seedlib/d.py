"""small writer of eventio files for the demonstration next to it (independent of the package)"""
import gzip
import os
import struct
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")
RES = os.path.join(os.getcwd(), "tests", "resources")
SYNC = b"\x37\x8a\x1f\xd4"


def hdr(t, v, i, n, top, user=0, ext=False, sub=False):
    w = t | user << 16 | (1 << 17 if ext else 0) | v << 20
    b = struct.pack("<IiI", w, i, (n & 0x3FFFFFFF) | (1 << 30 if sub else 0))
    return (SYNC if top else b"") + b + (struct.pack("<I", n >> 30) if ext else b"")


def ob(t, v, i, payload, top=True, **k):
    return hdr(t, v, i, len(payload), top, **k) + payload


def box(t, v, i, *kids, top=True, **k):
    return ob(t, v, i, b"".join(kids), top, sub=True, **k)


def svar(x):
    return uvar(2 * x if x >= 0 else -2 * x - 1)


def uvar(u):
    for n in range(1, 9):
        if u < 1 << 7 * n:
            b = bytearray(u.to_bytes(n, "big"))
            b[0] |= (0xFF << (9 - n)) & 0xFF
            return bytes(b)
    return b"\xff" + u.to_bytes(8, "big")


_dir = tempfile.TemporaryDirectory()


def write(data, name="x.dat"):
    p = os.path.join(_dir.name, name)
    with open(p, "wb") as f:
        f.write(data)
    return p


def real(name):
    """uncompressed bytes of a file of the test suite"""
    with open(os.path.join(RES, name), "rb") as f:
        b = f.read()
    if b[:2] == b"\x1f\x8b":
        return gzip.decompress(b)
    if b[:4] == b"\x28\xb5\x2f\xfd":
        import io
        import zstandard
        return zstandard.ZstdDecompressor().stream_reader(io.BytesIO(b), read_across_frames=True).read()
    return b


def objects(data, top=True):
    """-> list of (type, version, id, header+payload, payload, has only sub-objects)"""
    out, p = [], 0
    while p < len(data):
        h = p + (4 if top else 0)
        w, i, n = struct.unpack_from("<IiI", data, h)
        q = h + 12
        size = n & 0x3FFFFFFF
        if w >> 17 & 1:
            size += struct.unpack_from("<I", data, q)[0] << 30
            q += 4
        out.append((w & 0xFFFF, w >> 20, i, data[p:q + size], data[q:q + size], bool(n >> 30 & 1)))
        p = q + size
    return out


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)


def eq(got, want, what):
    check(got == want, f"{what}: got {got!r}, expected {want!r}")
