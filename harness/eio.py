"""Independent writer of the eventio container format (used to concretise behaviours of the specification)."""
import gzip
import io
import struct

SYNC = b"\x37\x8a\x1f\xd4"
SYNC_BE = b"\xd4\x1f\x8a\x37"


def header(type, version, id, size, top, user=0, ext=False, sub=False):
    w = (type & 0xFFFF) | ((user & 1) << 16) | ((1 << 17) if ext else 0) | ((version & 0xFFF) << 20)
    ln = (size & 0x3FFFFFFF) | ((1 << 30) if sub else 0)
    b = struct.pack("<IiI", w, id, ln) if id < 2**31 else struct.pack("<III", w, id, ln)
    if ext:
        b += struct.pack("<I", (size >> 30) & 0xFFF)
    return (SYNC if top else b"") + b


def obj(type, version, id, payload, top=False, user=0, ext=False, sub=False):
    return header(type, version, id, len(payload), top, user, ext, sub) + payload


def uvar(u):
    """variable length encoding of an unsigned number"""
    for n in range(1, 9):
        if u < 1 << (7 * n):
            b = bytearray(u.to_bytes(n, "big"))
            b[0] |= (0xFF << (9 - n)) & 0xFF
            return bytes(b)
    return b"\xff" + u.to_bytes(8, "big")


def svar(v):
    return uvar(2 * v if v >= 0 else -2 * v - 1)


# ------------------------------------------------------------- storage forms
FORMS = ("plain", "gzproc", "gzpy", "zstd", "gzmulti", "gzmultipy", "zstdmulti")


def split(data, cuts):
    out, last = [], 0
    for c in sorted(set(c for c in cuts if 0 < c < len(data))):
        out.append(data[last:c])
        last = c
    out.append(data[last:])
    return out


def pack(data, form, cuts=()):
    if form == "plain":
        return data
    if form in ("gzproc", "gzpy", "gznone"):
        return gzip.compress(data, 1, mtime=0)
    if form in ("gzmulti", "gzmultipy"):
        return b"".join(gzip.compress(x, 1, mtime=0) for x in split(data, cuts))
    import zstandard as zstd
    if form == "zstd":
        return zstd.ZstdCompressor(level=1).compress(data)
    if form == "zstdmulti":
        return b"".join(zstd.ZstdCompressor(level=1).compress(x) for x in split(data, cuts))
    raise ValueError(form)


NAMES = ["f%d", "f%d", "-f%d.gz", "--f%d", "f %d.simtel", "f%d.gz", "f%d.zst", "f%d.eventio.bak", "'f%d'$x", "\u00e4%d"]


def any_name(rng, n):
    """a file name, as text or Path, relative to the working directory or absolute: nothing depends on it"""
    import os
    import pathlib
    name = rng.choice(NAMES) % n
    if rng.random() < 0.5:
        name = os.path.abspath(name)
    return pathlib.Path(name) if rng.random() < 0.4 else name


def zcat_of(form):
    return form not in ("gzpy", "gzmultipy")


class without_gzip:
    """form gznone: the program gzip is not installed while the file is opened"""
    def __init__(self, form):
        self.none = form == "gznone"

    def __enter__(self):
        import os
        if self.none:
            self.path = os.environ.get("PATH", "")
            os.environ["PATH"] = "/nonexistent"

    def __exit__(self, *exc):
        import os
        if self.none:
            os.environ["PATH"] = self.path


def forward_only(form):
    return form in ("gzproc", "gzmulti", "zstd", "zstdmulti")
