"""Replay of EioHeader behaviours: the header bytes in a (sparse) file, followed by a sibling."""
import os
import struct
import tempfile

import eio
from worker import Mismatch

P = {}
LIMIT = [1 << 43]


def setup(params):
    P.update(params)
    P["path"] = os.path.abspath("h.dat")
    # largest sparse file which the file system takes
    for p in (P["path"], os.path.join(os.environ["VERIF_DISK"], "h%d.dat" % os.getpid())):
        n = 1 << 43
        while n > 1 << 32:
            try:
                with open(p, "wb") as f:
                    f.truncate(n)
                break
            except OSError:
                n >>= 1
        P.setdefault("cands", []).append((n, p))
        os.unlink(p)
    LIMIT[0], P["path"] = max(P["cands"])


def check(o, e, addr, hs, size, where):
    h = o.header
    got = dict(type=h.type, version=h.version, id=h.id, user=bool(h.user), extended=bool(h.extended), sub=bool(h.only_subobjects),
               size=h.content_size, osize=o.size, addr=h.content_address, hs=h.header_size, total=h.total_size)
    exp = dict(type=e["t"], version=e["v"], id=e["idh"] * 65536 + e["idl"], user=bool(e["u"]), extended=bool(e["x"]), sub=bool(e["s"]),
               size=size, osize=size, addr=addr, hs=hs, total=size + hs)
    if got != exp:
        raise Mismatch(f"{where}: header decoded as { {k: got[k] for k in got if got[k] != exp[k]} }, expected { {k: exp[k] for k in got if got[k] != exp[k]} }")


def replay(beh, rng, kinds):
    from eventio import EventIOFile
    r, top, hs = beh["r"], beh["top"], beh["hs"]
    size = (r["hi"] << 30) + r["lo"]
    nxt = (beh["nxt"]["hi"] << 30) + beh["nxt"]["lo"]
    raw = bytes(beh["b"][:16 if r["x"] else 12])
    if top:
        base, head = 0, eio.SYNC
    else:
        # inside of an extended box with exactly this object and its sibling
        inner = nxt + 12 + 4
        if inner >> 42:
            kinds["skipped: no box of this size"] = kinds.get("skipped: no box of this size", 0) + 1
            return 0
        box = eio.header(2010, 0, 5, inner, True, 0, True, True)
        base, head = len(box), box
    sib = eio.header(999, 3, -7, 4, top)
    end = base + nxt + len(sib) + 4
    if end > LIMIT[0]:
        kinds["skipped: file system"] = kinds.get("skipped: file system", 0) + 1
        return 0
    with open(P["path"], "wb") as f:
        f.write(head + raw)
        f.seek(base + nxt)
        f.write(sib + b"sibl")
    kinds["top" if top else "sub"] = kinds.get("top" if top else "sub", 0) + 1
    if size >= 1 << 32:
        kinds[">4GiB"] = kinds.get(">4GiB", 0) + 1
    if size > 0 and r["s"]:
        kinds["only_subobjects"] = kinds.get("only_subobjects", 0) + 1
    with EventIOFile(P["path"]) as f:
        it = f if top else next(f)
        if beh["refused"]:
            kinds["refused"] = kinds.get("refused", 0) + 1
            try:
                o = next(it)
            except ValueError:
                return 1
            raise Mismatch(f"tracking position of a different telescope than its id accepted: {o}")
        o = next(it)
        check(o, r, base + hs, hs, size, "object")
        s = next(it)
        check(s, dict(t=999, v=3, idh=-1, idl=65529, u=0, x=False, s=False), base + nxt + len(sib), len(sib), 4, "sibling")
        if s.read() != b"sibl":
            raise Mismatch("wrong payload of the sibling")
        try:
            extra = next(it)
        except StopIteration:
            pass
        else:
            raise Mismatch(f"an object {extra} behind the last one")
    return 3
