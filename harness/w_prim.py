"""Replay of EioPrim: variable length integers and primitive readers."""
import io
import os
import struct

import numpy as np

import eio
from worker import Mismatch

P = {}


def setup(params):
    P.update(params)


def uval(b):
    return int.from_bytes(bytes(b), "big")


def sval(r):
    m = uval(r["mag"])
    return -m - 1 if r["neg"] else m


def limb(x):
    return x[0] * 65536 + x[1]


def same(got, exp, where):
    if isinstance(got, np.ndarray):
        got = got.tolist()
    if type(got) is not type(exp) or got != exp:
        raise Mismatch(f"{where}: got {got!r}, expected {exp!r}")


def expected(h):
    op, r = h["op"], h["r"]
    if op == "uv":
        return uval(r)
    if op == "sv":
        return sval(r)
    if op == "uva":
        return [uval(x) for x in r]
    if op == "sva":
        return [sval(x) for x in r]
    if op in ("short", "ushort"):
        return r
    if op in ("int", "uint"):
        return limb(r)
    if op == "time":
        return (limb(r[0]), limb(r[1]))
    if op == "ints":
        return tuple(limb(x) for x in r)
    return bytes(r)


def replay(beh, rng, kinds):
    from eventio import tools, EventIOFile
    from eventio.var_int import unsigned_varint, varint, unsigned_varint_array, varint_array
    # in a buffer at some offset, with other bytes behind
    data, lead = bytes(beh["s"]), rng.randbytes(rng.randrange(3))
    err = not beh["hist"][-1]["ok"]
    buf = lead + data + (b"" if err else rng.randbytes(rng.randrange(20)))
    bio = io.BytesIO(buf)
    bio.seek(len(lead))
    sources = [("BytesIO", bio, len(lead))]
    fh = None
    if rng.random() < 0.1:
        with open("p.dat", "wb") as f:
            f.write(eio.obj(999, 0, 0, buf, top=True) + eio.obj(998, 0, 0, b"x" * 40, top=True))
        fh = EventIOFile("p.dat")
        o = next(fh)
        o.seek(len(lead))
        sources.append(("object", o, len(lead)))
    n = 0
    for h in beh["hist"]:
        op, r = h["op"], h["r"] if h["ok"] else "error"
        where = f"{op} at {h['lo']} of {data[:40].hex()}"
        kinds[op if r != "error" else op + " cut"] = kinds.get(op if r != "error" else op + " cut", 0) + 1
        off = len(lead) + h["lo"]
        calls = []
        if op in ("uv", "sv"):
            fn = unsigned_varint if op == "uv" else varint
            calls.append(("buffer", lambda: fn(buf, off) if rng.random() < 0.5 else fn(memoryview(buf), offset=off), True))
            if r != "error":
                calls.append(("array", lambda: [x if isinstance(x, int) else int(x[0]) for x in (unsigned_varint_array if op == "uv" else varint_array)(buf, 1, off)], True))
        elif op in ("uva", "sva"):
            fn = unsigned_varint_array if op == "uva" else varint_array
            calls.append(("array", lambda: fn(buf, h["a"], offset=off), True))
        for name, f, base in sources:
            g = {"uv": tools.read_unsigned_varint, "sv": tools.read_varint, "short": tools.read_short, "ushort": tools.read_unsigned_short,
                 "int": tools.read_int, "uint": tools.read_unsigned_int, "float": tools.read_float, "double": tools.read_double,
                 "time": tools.read_time, "string": tools.read_string, "varstring": tools.read_var_string}.get(op)
            if g:
                calls.append((name, lambda f=f, g=g: g(f), False))
            elif op == "ints":
                calls.append((name, lambda f=f: tools.read_ints(f, h["a"]), False))
            elif op == "array":
                calls.append((name, lambda f=f: tools.read_array(f, h["a"][0], h["a"][1]), False))
            elif op in ("uva", "sva"):
                f.seek(off + h["n"])
        for name, call, buffered in calls:
            n += 1
            try:
                res = call()
            except Exception as e:
                if r == "error":
                    continue
                raise Mismatch(f"{name} {where}: raised {type(e).__name__}: {e}")
            if r == "error":
                raise Mismatch(f"{name} {where}: incomplete encoding decoded as {res!r}")
            exp = expected(h)
            if buffered:
                res, length = res
                if length != h["n"]:
                    raise Mismatch(f"{name} {where}: {length} bytes consumed, encoding has {h['n']}")
            if op == "float":
                res = struct.pack("<f", res) if res == res else (exp if np.isnan(np.frombuffer(exp, "<f4")[0]) else b"nan")
            elif op == "double":
                res = struct.pack("<d", res) if res == res else (exp if np.isnan(np.frombuffer(exp, "<f8")[0]) else b"nan")
            elif op == "array":
                if res.dtype != np.dtype(h["a"][0]) or res.shape != (h["a"][1],):
                    raise Mismatch(f"{where}: array {res.dtype} {res.shape}, expected {h['a']}")
                res = res.tobytes()
            same(res, exp, name + " " + where)
        if r != "error":
            for name, f, base in sources:
                if f.tell() != off + h["n"]:
                    raise Mismatch(f"{name} {where}: stream is at {f.tell()}, expected {off + h['n']}")
    if fh:
        fh.close()
    return n
