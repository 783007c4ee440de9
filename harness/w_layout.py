"""Replay of Layout: stores a payload, parses it with the real code and compares key by key."""
import math
import struct

import numpy as np

import eio
from worker import Mismatch

P = {}
PACK = dict(i1="<b", u1="<B", i2="<h", u2="<H", i4="<i", u4="<I", f2="<e", f4="<f", f8="<d")
BITS = dict(i1=8, u1=8, i2=16, u2=16, i4=32, u4=32)
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ _-%#=+\t0123456789"


def setup(params):
    P.update(params)


# ------------------------------------------------------------------ values of tokens
def number(e, rng):
    if e in BITS:
        n = BITS[e]
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if e[0] == "i" else (0, (1 << n) - 1)
        v = rng.choice([0, 1, lo, hi, hi - 1, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(0, min(hi, 300))])
        return 9998 if v == 9999 else v
    if e in ("f2", "f4", "f8"):
        dt = np.dtype("<" + e)
        r = rng.random()
        if r < 0.2:
            v = rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 100.0, -2.5])
        elif r < 0.23:
            v = rng.choice([math.inf, -math.inf, math.nan])
        elif r < 0.7:
            v = rng.uniform(-1000, 1000)
        else:
            m = {"f2": 4, "f4": 37, "f8": 300}[e]
            v = rng.uniform(-1, 1) * 10.0 ** rng.uniform(-m, m)
        with np.errstate(all="ignore"):
            v = float(np.array(v).astype(dt))
        return 9998.0 if v == 9999 else v
    if e in ("sv", "sv4", "diff", "diff16"):
        n = rng.choice([6, 7, 13, 14, 20, 27, 31] + ([34, 41, 55, 62] if e == "sv" else []))
        top = (1 << n) - 1
        if e == "diff16":
            return rng.choice([0, 1, 65535, rng.randint(0, 65535), rng.randint(0, 300), rng.randint(0, 300)])
        v = rng.choice([0, 1, top, rng.randint(0, top), rng.randint(0, top)])
        if e == "diff":
            return v
        return rng.choice([v, v, -v, -v - 1])
    raise ValueError(e)


def text(rng, n=None, utf8=False):
    n = n if n is not None else rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 63, 64, 127, 128, 129, 300])
    if rng.random() < 0.02:
        n = rng.choice([255, 256, 8191, 8192, 16383, 16384, 32767])
    if utf8:
        s = "".join(rng.choice(LETTERS + "äßéλ€😀") for _ in range(min(n, 40)))
        return s.encode()
    if rng.random() < 0.2:
        return rng.randbytes(n)
    return "".join(rng.choice(LETTERS) for _ in range(n)).encode()


def concretise(beh, rng, fix=None):
    """-> payload bytes, {token: value}; fix: {token: value} for numbers which are given"""
    fix = fix or {}
    out, tok = [], {}
    seen = set()
    for r in beh["stored"]:
        e, lit = r["e"], r["lit"]
        if r["from"] == 0:
            for v in lit:
                if e == "sv":
                    out.append(eio.svar(v))
                elif e == "uv":
                    out.append(eio.uvar(v))
                elif e == "chr":
                    out.append(v.encode())
                else:
                    out.append(struct.pack(PACK[e], v))
            continue
        last = 0
        for t in range(r["from"], r["from"] + r["n"]):
            if e == "time":
                v = (number("i4", rng), number("i4", rng))
                out.append(struct.pack("<ii", *v))
            elif e == "bool":
                v = rng.randrange(2)
                out.append(bytes([v]))
            elif e == "name4":
                v = rng.choice([b"RUNH", b"EVTH", b"EVTE", b"RUNE"])
                out.append(v)
            elif e == "str":
                v = text(rng)
                out.append(struct.pack("<h", len(v)) + v)
            elif e == "strpad":
                v = text(rng, utf8=True)
                out.append(struct.pack("<h", len(v)) + v + (b"\0" if len(v) % 2 == 0 else b""))
            elif e in ("vstr", "vkey"):
                v = text(rng)
                while e == "vkey" and v in seen:
                    v = text(rng) + str(t).encode()
                seen.add(v)
                out.append(eio.uvar(len(v)) + v)
            elif e in ("diff", "diff16"):
                v = number(e, rng)
                out.append(eio.svar(v - last))
                last = v
            else:
                v = fix[t] if t in fix else number(e, rng)
                out.append(eio.svar(v) if e in ("sv", "sv4") else struct.pack(PACK[e], v))
            tok[t] = v
    return b"".join(out), tok


# ------------------------------------------------------------------ expected values
MISSING = object()


def conv(x, v, env):
    """-> value, relative tolerance"""
    if x == "":
        return v, 0
    if x == "utf8":
        return v.decode(), 0
    with np.errstate(all="ignore"):
        if x == "granularity":
            return float(np.float32(env["granularity"]) * np.float32(v)), 1e-6
    if x == "tenth":
        return v * 0.1, 1e-6
    if x == "hundredth":
        return v * 0.01, 1e-6
    if x == "cosine":
        return min(1.0, max(-1.0, v / 30000)), 1e-6
    if x == "height":
        return 10.0 ** (v * 0.001), 5e-5
    raise ValueError(x)


def equal(a, b, rtol):
    if isinstance(b, (bytes, str, tuple)):
        return (bytes(a) if isinstance(a, (bytearray, np.bytes_)) else a) == b
    if isinstance(a, (bytes, str, type(None), list, dict)):
        return False
    a, b = float(a) if not isinstance(a, (int, np.integer)) else int(a), b
    if isinstance(b, float) and math.isnan(b):
        return a != a
    if a == b:
        return True
    if rtol:
        if math.isinf(b) and math.isinf(a):
            return a == b
        return abs(a - b) <= rtol * max(abs(b), 1e-37) or (abs(a) < 2e-38 and abs(b) < 2e-38)
    return False


def find(res, obj, path):
    if path == "":
        return res
    for comp in path.split("/"):
        if comp.startswith("@"):
            res = getattr(obj, comp[1:])
            continue
        try:
            if comp.lstrip("-").isdigit():
                res = res[int(comp)]
            else:
                res = res[comp]
        except (KeyError, IndexError, ValueError):
            return MISSING
    return res


def flat(x):
    if isinstance(x, np.ndarray):
        return x.reshape(-1).tolist() if x.dtype.kind in "biufcSU" else list(x.reshape(-1))
    return x


def compare(res, obj, e, tok, where):
    got = find(res, obj, e["k"])
    what = e["what"]
    k = e["k"] or "the result"
    if what == "absent":
        if got is not MISSING:
            raise Mismatch(f"{where}: there should be no {k}, got {got!r:.200}")
        return
    if got is MISSING:
        raise Mismatch(f"{where}: {k} is missing")
    if what == "none":
        if got is not None:
            raise Mismatch(f"{where}: {k} should be None, got {got!r:.200}")
        return
    if what == "len":
        if len(got) != e["sh"][0]:
            raise Mismatch(f"{where}: {k} has {len(got)} entries, expected {e['sh'][0]}")
        return
    if what == "pairs":
        exp = [(tok[a], tok[b]) for a, b in zip(e["v"], e["sh"])]
        g = [(bytes(a), bytes(b)) for a, b in got.items()]
        if g != exp:
            raise Mismatch(f"{where}: {k}: got {g!r:.300}, expected {exp!r:.300}")
        return
    env = tok["env"]
    if e["x"] == "lines":
        exp = b"".join(tok[t] + b"\n" for t in e["v"])
        if bytes(got) != exp:
            raise Mismatch(f"{where}: {k}: got {bytes(got)!r:.300}, expected {exp!r:.300}")
        return
    rtol = 0
    if what == "run":
        what, e = "arr", dict(e, v=range(e["v"][0], e["v"][0] + e["v"][1]))
    if what == "arr":
        exp = []
        for t in e["v"]:
            if t == 0:
                exp.append(0)
            elif t < 0:
                exp.append(math.nan)
            else:
                v, rtol = conv(e["x"], tok[t], env)
                exp.append(v)
        sh = tuple(e["sh"])
        if sh == ():
            exp = exp[0]
    elif what == "lit":
        exp, sh = e["lit"], tuple(e["sh"])
        if sh == ():
            exp = exp[0]
    else:
        exp = e["lit"]
        sh = (len(exp),) if isinstance(exp, list) else ()
    if sh == ():
        if isinstance(exp, tuple):
            got = tuple(got)
        elif isinstance(got, np.ndarray) and got.shape == ():
            got = got[()]
        if isinstance(got, np.ndarray) or not equal(got, exp, rtol):
            raise Mismatch(f"{where}: {k}: got {got!r:.200}, expected {exp!r:.200}")
        return
    try:
        arr = np.asarray(got)
    except ValueError:
        raise Mismatch(f"{where}: {k}: got {got!r:.200}, expected an array of shape {sh}")
    if arr.shape != sh:
        raise Mismatch(f"{where}: {k}: got shape {arr.shape}, expected {sh}")
    for i, (a, b) in enumerate(zip(flat(arr), exp)):
        if not equal(a, b, rtol):
            raise Mismatch(f"{where}: {k}[{i}] is {a!r}, expected {b!r} (shape {sh})")


# ------------------------------------------------------------------ the replay
def run_parse(obj, case):
    if case.get("chunk"):
        return [tuple(x) for x in obj.parse(chunksize=case["chunk"])]
    return obj.parse()


def mess(obj, rng):
    """operations in front of parse"""
    for _ in range(rng.randrange(3)):
        r = rng.random()
        try:
            if r < 0.4:
                obj.read(rng.choice([1, 3, 8, -1]))
            elif r < 0.7:
                obj.seek(rng.choice([0, 1, 5, 11]))
            elif r < 0.8:
                obj.seek(0, 2)
            else:
                obj.tell()
        except EOFError:
            pass


def build(beh, payload, rng):
    """-> file content, number of containers around the object, start of the payload in the file"""
    t, v, i = beh["t"], beh["ver"], beh["id"]
    ext = rng.random() < 0.15
    user = rng.randrange(2)
    before = eio.obj(9999, 0, 3, rng.randbytes(rng.randrange(30)), top=True) if rng.random() < 0.4 else b""
    after = eio.obj(9998, 0, 4, rng.randbytes(40), top=True) if rng.random() < 0.7 else b""
    depth = rng.choice([0, 0, 1, 2])
    o = eio.obj(t, v, i, payload, top=depth == 0, user=user, ext=ext)
    for d in range(depth):
        inside = o
        if rng.random() < 0.4:
            inside = eio.obj(9997, 0, 1, rng.randbytes(rng.randrange(20))) + inside
        if rng.random() < 0.4:
            inside = inside + eio.obj(9996, 0, 1, rng.randbytes(rng.randrange(20)))
        o = eio.obj(2010 if d == 0 else 9995, 0, 7, inside, top=d == depth - 1, sub=True)
    data = before + o + after
    return data, depth


def locate(f, t, depth):
    it = f
    for d in range(depth + 1):
        for o in it:
            if o.header.type == t and d == depth:
                return o
            if o.header.only_subobjects and d < depth:
                it = o
                break
        else:
            raise Mismatch(f"object of type {t} not found at level {depth}")
    raise AssertionError


def replay(beh, rng, kinds):
    from eventio import EventIOFile
    sample = P.get("sample", 1)
    if sample < 1 and rng.random() > sample:
        return 0
    payload, tok = concretise(beh, rng)
    tok["env"] = {}
    for e in beh["exp"]:
        if e["k"] == "granularity":
            tok["env"]["granularity"] = tok[e["v"][0]]
    data, depth = build(beh, payload, rng)
    t, case = beh["t"], beh["case"]
    where = f"type {t} version {beh['ver']} id {beh['id']} ({', '.join(f'{k}={v}' for k, v in case.items() if k not in ('t', 'ver', 'id'))[:200]})"
    kinds[f"{t} v{beh['ver']}"] = kinds.get(f"{t} v{beh['ver']}", 0) + 1
    if P.get("cut"):
        return replay_cut(beh, data, depth, payload, tok, rng, where)
    form = "plain" if rng.random() < 0.9 else rng.choice(["gzpy", "zstd", "zstdmulti", "gzproc"] if rng.random() < 0.2 else ["gzpy", "zstd"])
    with open("p.dat", "wb") as fh:
        fh.write(eio.pack(data, form, [len(data) // 2]))
    f = EventIOFile("p.dat", zcat=eio.zcat_of(form))
    try:
        o = locate(f, t, depth)
        fwd = eio.forward_only(form)
        if not fwd:
            mess(o, rng)
        if beh["refuse"]:
            for _ in range(2):
                try:
                    r = run_parse(o, case)
                except Exception as e:
                    if beh["refuse"] not in [c.__name__ for c in type(e).__mro__]:
                        raise Mismatch(f"{where}: should be refused with {beh['refuse']}, got {type(e).__name__}: {e}")
                else:
                    raise Mismatch(f"{where}: should be refused with {beh['refuse']}, but parse returned {r!r:.300}")
                if fwd:
                    break
            return 2
        res = run_parse(o, case)
        for e in beh["exp"]:
            compare(res, o, e, tok, where)
        if not fwd and rng.random() < 0.5:
            mess(o, rng)
            res2 = run_parse(o, case)
            for e in beh["exp"]:
                compare(res2, o, e, tok, where + ", parsed again")
                compare(res, o, e, tok, where + ", first result after parsing again")
        return len(beh["exp"])
    finally:
        f.close()


def replay_cut(beh, data, depth, payload, tok, rng, where):
    """the file ends inside the payload: all or nothing"""
    from eventio import EventIOFile
    if not payload or beh["refuse"]:
        return 0
    n = 0
    for _ in range(3):
        p = data.index(payload) if len(payload) > 3 else None
        if p is None:
            return n
        lost = rng.choice([1, 1, 2, 4, rng.randint(1, len(payload)), rng.randint(1, len(payload)), rng.randint(1, len(payload))])
        cut = p + max(0, len(payload) - lost)
        with open("p.dat", "wb") as fh:
            fh.write(data[:cut])
        f = EventIOFile("p.dat")
        try:
            try:
                o = locate(f, beh["t"], depth)
                if beh["case"].get("chunk"):
                    it = iter(o.parse(chunksize=beh["case"]["chunk"]))
                    got = []
                    for x in it:
                        got.append(x)
                    res = got
                else:
                    res = o.parse()
            except EOFError:
                n += 1
                continue
            for e in beh["exp"]:
                compare(res, o, e, tok, where + f", file cut {len(payload) - (cut - p)} bytes before the end of the object")
            n += 1
        finally:
            f.close()
    return n
