"""Replay of EioCore behaviours."""
import hashlib
import os
import random
import warnings

import eio
from worker import Mismatch

GC_EVERY = 0
P = {}
_cache = {}


PAL = []


def setup(params):
    P.update(params)
    if P.get("palette"):
        import pickle
        with open(P["palette"], "rb") as f:
            PAL.extend(pickle.load(f))
    P.setdefault("forms", ["plain"])


def build(nodes, size, seed):
    """bytes of the complete file described by the object table"""
    rng = random.Random(hashlib.sha256(repr((nodes, seed)).encode()).digest())
    data = bytearray(rng.randbytes(size))
    for n in nodes:
        h = eio.header(n["t"], n["v"], n["id"], n["size"], n["lvl"] == 0, n["u"], n["x"], n["s"])
        assert len(h) == n["hsize"]
        data[n["start"]:n["addr"]] = h
        if n["p"]["i"]:
            payload = PAL[n["p"]["i"] - 1]["payload"]
            assert len(payload) == n["size"]
            data[n["addr"]:n["addr"] + n["size"]] = payload
        elif n["t"] == 1201:
            data[n["addr"]:n["addr"] + n["size"]] = bytes(n["size"])
    return bytes(data)


def scramble(x):
    """changes a result in place, as far as possible"""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x.view(x.dtype)[...] = np.frombuffer(b"\x5a" * x.dtype.itemsize, x.dtype)[0] if not x.dtype.hasobject else None
    elif isinstance(x, bytearray):
        x[:] = b"changed"
    elif isinstance(x, dict):
        for v in list(x.values()):
            scramble(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scramble(v)


def stored(beh, form, nfiles=64):
    """-> (path, bytes) of the file of this behaviour in storage `form`, written on first use"""
    key = (repr(beh["file"]), beh["cut"], form)
    if key not in _cache:
        if len(_cache) > nfiles:
            for p, _ in _cache.values():
                os.unlink(p)
            _cache.clear()
        data = build(beh["file"], beh["size"], P["seed"])[:beh["cut"]]
        rng = random.Random(len(data) * 7919 + P["seed"])
        cuts = [rng.randrange(1, max(2, len(data))) for _ in range(rng.randint(1, 6))]
        path = eio.any_name(rng, len(_cache))
        with open(path, "wb") as f:
            f.write(eio.pack(data, form, cuts))
        _cache[key] = (path, data)
    return _cache[key]


def shown(o):
    h = o.header
    return dict(c=type(o).__name__, t=h.type, v=h.version, id=h.id, u=int(h.user), x=bool(h.extended),
                s=bool(h.only_subobjects), addr=h.content_address, size=h.content_size, hs=h.header_size)


def check_obj(o, exp, where):
    got = shown(o)
    if exp["c"] == "any":
        got["c"] = "any"
    exp = {k: v for k, v in exp.items() if k != "n"}
    if got != exp or o.size != exp["size"] or o.header.total_size != exp["size"] + exp["hs"]:
        raise Mismatch(f"{where}: got object {got}, expected {exp}")


def compare_content(res, obj, i, where, chunk=None):
    import w_layout
    p = PAL[i - 1]
    for e in p["beh"]["exp"]:
        if chunk is None:
            w_layout.compare(res, obj, e, p["tok"], where)
        elif e["k"].startswith(f"{chunk - 1}/"):
            w_layout.compare({chunk - 1: res}, obj, e, p["tok"], where)


def forms_for(beh, rng):
    forms = list(P["forms"])
    pick = P.get("sample")       # {form: probability}
    if pick:
        forms = [f for f in forms if rng.random() < pick.get(f, 1.0)]
    return forms


def replay(beh, rng, kinds):
    n = 0
    if P.get("torn"):
        for form in forms_for(beh, rng):
            kinds["torn " + form] = kinds.get("torn " + form, 0) + 1
            n += replay_form(beh, rng, form, kinds, torn=True)
        return n
    for form in forms_for(beh, rng):
        kinds[form] = kinds.get(form, 0) + 1
        n += replay_form(beh, rng, form, kinds)
    return n


def replay_form(beh, rng, form, kinds, torn=False):
    """torn: the compressed file is cut; every operation gives the result for the complete file,
    or fails with EOFError, or (next) ends, or (peek) gives None; then the comparison ends."""
    from eventio import EventIOFile
    path, data = stored(beh, form)
    if torn:
        with open(path, "rb") as f:
            packed = f.read()
        path = os.path.abspath("torn")
        damage = form.startswith("gz") and rng.random() < 0.3   # the check sum at the end is wrong instead
        n = rng.randrange(len(packed)) if rng.random() < 0.5 else rng.randrange(max(0, len(packed) - 30), len(packed))
        with open(path, "wb") as f:
            f.write(packed[:-8] + bytes(x ^ 0x55 for x in packed[-8:-4]) + packed[-4:] if damage else packed[:n])
        try:
            with eio.without_gzip(form):
                EventIOFile(path, zcat=eio.zcat_of(form)).close()
        except (ValueError, EOFError, OSError):
            kinds["torn: refused"] = kinds.get("torn: refused", 0) + 1
            return 0
    fwd = eio.forward_only(form)
    with eio.without_gzip(form):
        f = EventIOFile(path, zcat=eio.zcat_of(form))
    try:
        objs, its, last_peek = [], {}, None
        gens, parsed, node = {}, [], []
        for i, h in enumerate(beh["hist"]):
            op, a, r = h["op"], h["a"], h["r"]
            k = r["k"]
            where = f"{form}: op {i + 1} {op}{a} on {h['o'] or 'file'}"
            kinds[op + ":" + k] = kinds.get(op + ":" + k, 0) + 1
            try:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    if op == "next":
                        res = next(f)
                    elif op == "peek":
                        res = f.peek()
                    elif op == "fread":
                        res = f.read() if a[0] == -1 and rng.random() < 0.5 else f.read(a[0])
                    elif op == "fseek":
                        res = f.seek(a[0]) if a[1] == 0 and rng.random() < 0.5 else f.seek(a[0], a[1])
                    elif op == "ftell":
                        res = f.tell()
                    else:
                        o = objs[h["o"] - 1]
                        if op == "read":
                            res = o.read() if a[0] == -1 and rng.random() < 0.5 else o.read(a[0])
                        elif op == "seek":
                            res = o.seek(a[0]) if a[1] == 0 and rng.random() < 0.5 else o.seek(a[0], a[1])
                        elif op == "tell":
                            res = o.tell()
                        elif op == "sub":
                            key = h["o"]
                            if key not in its:
                                its[key] = o if rng.random() < 0.5 else iter(o)
                            res = next(its[key])
                        elif op == "parse":
                            res = o.parse()
                        elif op == "chunk":
                            if a[0] == 1:
                                gens[h["o"]] = o.parse(chunksize=PAL[beh["file"][node[h["o"] - 1] - 1]["p"]["i"] - 1]["beh"]["case"]["chunk"])
                            res = next(gens[h["o"]])
                exc = None
            except StopIteration as e:
                exc, res = e, None
            except Exception as e:
                exc, res = e, None
            if op == "peek" and isinstance(exc, (EOFError, OSError)):
                raise Mismatch(f"{where}: raised {exc!r}, expected a warning", form=form)
            if op == "peek" and exc is None and res is None and w and k != "warn" and (torn or (fwd and h["bw"])):
                # what went wrong is raised by next
                try:
                    res = next(f)
                    exc = None
                except Exception as e:
                    exc = e
                if not isinstance(exc, OSError if not torn or damage else (EOFError, OSError)):
                    raise Mismatch(f"{where}: peek warned {w[0].message}, but next gives {exc!r} {res}", form=form)
                kinds["error kept by peek"] = kinds.get("error kept by peek", 0) + 1
                return i
            if torn and k not in ("refused", "err") and (isinstance(exc, (EOFError, OSError)) or (op == "next" and isinstance(exc, StopIteration))
                                                          or (op == "peek" and exc is None and res is None)):
                kinds["torn: ended"] = kinds.get("torn: ended", 0) + 1
                return i
            if fwd and h["bw"] and (isinstance(exc, OSError) or (op == "peek" and exc is None and res is None and w)):
                kinds["backward refused"] = kinds.get("backward refused", 0) + 1
                return i
            if k in ("obj", "bytes", "pos", "none", "warn", "parsed", "chunk") and exc is not None:
                raise Mismatch(f"{where}: raised {type(exc).__name__}: {exc}, expected {r}", form=form)
            if op == "peek" and k in ("obj", "none") and beh["cut"] == beh["size"] and any(issubclass(x.category, UserWarning) for x in w):
                raise Mismatch(f"{where}: the file is complete, but peek warned {w[0].message}", form=form)
            if k == "obj":
                check_obj(res, r["v"], where)
                if op == "peek":
                    if last_peek is not None and last_peek is not res:
                        raise Mismatch(f"{where}: repeated peek returned a different object", form=form)
                    last_peek = res
                elif op == "next":
                    if last_peek is not None and last_peek is not res:
                        raise Mismatch(f"{where}: next did not return the peeked object", form=form)
                    last_peek = None
                    objs.append(res)
                    node.append(r["v"]["n"])
                else:
                    objs.append(res)
                    node.append(r["v"]["n"])
            elif k in ("parsed", "chunk"):
                compare_content(res, o, r["i"], where, r.get("j"))
                if rng.random() < 0.3:
                    # what is done to a result concerns nobody else
                    kinds["result changed"] = kinds.get("result changed", 0) + 1
                    scramble(res)
                else:
                    parsed.append((res, o, r["i"], r.get("j"), where))
            elif k == "unparsable":
                if not isinstance(exc, (ValueError, NotImplementedError)):
                    raise Mismatch(f"{where}: got {exc!r} {res!r}, expected a refusal", form=form)
            elif k == "bytes":
                if bytes(res) != data[r["lo"]:r["hi"]]:
                    raise Mismatch(f"{where}: read {bytes(res)!r}, expected bytes {r['lo']}..{r['hi']} = {data[r['lo']:r['hi']]!r}", form=form)
            elif k == "pos":
                if res != r["p"]:
                    raise Mismatch(f"{where}: position {res}, expected {r['p']}", form=form)
            elif k in ("none", "warn"):
                if res is not None:
                    raise Mismatch(f"{where}: got {res}, expected None", form=form)
                if k == "warn" and not w:
                    raise Mismatch(f"{where}: no warning", form=form)
            elif k == "stop":
                if not isinstance(exc, StopIteration):
                    raise Mismatch(f"{where}: got {exc!r} {res}, expected the end of the iteration", form=form)
            elif k == "eof":
                if not isinstance(exc, EOFError):
                    raise Mismatch(f"{where}: got {exc!r} {res!r}, expected EOFError", form=form)
            elif k == "refused":
                if not isinstance(exc, ValueError):
                    raise Mismatch(f"{where}: got {exc!r} {res}, expected ValueError", form=form)
            elif k == "err":
                if exc is None or isinstance(exc, StopIteration):
                    raise Mismatch(f"{where}: got {res!r}, expected an error", form=form)
            else:
                raise AssertionError(k)
        # results already returned have not changed
        for res, o, i, j, where in parsed:
            compare_content(res, o, i, where + ", looked at again at the end", j)
        return len(beh["hist"])
    finally:
        f.close()
