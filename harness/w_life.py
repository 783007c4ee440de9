"""Replay of Lifecycle: which descriptors and child processes exist after every step."""
import gc
import os
import random
import struct
import time
import warnings

import eio
import w_simtel
import w_iact
from worker import Mismatch

P = w_simtel.P
GC_EVERY = 0
GOOD = {}


def setup(params):
    w_simtel.setup(params)
    rng = random.Random(params["seed"])
    S = lambda k, id=0, x=(): dict(k=k, tel=0, id=id, x=list(x))  # noqa: E731
    ae = dict(trig=7, ids=[1], parts=[["HD", "SS"]], tracks=[1], st=True)
    st = [S("HI", 1), S("RH", 1), S("MR")] + [dict(k=k, tel=1, id=1, x=[]) for k in w_simtel.DESC] + [
        S("MS"), S("ME", 101), S("AE", 1, ae), S("ME", 102), S("AE", 2, ae), S("MS"), S("ME", 201), S("AE", 3, ae), S("HG")]
    for b in st:
        if isinstance(b["x"], list) and b["k"] == "AE":
            b["x"] = ae
    F = w_simtel.File(dict(file=st), rng)
    GOOD["SimTelFile"] = F
    B = lambda k, id=0, x=(): dict(k=k, id=id, x=x if isinstance(x, dict) else list(x))  # noqa: E731
    ia = [B("RH"), B("IC"), B("TD")]
    for n in (1, 2, 3):
        ia += [B("EH", n), B("AO", n, dict(n=1, w=False)), B("TT", 0, [dict(k="PH", tel=1)]), B("EE", n)]
    GOOD["IACTFile"] = GOOD["EventIOFile"] = w_iact.Made(dict(file=ia + [B("RE")]), rng)
    w_simtel.POOL.clear()
    gc.collect()
    gc.freeze()


def content(cls, ct, rng):
    F = GOOD[cls]
    d = F.data
    if ct == "good":
        return d
    if ct == "torn":
        n = F.nodes[-2]
        return d[:n.start + n.hsize + (n.end - n.start - n.hsize) // 2]
    if ct == "foreign":
        return rng.choice([b"", b"\0", b"this is not eventio", rng.randbytes(100)])
    if ct == "bigendian":
        return eio.SYNC_BE + d[4:]
    if ct == "shorthead":
        n = F.nodes[rng.randrange(2)]
        return d[:n.start + rng.randint(4, n.end - n.start - 1)] if n.start == 0 else d[:n.end]
    if ct == "wrongobj":
        return (d[:F.nodes[1].start] + d[F.nodes[4].start:]) if cls != "SimTelFile" else b"".join(n.bytes() for n in F.nodes if n.type != 2000)
    raise KeyError(ct)


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return out


def children():
    """children of this process, zombies included"""
    me, out = os.getpid(), set()
    try:
        with open(f"/proc/self/task/{me}/children") as f:
            return {int(x) for x in f.read().split()}
    except OSError:
        pass
    for n in os.listdir("/proc"):
        if n.isdigit():
            try:
                with open(f"/proc/{n}/stat") as f:
                    s = f.read()
            except OSError:
                continue
            if int(s[s.rindex(")") + 2:].split()[1]) == me:
                out.add(int(n))
    return out


def new_since(before):
    f, c = fds(), children()
    return {(k, v) for k, v in f.items() if before[0].get(k) != v and not v.startswith("/proc/")}, c - before[1]


class Boom(Exception):
    pass


class Slot:
    pass


def ctx_open(cls, path, zcat):
    """a with block which can be left step by step"""
    import eventio
    with getattr(eventio, cls)(path, zcat=zcat) as f:
        x = yield f
        del f
        while x != "leave":
            x = yield
        # (an exception is thrown into the generator)


EXITS = {"": None, "Error": Boom, "EOF": EOFError, "Interrupt": KeyboardInterrupt, "Exit": SystemExit, "GeneratorExit": GeneratorExit}


def replay(beh, rng, kinds):
    hist = beh["hist"]
    import eventio
    gc.collect()
    slots = {}
    base = (fds(), children())
    where = " ".join(f"{h['op']}{h['s']}" + (f"({h['x']['cls']},{h['x']['form']},{h['x']['ct']}{',with' if h['x']['w'] else ''})" if h["op"] == "open" else "") for h in hist)
    made = []
    try:
        for i, h in enumerate(hist):
            op, s, x = h["op"], h["s"], h["x"]
            w = f"{where}: step {i + 1} {op}{s}"
            kinds[op] = kinds.get(op, 0) + 1
            step(op, s, x, i, slots, rng, w, kinds, made, eventio)
            gc.collect()
            # the resources which exist belong to files which are open
            f, c = new_since(base)
            have = {t for t in h["res"]}
            allowed_f = set().union(*[slots[t].fds for t in have]) if have else set()
            allowed_c = set().union(*[slots[t].children for t in have]) if have else set()
            if not f <= allowed_f:
                raise Mismatch(f"{w}: descriptors are left: {sorted(f - allowed_f)}")
            if not c <= allowed_c:
                raise Mismatch(f"{w}: child processes are left: {sorted(c - allowed_c)}")
            # open files still work
            for t in have:
                if t != s and slots[t].n < 50 and rng.random() < 0.3:
                    read(slots[t], f"{w}: the other file {t}", 1)
    finally:
        for sl in slots.values():
            try:
                sl.f.close()
            except Exception:
                pass
        slots.clear()
        for p in made:
            os.unlink(p)
        gc.collect()
    return len(hist)


def attempt(cls, path, zcat):
    import eventio
    try:
        return getattr(eventio, cls)(path, zcat=zcat), None
    except Exception as e:
        return None, repr(e)


def step(op, s, x, i, slots, rng, w, kinds, made, eventio):
    if op == "open":
        if s in slots:
            del slots[s]
            gc.collect()
        path = os.path.abspath(f"life{i}")
        made.append(path)
        packed = eio.pack(content(x["cls"], x["ct"] if x["ct"] != "broken" else "good", rng), x["form"], [17, 100])
        if x["ct"] == "broken":
            packed = rng.choice([packed[:2], packed[:4], packed[:10], packed[:2] + b"\xff" * 20, packed[:4] + rng.randbytes(30)]) if x["form"] != "plain" else b"\x1f\x8b\x08\x00nothing"
        with open(path, "wb") as f:
            f.write(packed)
        kinds[f"{x['cls']} {x['form']} {x['ct']}"] = kinds.get(f"{x['cls']} {x['form']} {x['ct']}", 0) + 1
        before = (fds(), children())
        sl = Slot()
        sl.cls, sl.form, sl.ct, sl.n, sl.it, sl.ended, sl.blk = x["cls"], x["form"], x["ct"], 0, None, False, None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if x["w"] and x["ok"]:
                sl.blk = ctx_open(x["cls"], path, eio.zcat_of(x["form"]))
                with eio.without_gzip(x["form"]):
                    sl.f = next(sl.blk)
                err = None
            else:
                with eio.without_gzip(x["form"]):
                    sl.f, err = attempt(x["cls"], path, eio.zcat_of(x["form"]))
        if (sl.f is not None) != x["ok"]:
            raise Mismatch(f"{w}: {'raised ' + err if err else 'opened'}, expected {'success' if x['ok'] else 'an error'}")
        if sl.f is not None:
            sl.fds, sl.children = new_since(before)
            slots[s] = sl
            if not sl.fds:
                raise Mismatch(f"{w}: an open file without descriptor?")
        return
    sl = slots[s]
    if op in ("read", "exhaust"):
        read(sl, w, 1 if op == "read" else 1000)
    elif op == "close":
        sl.f.close()
        if rng.random() < 0.3:
            sl.f.close()
        sl.it = None
    elif op == "leave":
        f = sl.f
        sl.it = None
        try:
            exc = EXITS[x["exc"]]
            if exc:
                sl.blk.throw(exc())
            else:
                sl.blk.send("leave")
        except StopIteration:
            if exc:
                raise Mismatch(f"{w}: the with block swallowed the exception")
        except BaseException as e:
            if type(e) is not exc:
                raise
        sl.blk = None
        del f
    elif op == "drop":
        del slots[s]


def read(sl, w, n):
    """events (objects) up to the end; after a torn end reading raises or ends"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if sl.it is None:
            sl.it = iter(sl.f)
        for _ in range(n):
            if sl.ended:
                return
            try:
                x = next(sl.it)
            except StopIteration:
                sl.ended = True
                total = len(GOOD["IACTFile"].nodes) if sl.cls == "EventIOFile" else 3
                if sl.ct == "good" and sl.n < total:
                    raise Mismatch(f"{w}: ended after {sl.n} of {total}")
                return
            except Exception as e:
                sl.ended = True
                if sl.ct == "good":
                    raise Mismatch(f"{w}: reading raised {e!r} after {sl.n}")
                return
            sl.n += 1
            if sl.ct != "good":
                continue
            if sl.cls == "EventIOFile":
                node = GOOD["EventIOFile"].nodes[sl.n - 1]
                ok = (x.header.type, x.header.id) == (node.type, node.id) and x.address == node.start + node.hsize
                if ok and sl.n % 2:
                    p = node.payload if node.kids is None else b"".join(k.bytes(False) for k in node.kids)
                    ok = x.read() == p[{1201: 4, 1205: 12}.get(node.type, 0):]   # (read on construction)
            elif sl.cls == "SimTelFile":
                ok = x["event_id"] == 7 and same(x["mc_event"], [n for n in GOOD["SimTelFile"].nodes if n.type == 2021][sl.n - 1])
            else:
                ok = same(x.header, [n for n in GOOD["IACTFile"].nodes if n.type == 1202][sl.n - 1])
            if not ok:
                raise Mismatch(f"{w}: number {sl.n} is {x!r:.300}")


def same(got, node):
    return w_simtel.same(got, PARSED.setdefault(id(node), w_simtel.parsed(node)))


PARSED = {}
