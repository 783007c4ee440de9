"""Replay of EioGate."""
import random
import warnings

import eio
from worker import Mismatch

P = {}
GC_EVERY = 200
KNOWN = (2010, 5999, 1200, 70, 65535)


def setup(params):
    P.update(params)


def replay(beh, rng, kinds):
    marks = beh["mark"]
    rnd = random.Random(repr(marks) + str(P["seed"]))
    data, spans = b"", []
    for m in marks:
        payload = rnd.randbytes(rnd.randrange(0, 40))
        if rnd.random() < 0.3:
            payload += bytes([55, 138, 31, 212]) * 3     # a marker inside of a payload means nothing
        o = bytes(m) + eio.header(rnd.choice(KNOWN[1:2] if rnd.random() < 0.5 else KNOWN), rnd.randrange(4), rnd.randrange(100), len(payload), False)
        spans.append((len(data) + len(o), payload))
        data += o + payload
    if beh["size"] >= 0:
        data = data[:beh["size"]]
    forms = [f for f in eio.FORMS if f in ("plain", "gzpy", "zstd") or rng.random() < 0.08]
    for form in forms:
        if form == "plain" or beh["opened"] != "refused":
            one(beh, data, spans, form, rng, kinds)
        else:
            # inside of a container these bytes are just foreign data
            one(dict(beh, opened="bad"), data, spans, form, rng, kinds)
    return len(forms) * (1 + len(beh["hist"]))


def one(beh, data, spans, form, rng, kinds):
    import eventio
    with open("gate.dat", "wb") as f:
        f.write(eio.pack(data, form, [rng.randrange(1, max(2, len(data))) for _ in range(3)]))
    where = f"{form}: markers {[bytes(m).hex() for m in beh['mark']]}" + (f", only the first {beh['size']} bytes" if beh["size"] >= 0 else "")
    kinds["open:" + beh["opened"]] = kinds.get("open:" + beh["opened"], 0) + 1
    for cls in ("EventIOFile", "IACTFile", "SimTelFile"):
        try:
            f = getattr(eventio, cls)("gate.dat", zcat=eio.zcat_of(form))
        except Exception as e:
            if cls != "EventIOFile":
                want = ValueError if beh["opened"] == "bad" else Exception if beh["opened"] == "refused" or beh["mark"][0] != BE else NotImplementedError
                if not isinstance(e, want):
                    raise Mismatch(f"{where}: {cls} raised {e!r}, expected {want.__name__}", form=form)
                continue
            if beh["opened"] == "yes":
                raise Mismatch(f"{where}: opening raised {e!r}, expected success", form=form)
            if beh["opened"] == "bad" and not isinstance(e, ValueError):
                raise Mismatch(f"{where}: opening raised {e!r}, expected ValueError", form=form)
            continue
        try:
            if cls != "EventIOFile" or beh["opened"] != "yes":
                raise Mismatch(f"{where}: {cls} opened it", form=form)
            use(f, beh, spans, form, where, kinds)
        finally:
            f.close()


BE = [212, 31, 138, 55]


def use(f, beh, spans, form, where, kinds):
    for i, h in enumerate(beh["hist"]):
        kinds[h["op"] + ":" + h["k"]] = kinds.get(h["op"] + ":" + h["k"], 0) + 1
        res = exc = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                res = next(f) if h["op"] == "next" else f.peek()
            except Exception as e:
                exc = e
        w = f"{where}: op {i + 1} {h['op']}"
        k = h["k"]
        if (isinstance(exc, OSError) or h["op"] == "peek" and exc is None and res is None) and eio.forward_only(form) and any(x["k"] in ("bad", "big") for x in beh["hist"][:i]):
            return          # going back to the marker
        if k == "obj":
            if exc is not None or res is None or res.address != spans[h["i"] - 1][0] or res.size != len(spans[h["i"] - 1][1]):
                raise Mismatch(f"{w}: got {exc or res!r}, expected object {h['i']}", form=form)
            if h["op"] == "next" and not eio.forward_only(form) and (i + 1) % 2:
                if res.read() != spans[h["i"] - 1][1]:
                    raise Mismatch(f"{w}: content of object {h['i']} differs", form=form)
        elif k == "none":
            if exc is not None or res is not None:
                raise Mismatch(f"{w}: got {exc or res!r}, expected None", form=form)
        else:
            want = dict(stop=StopIteration, big=NotImplementedError, bad=ValueError)[k]
            if not isinstance(exc, want):
                raise Mismatch(f"{w}: got {exc or res!r}, expected {want.__name__}", form=form)
