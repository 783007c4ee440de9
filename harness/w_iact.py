"""Replay of Iact: builds the file block by block and performs the operations on an IACTFile."""
import json
import struct
import warnings

import eio
import w_layout  # noqa: F401
import w_simtel
from w_simtel import Content, Node, File, need, same
from worker import Mismatch

P = w_simtel.P
TRACES = w_simtel.TRACES
GC_EVERY = 0
TYPES = dict(RH=1200, IC=1212, AP=1216, TD=1201, EH=1202, AO=1203, LO=1211, PT=1205, TT=1204, TH=1213, PH=1205, TE=1214, EE=1209, RE=1210)
KINDS = {v: k for k, v in TYPES.items() if k not in ("PT", "PH")}


def setup(params):
    w_simtel.setup(params)


def photons_node(c, arr, tel):
    lay, p = c.pick("1205")
    return Node(1205, lay["ver"], arr * 1000 + tel, struct.pack("<hh", arr, tel) + p[4:])


def block(c, b, rng):
    k, x = b["k"], b["x"]
    if k == "TT":
        kids = []
        for e in x:
            if e["k"] == "PH":
                kids.append(photons_node(c, b["id"], e["tel"]))
            elif e["k"] == "PE":
                lay, p = c.pick("1208")
                kids.append(Node(1208, lay["ver"], b["id"] * 1000 + e["tel"], p))
            else:
                kids.append(Node(rng.choice([1206, 1207, 9999, 1211]), 0, 3, rng.randbytes(rng.randrange(12))))
        return Node(1204, 0, b["id"], kids=kids)
    if k == "PH":
        return photons_node(c, b["id"], x[0]["tel"])
    if k == "PT":
        lay, p = c.pick("1205part")
        return Node(1205, lay["ver"], 999999, p)
    if k in ("TH", "TE"):
        return Node(TYPES[k], 0, b["id"], struct.pack("<i", b["id"]) if rng.random() < 0.7 else b"")
    if k == "XX":
        return Node(rng.choice([9999, 1206, 1207, 2001, 2021, 70, 60000]), 0, 7, rng.randbytes(rng.randrange(20)))
    if k == "AO":
        lay, p = c.pick("1203", lambda l: l["case"]["n"] == x["n"] and l["ver"] == int(x["w"]))
        if x["n"] > 1 and rng.random() < 0.4:
            # several uses at the same place (and with the same weight)
            rows = list(zip(*[[p[8 + 4 * (c * x["n"] + i):][:4] for i in range(x["n"])] for c in range(3 if x["w"] else 2)]))
            for i in range(x["n"]):
                if rng.random() < 0.6:
                    rows[i] = rng.choice(rows)
            p = p[:8] + b"".join(b"".join(c) for c in zip(*rows))
        return Node(1203, lay["ver"], b["id"], p)
    if k in ("EH", "RH"):
        lay, p = c.pick(str(TYPES[k]), lambda l: l["case"].get("n") == 273)
    else:
        lay, p = c.pick(str(TYPES[k]))
    return Node(TYPES[k], lay["ver"], b["id"], p)


class Made(File):
    def __init__(self, beh, rng):
        c = Content(rng)
        self.nodes = [block(c, b, rng) for b in beh["file"]]
        self.data = b""
        for n in self.nodes:
            x = n.bytes()
            n.start, n.hsize, n.end = len(self.data), 16, len(self.data) + len(x)
            self.data += x


_ref = {}


def low(node, version=None):
    """(result of parse, object) of the object on its own"""
    from eventio import EventIOFile
    key = (node.type, node.ver, node.id, node.payload, version)
    if key not in _ref:
        if len(_ref) > 5000:
            _ref.clear()
        with open("ref.dat", "wb") as f:
            f.write(node.bytes(True))
        with EventIOFile("ref.dat") as f:
            o = next(f)
            _ref[key] = (o.parse() if version is None else o.parse(version), o)
    return _ref[key]


def check_event(F, ev, e, where):
    def n(r):
        return F.node(r)
    hdr = low(n(e["header"]))[0]
    toff, offs = low(n(e["off"]))[0]
    i = e["r"] - 1

    def eq(got, exp, what):
        if not same(got, exp):
            raise Mismatch(f"{where}: {what} is not that of its blocks: got {got!r:.300}, expected {exp!r:.300}")
    eq(ev.header, hdr, "header")
    eq(ev.event_number, hdr["event_number"], "event_number")
    eq(ev.end, low(n(e["end"]), hdr["version"])[0], "end")
    eq(ev.time_offset, toff, "time_offset")
    need(ev.reuse == e["r"], where, "reuse", ev.reuse, e["r"])
    eq(ev.impact_x, -offs["x"][i], "impact_x")
    eq(ev.impact_y, -offs["y"][i], "impact_y")
    eq(ev.reuse_weight, offs["weight"][i] if e["w"] else 1.0, "reuse_weight")
    for attr, key in (("longitudinal", "lo"), ("particles", "pt")):
        if e[key]:
            eq(getattr(ev, attr), low(n(e[key]))[0], attr)
        else:
            need(getattr(ev, attr) is None, where, attr, getattr(ev, attr), None)
    tels = {m["k"]: m["r"] for m in e["ph"]}
    for attr in ("photon_bunches", "emitter", "n_photons", "n_bunches"):
        d = getattr(ev, attr)
        need(set(d) == set(tels), where, f"telescopes in {attr}", sorted(d), sorted(tels))
        for t, r in tels.items():
            (ph, em), o = low(n(r))
            exp = dict(photon_bunches=ph, emitter=em, n_photons=o.n_photons, n_bunches=o.n_bunches)[attr]
            eq(d[t], exp, f"{attr}[{t}]")


def check_head(F, f, first, where):
    def eq(got, exp, what):
        if not same(got, exp):
            raise Mismatch(f"{where}: {what}: got {got!r:.300}, expected {exp!r:.300}")
    eq(f.header, low(F.nodes[0])[0], "header")
    eq(f.input_card, low(F.nodes[1])[0], "input_card")
    if first == 4:
        eq(f.atmospheric_profile, low(F.nodes[2])[0], "atmospheric_profile")
    else:
        need(f.atmospheric_profile is None, where, "atmospheric_profile", f.atmospheric_profile, None)
    td, o = low(F.nodes[first - 1])
    eq(f.telescope_positions, td, "telescope_positions")
    need(f.n_telescopes == o.n_telescopes, where, "n_telescopes", f.n_telescopes, o.n_telescopes)


def load(no):
    import scan
    t = TRACES[no - 1]
    F = w_simtel.real(no)
    return F, t


def replay(beh, rng, kinds):
    if rng.random() > P.get("sample", 1):
        return 0
    if P.get("traces"):
        F, t = load(beh["no"])
        beh = dict(beh, file=t["file"])
        name = t["path"]
    else:
        F = Made(beh, rng)
        name = " ".join(b["k"] for b in beh["file"])
    cut = beh["cut"]
    data = F.data
    if cut["at"]:
        n = F.nodes[cut["at"] - 1]
        how = cut["how"]
        size = n.end - n.start - n.hsize
        if how == "payload" and size == 0:
            how = "between"
        pos = n.start + (rng.randint(1, n.hsize - 1) if how == "header" else 0 if how == "between" else n.hsize + rng.choice([0, size - 1, rng.randrange(size)]))
        data = data[:pos]
        if len(data) < 4:
            return 0
        name += f" cut at block {cut['at']} ({how}, byte {pos - n.start} of {n.end - n.start})"
        kinds[f"cut {how}"] = kinds.get(f"cut {how}", 0) + 1
    form = w_simtel.forms(rng)
    kinds["form " + form] = kinds.get("form " + form, 0) + 1
    with open("ia.dat", "wb") as fh:
        fh.write(eio.pack(data, form, [rng.randrange(1, max(2, len(data))) for _ in range(3)]))
    return use(F, beh, form, f"{form}: {name}{' damaged ' + str(beh['mut']) if beh['mut'] else ''}", rng, kinds)


def refusal():
    from eventio.exceptions import WrongType
    return (WrongType, ValueError)


def use(F, beh, form, where, rng, kinds):
    from eventio import IACTFile
    path = "ia.dat"
    want = beh["openfail"]
    try:
        f = IACTFile(path, zcat=eio.zcat_of(form))
    except Exception as e:
        kinds["open:" + (want or "?")] = kinds.get("open:" + (want or "?"), 0) + 1
        if beh["opened"] or not isinstance(e, EOFError if want == "eof" else refusal()):
            raise Mismatch(f"{where}: opening raised {e!r}, expected {want or 'success'}")
        return 1
    fwd = eio.forward_only(form)
    try:
        if not beh["opened"]:
            raise Mismatch(f"{where}: could be opened, expected {want}")
        check_head(F, f, beh["opened"], where)
        gens, got, peeked = [], [], None
        events = beh["events"]
        for i, h in enumerate(beh["hist"]):
            op, r = h["op"], h["r"]
            w = f"{where}: op {i + 1} {op}{h['g'] or ''}"
            kinds[op + ":" + r["k"]] = kinds.get(op + ":" + r["k"], 0) + 1
            if op == "all":
                whole(F, f, beh, r, w, got, rng)
            elif op == "iter":
                gens.append(iter(f))
            else:
                res = exc = None
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    try:
                        if op == "nev":
                            res = next(gens[h["g"] - 1])
                        elif op == "nobj":
                            res = next(f)
                        else:
                            res = f.peek()
                    except Exception as e:
                        exc = e
                if fwd and (isinstance(exc, OSError) and h["bw"] or op == "peek" and ws and res is None):
                    kinds["backward refused"] = kinds.get("backward refused", 0) + 1
                    return i
                k = r["k"]
                if k in ("event", "obj", "none", "warn") and exc is not None:
                    raise Mismatch(f"{w}: raised {exc!r}, expected {r}")
                if k == "event":
                    check_event(F, res, events[r["i"] - 1], f"{w}: event {r['i']}")
                    got.append((res, r["i"]))
                elif k == "obj":
                    node = F.nodes[r["i"] - 1]
                    if res is None or (res.header.type, res.header.version, res.header.id, res.address, res.size) != (
                            node.type, node.ver, node.id, node.start + node.hsize, node.end - node.start - node.hsize):
                        raise Mismatch(f"{w}: got {res!r}, expected block {r['i']} ({beh['file'][r['i'] - 1]['k']})")
                elif k in ("none", "warn"):
                    need(res is None, w, "result", res, None)
                    if k == "warn" and not ws and (peeked is None or peeked != i):
                        kinds["no second warning"] = kinds.get("no second warning", 0) + 1
                elif k == "stop":
                    need(isinstance(exc, StopIteration), w, "result", exc if exc else res, "StopIteration")
                elif k == "eof":
                    need(isinstance(exc, EOFError), w, "result", exc if exc else res, "EOFError")
                elif k == "err":
                    need(isinstance(exc, refusal()), w, "result", exc if exc else res, "WrongType or ValueError")
            runend(F, f, beh, h["runend"], w)
        for ev, i in got:
            check_event(F, ev, events[i - 1], f"{where}: event {i}, looked at again at the end")
    finally:
        f.close()
    return len(beh["hist"]) + len(got)


def runend(F, f, beh, avail, where):
    have = getattr(f, "run_end", None)
    if not avail:
        need(have is None, where, "run_end before the end", have, "not available")
    else:
        n = next(n for n, b in zip(F.nodes[beh["opened"]:], beh["file"][beh["opened"]:]) if b["k"] == "RE")
        if not same(have, low(n)[0]):
            raise Mismatch(f"{where}: run_end: got {have!r:.200}, expected {low(n)[0]!r:.200}")


def companion(beh, rng, where):
    """generator which reads another file of the same structure, with other contents, step by step"""
    from eventio import IACTFile
    G = Made(beh, rng)
    with open("ia_other.dat", "wb") as fh:
        fh.write(G.data)
    where = "another file read at the same time: " + where
    events, n = beh["events"], 0
    with IACTFile("ia_other.dat") as f:
        yield
        try:
            for ev in f:
                if n >= len(events):
                    raise Mismatch(f"{where}: event {ev!r:.200} after the last of {len(events)} expected events")
                check_event(G, ev, events[n], f"{where}: event {n + 1}")
                n += 1
                yield
        except (Mismatch, GeneratorExit):
            raise
        except Exception as e:
            raise Mismatch(f"{where}: raised {e!r}")
        need(n == len(events), where, "number of events", n, len(events))
        check_head(G, f, beh["opened"], where)
        runend(G, f, beh, True, where)


def whole(F, f, beh, r, where, got, rng):
    events = beh["events"]
    exc = other = None
    if r["k"] == "end" and isinstance(F, Made) and not beh["cut"]["at"] and rng.random() < 0.15:
        other = companion(beh, rng, where)
    try:
        for ev in f:
            if other is not None:
                for _ in range(rng.randrange(3)):
                    next(other, None)
            if len(got) >= len(events):
                raise Mismatch(f"{where}: event {ev!r:.200} after the last of {len(events)} expected events")
            check_event(F, ev, events[len(got)], f"{where}: event {len(got) + 1}")
            got.append((ev, len(got) + 1))
            runend(F, f, beh, False, where)
    except Mismatch:
        raise
    except Exception as e:
        exc = e
    if other is not None:
        other.close()
    need(len(got) == len(events), where, "number of events", f"{len(got)} ({exc!r})", len(events))
    if r["k"] == "end":
        need(exc is None, where, "the iteration ended with", exc, "the end of the file")
    elif r["k"] == "eof":
        need(isinstance(exc, EOFError), where, "the iteration ended with", exc, "EOFError")
    else:
        need(isinstance(exc, refusal()), where, "the iteration ended with", exc, "WrongType or ValueError")


# ------------------------------------------------------------------ scan of real files
def scan_real(out, files):
    import scan
    with open(out, "w") as f:
        for path in files:
            d = scan.load(path)
            try:
                tops = scan.objects(d, 0, len(d), True)
            except scan.Unexpected:
                continue
            if not tops or tops[0].type != 1200:
                continue
            if tops[-1].addr + tops[-1].size > len(d):
                tops.pop()
            bs = []
            for o in tops:
                k, x = KINDS.get(o.type, "XX"), []
                if o.type == 1205:
                    k, x = ("PT", []) if o.id == 999999 else ("PH", [dict(k="PH", tel=o.id % 1000)])
                elif k == "AO":
                    x = dict(n=struct.unpack_from("<i", d, o.addr)[0], w=o.ver >= 1)
                elif k == "TT":
                    x = [dict(k="PH" if q.type == 1205 else "XX", tel=q.id % 1000) for q in o.kids]
                bs.append(dict(k=k, id=o.id, x=x))
            f.write(json.dumps(dict(path=path, file=bs, size=tops[-1].addr + tops[-1].size)) + "\n")
            print(path, len(bs))


if __name__ == "__main__":
    import sys
    scan_real(sys.argv[1], sys.argv[2:])
