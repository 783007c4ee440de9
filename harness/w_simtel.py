"""Replay of SimTel: builds the file block by block and compares what SimTelFile delivers."""
import json
import os
import pickle
import struct
import warnings

import numpy as np

import eio
import w_layout
from worker import Mismatch

P = {}
POOL = {}      # (type, filter name) -> behaviours of Layout
TRACES = []    # scanned real files
GC_EVERY = 0


def setup(params):
    P.update(params)
    if P.get("pool"):
        with open(P["pool"], "rb") as f:
            POOL.update(pickle.load(f))
    if P.get("traces"):
        with open(P["traces"]) as f:
            TRACES.extend(json.loads(l) for l in f)


# ------------------------------------------------------------------ contents
def mk_type(base, tel):
    return base + tel % 100 + 1000 * (tel // 100)


def split(tel):
    return (tel & 0xFF) | ((tel >> 8) & 0x3F) << 24


class Content:
    """Chooses payloads; the contents of one file are pairwise different if possible."""

    def __init__(self, rng):
        self.rng, self.seen = rng, set()

    def pick(self, name, want=None, fix=None):
        cands = POOL[name]
        if want is not None:
            cands = [b for b in cands if want(b)]
        for _ in range(20):
            b = self.rng.choice(cands)
            payload, tok = w_layout.concretise(b, self.rng, fix(b) if fix else None)
            if (name, payload) not in self.seen:
                break
        self.seen.add((name, payload))
        return b, payload


class Node:
    __slots__ = ("type", "ver", "id", "payload", "kids", "end", "start", "hsize")

    def __init__(self, type, ver, id, payload=b"", kids=None):
        self.type, self.ver, self.id, self.payload, self.kids = type, ver, id, payload, kids

    def bytes(self, top=True):
        if self.kids is None:
            return eio.obj(self.type, self.ver, self.id, self.payload, top)
        return eio.obj(self.type, self.ver, self.id, b"".join(k.bytes(False) for k in self.kids), top, sub=True)


DESC = dict(CS=2002, CO=2003, PS=2004, DP=2005, SW=2006, DS=2008, PC=2007)
NAMES = dict(CS="camera_settings", CO="camera_organization", PS="pixel_settings", DP="disabled_pixels", SW="camera_software_settings",
             DS="drive_settings", PC="pointing_correction")
SIMPLE = dict(GM=75, TM=75, MR=2001, IC=1212, AP=1216, LC=2023, PM=2033, MS=2020, ME=2021, SU=2026, HG=100, **DESC)
PARTKEY = dict(HD="header", SA="adc_samples", SS="adc_sums", PT="pixel_timing", IP="image_parameters", TT="pixel_trigger_times")


def tel_part(c, part, tel, rng):
    if part in ("SA", "SS"):
        t = 2013 if part == "SA" else 2012
        b, p = c.pick(str(t))
        return Node(t, b["ver"], (b["id"] & 0xFFF) | tel << 12, p)
    if part == "HD":
        b, p = c.pick("2011")
        return Node(2011, b["ver"], tel, p)
    if part[0] == "L":
        b, p = c.pick("2027")
        return Node(2027, b["ver"], tel + 1000000 * int(part[1:]), p)
    if part in ("PT", "TT"):
        t = 2016 if part == "PT" else 2032
        b, p = c.pick(str(t))
        return Node(t, b["ver"], tel, p)
    if part == "IP":
        b, p = c.pick("2014")
        return Node(2014, b["ver"], (b["id"] & 0xFFF00) | split(tel), p)
    if part[0] in "DA":
        t = 2029 if part[0] == "D" else 2030
        b, p = c.pick(str(t))
        return Node(t, b["ver"], int(part[1:]), p)
    raise KeyError(part)


def array_event(c, b, rng):
    x = b["x"]
    n = len(x["ids"])

    def fix(l):
        toks = next((e["v"] for e in l["exp"] if e["k"] == "telescopes_with_data"), None)
        return dict(zip(toks, x["ids"]))
    lay, p = c.pick("2009", lambda l: l["case"]["nd"] == n and l["ver"] >= 1, fix)
    kids = [Node(2009, lay["ver"], x["trig"], p)]
    for tel, parts in zip(x["ids"], x["parts"]):
        kids.append(Node(mk_type(2200, tel), 0, b["id"], kids=[tel_part(c, q, tel, rng) for q in parts]))
    for tel in x["tracks"]:
        lay, p = c.pick("2100")
        kids.append(Node(mk_type(2100, tel), 0, lay["id"] & 0x300 | split(tel), p))
    if x["st"]:
        lay, p = c.pick("2015")
        kids.append(Node(2015, lay["ver"], lay["id"], p))
    return Node(2010, 0, b["id"], kids=kids)


def telescope_data(c, x, id):
    kids = []
    for e in x:
        if e["k"] == "PE":
            lay, p = c.pick("1208")
            kids.append(Node(1208, lay["ver"], e["tel"], p))
        else:
            lay, p = c.pick("1205", lambda l: bool(l["case"]["em"]) == (e["k"] == "EM"))
            kids.append(Node(1205, lay["ver"], e["tel"], struct.pack("<hh", 0, e["tel"]) + p[4:]))
    return Node(1204, 0, id, kids=kids)


def block(c, b, rng):
    k, tel = b["k"], b["tel"]
    if k == "HI":
        kids = []
        for _ in range(b["id"]):
            t = rng.choice(["71", "72"])
            lay, p = c.pick(t)
            kids.append(Node(int(t), lay["ver"], lay["id"], p))
        return Node(70, 0, 0, kids=kids)
    if k == "RH":
        lay, p = c.pick("2000", lambda l: l["case"]["nt"] == b["id"])
        return Node(2000, lay["ver"], 1, p)
    if k == "CM":
        lay, p = c.pick("2022")
        what = lay["case"]["what"]
        return Node(2022, lay["ver"], (tel & 0xFF) | what << 8 | (tel >> 8) << 24, p)
    if k == "PA":
        lay, p = c.pick("1205part")
        return Node(1205, lay["ver"], 999999, p)
    if k == "TD":
        return telescope_data(c, b["x"], 1)
    if k == "CP":
        return Node(2034, 0, 1, kids=[telescope_data(c, b["x"], 1)])
    if k == "AE":
        return array_event(c, b, rng)
    if k == "CE":
        return Node(2028, 0, tel, kids=[array_event(c, b, rng)])
    if k == "UN":
        return Node(rng.choice([9999, 2024, 2025, 1207, 60000]), 0, 7, rng.randbytes(rng.randrange(20)))
    t = SIMPLE[k]
    lay, p = c.pick(str(t))
    id = tel if k in DESC or k in ("LC", "PM", "TM", "GM") else b["id"] if k == "ME" else lay["id"]
    return Node(t, lay["ver"], id, p)


# ------------------------------------------------------------------ references
_ref = {}


def parsed(node):
    """content of the object on its own"""
    from eventio import EventIOFile
    key = (node.type, node.ver, node.id, node.payload)
    if key not in _ref:
        if len(_ref) > 20000:
            _ref.clear()
        with open("ref.dat", "wb") as f:
            f.write(node.bytes(True))
        with EventIOFile("ref.dat") as f:
            _ref[key] = next(f).parse()
    return _ref[key]


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if b.dtype.names:
            return all(same(a[n], b[n]) for n in b.dtype.names)
        return a.tobytes() == b.tobytes() or np.array_equal(a, b, equal_nan=b.dtype.kind == "f")
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, np.void) and b.dtype.names:
        return isinstance(a, np.void) and a.dtype == b.dtype and all(same(a[n], b[n]) for n in b.dtype.names)
    if b is None:
        return a is None
    if isinstance(b, (float, np.floating)):
        return isinstance(a, (float, np.floating)) and (a == b or (a != a and b != b))
    return type(a) is type(b) and a == b or (not isinstance(a, (dict, np.ndarray, list, tuple)) and not isinstance(b, (bytes, str)) and a == b)


class File:
    def __init__(self, beh, rng):
        c = Content(rng)
        self.nodes = [block(c, b, rng) for b in beh["file"]]
        self.data = b""
        for n in self.nodes:
            x = n.bytes()
            n.start, n.hsize, n.end = len(self.data), 16, len(self.data) + len(x)
            self.data += x

    def node(self, r):
        n = self.nodes[r[0] - 1]
        for i in r[1:]:
            n = n.kids[i - 1]
        return n

    def value(self, r):
        return parsed(self.node(r))


class RealFile(File):
    """a file scanned by scan.py"""
    def __init__(self, t):
        import scan
        d = scan.load(t["path"])[:t["size"]]
        self.data = d

        def node(o):
            n = Node(o.type, o.ver, o.id, b"" if o.sub else d[o.addr:o.addr + o.size], [node(k) for k in o.kids] if o.sub else None)
            n.start, n.hsize, n.end = o.start, o.addr - o.start, o.addr + o.size
            return n
        self.nodes = [node(o) for o in scan.objects(d, 0, len(d), True)]


_real = {}


def real(no):
    if no not in _real:
        _real.clear()
        _ref.clear()
        _real[no] = RealFile(TRACES[no - 1])
    return _real[no]


def need(ok, where, what, got, exp):
    if not ok:
        raise Mismatch(f"{where}: {what}: got {got!r:.300}, expected {exp!r:.300}")


def check_value(F, got, r, where, what):
    exp = F.value(r)
    if not same(got, exp):
        others = [i + 1 for i, n in enumerate(F.nodes) if n.kids is None and n.type == F.node(r).type and F.node(r).kids is None and same(got, parsed(n))]
        raise Mismatch(f"{where}: {what} is not the content of block {r}" + (f" but of block {others}" if others else "") + f": got {got!r:.300}, expected {exp!r:.300}")


def check_map(F, d, m, where, what):
    need(isinstance(d, dict), where, what, d, "a dictionary")
    need(set(d.keys()) == {e["k"] for e in m}, where, f"telescopes in {what}", sorted(d.keys()), sorted(e["k"] for e in m))
    for e in m:
        check_value(F, d[e["k"]], e["r"], where, f"{what}[{e['k']}]")


def merged(F, rs):
    out = {}
    for r in rs:
        out.update(F.value(r))
    return out


def check_monitoring(F, d, m, where, what):
    need(set(d.keys()) == {e["k"] for e in m}, where, f"telescopes in {what}", sorted(d.keys()), sorted(e["k"] for e in m))
    for e in m:
        exp = merged(F, e["r"])
        got = d[e["k"]]
        if set(got) != set(exp) or not all(same(got[k], exp[k]) for k in exp):
            diff = [k for k in set(got) | set(exp) if k not in got or k not in exp or not same(got[k], exp[k])]
            raise Mismatch(f"{where}: {what}[{e['k']}] are not the values of the blocks {e['r']}: differs in {diff[:5]}: got {[got.get(k) for k in diff[:3]]!r:.300}, "
                           f"expected {[exp.get(k) for k in diff[:3]]!r:.300}")


EVENT, MONI, HEAD = "event", "moni", "head"


def check_event(F, ev, e, cfg, where, aspects, partial=False):
    free = False          # nothing of the allowed telescopes in this event
    if e["ae"] and cfg["allowed"] and not e["tels"]:
        free = True
    need(ev.get("type") == e["type"], where, "type", ev.get("type"), e["type"])
    want = {"type", "event_id"}

    def key(name, present, check, *args):
        if not present:
            need(name not in ev, where, "keys", sorted(ev), f"no {name}")
            return
        need(name in ev, where, "keys", sorted(ev), name)
        want.add(name)
        check(F, ev[name], *args, where, name)
    if EVENT in aspects:
        if not partial:
            need(ev["event_id"] == e["id"], where, "event_id", ev["event_id"], e["id"])
        key("calibration_type", e["ct"] >= 0, lambda F, g, x, w, n: need(g == x, w, n, g, x), e["ct"])
        key("mc_shower", bool(e["ms"]), check_value, e["ms"])
        key("mc_event", bool(e["me"]), check_value, e["me"])
        key("observation_level_particles", bool(e["pa"]), check_value, e["pa"])
        key("photons", bool(e["ph"]), lambda F, g, m, w, n: check_photons(F, g, m, w, n, 0), e["ph"])
        key("emitter", bool(e["em"]), lambda F, g, m, w, n: check_photons(F, g, m, w, n, 1), e["em"])
        if e["hascpe"]:
            key("photoelectrons", True, check_map, e["cpe"])
        else:
            key("photoelectrons", bool(e["pe"]), check_map, e["pe"])
        key("photoelectron_sums", bool(e["su"]), check_value, e["su"])
        key("trigger_information", e["ae"], check_value, e["trig"])
        key("telescope_events", e["ae"], check_telescopes, e["tels"])
        if not free:
            key("tracking_positions", e["ae"], check_map, e["tracks"])
            key("stereo_reconstruction", bool(e["st"]), check_value, e["st"])
    if MONI in aspects:
        for k, n in (("cm", "camera_monitorings"), ("lc", "laser_calibrations"), ("pm", "pixel_monitorings")):
            key(n, e["ae"], check_monitoring, e[k])


def check_photons(F, d, m, where, what, part):
    need(set(d.keys()) == {e["k"] for e in m}, where, f"telescopes in {what}", sorted(d.keys()), sorted(e["k"] for e in m))
    for e in m:
        exp = F.value(e["r"])[part]
        need(same(d[e["k"]], exp), where, f"{what}[{e['k']}]", d[e["k"]], exp)


def check_telescopes(F, d, m, where, what):
    need(set(d.keys()) == {e["k"] for e in m}, where, f"telescopes in {what}", sorted(d.keys()), sorted(e["k"] for e in m))
    for e in m:
        got, w = d[e["k"]], f"{what}[{e['k']}]"
        keys = {"pixel_lists"}
        lists, traces = {}, {}
        for q in e["r"]:
            n = F.node(q["r"])
            if q["k"] in PARTKEY:
                keys.add(PARTKEY[q["k"]])
                need(PARTKEY[q["k"]] in got, where, w, sorted(got), PARTKEY[q["k"]])
                check_value(F, got[PARTKEY[q["k"]]], q["r"], where, f"{w} {PARTKEY[q['k']]}")
            elif q["k"][0] == "L":
                lists[n.id // 1000000] = q["r"]
            else:
                traces[n.id] = q["r"]
        if traces:
            keys.add("aux_traces")
        need(set(got) == keys, where, f"blocks in {w}", sorted(got), sorted(keys))
        for name, exp in (("pixel_lists", lists), ("aux_traces", traces)):
            if name in keys:
                need(set(got[name]) == set(exp), where, f"{w} {name}", sorted(got[name]), sorted(exp))
                for k, r in exp.items():
                    check_value(F, got[name][k], r, where, f"{w} {name}[{k}]")


def check_head(F, f, h, where):
    def seq(got, refs, what):
        need(len(got) == len(refs), where, f"number of {what}", len(got), len(refs))
        for i, r in enumerate(refs):
            check_value(F, got[i], r, where, f"{what}[{i}]")
    seq(f.history, h["history"], "history")
    seq(f.mc_run_headers, h["mrs"], "mc_run_headers")
    seq(f.corsika_inputcards, h["ics"], "corsika_inputcards")
    seq(f.atmospheric_profiles, h["aps"], "atmospheric_profiles")
    if h["gmeta"]:
        check_value(F, f.global_meta, h["gmeta"], where, "global_meta")
    else:
        need(f.global_meta == {}, where, "global_meta", f.global_meta, {})
    check_map(F, f.telescope_meta, h["tmeta"], where, "telescope_meta")
    check_value(F, f.header, h["rh"], where, "header")
    need(f.n_telescopes == h["nt"], where, "n_telescopes", f.n_telescopes, h["nt"])
    tels = {d["k"][0] for d in h["desc"]}
    need(set(f.telescope_descriptions) == tels, where, "telescopes with description", sorted(f.telescope_descriptions), sorted(tels))
    for t in tels:
        exp = {NAMES[d["k"][1]]: d["r"] for d in h["desc"] if d["k"][0] == t}
        need(set(f.telescope_descriptions[t]) == set(exp), where, f"descriptions of telescope {t}", sorted(f.telescope_descriptions[t]), sorted(exp))
        for k, r in exp.items():
            check_value(F, f.telescope_descriptions[t][k], r, where, f"telescope_descriptions[{t}][{k}]")


# ------------------------------------------------------------------ the replay
def forms(rng):
    pick = P.get("forms") or {"plain": 1.0}
    return rng.choices(list(pick), list(pick.values()))[0]


def damage(F, beh, rng):
    """puts an object of a wrong type at a place where the structure requires a certain one"""
    d = beh["dmg"]
    n = F.nodes[d["at"] - 1]
    ae = n.kids[0] if n.type == 2028 else n
    wrong = Node(rng.choice([9999, 2010, 2015, 2020, 1205, 2201, 2101, 70]), 1, 1, rng.randbytes(40))
    if d["how"] == "trig":
        ae.kids[0] = wrong
    elif d["how"] == "ce":
        n.kids[0] = Node(rng.choice([9999, 1204, 2200, 2020, 2034]), 0, ae.id, kids=ae.kids)
    elif d["how"] == "telhead":
        t = next(k for k in ae.kids if k.type == mk_type(2200, d["tel"]))
        if len(t.kids) > 1 and rng.random() < 0.5:
            del t.kids[0]
        else:
            wrong.type = rng.choice([9999, 2013, 2012, 2010])
            t.kids[0] = wrong
    else:
        ae.kids = [k for k in ae.kids if k.type != mk_type(2100, d["tel"])]
    F.data = b"".join(n.bytes() for n in F.nodes)


def damaged(beh, rng, kinds):
    from eventio import SimTelFile
    F = File(beh, rng)
    damage(F, beh, rng)
    d = beh["dmg"]
    kinds["damage " + d["how"]] = kinds.get("damage " + d["how"], 0) + 1
    form = forms(rng)
    with open("st.dat", "wb") as fh:
        fh.write(eio.pack(F.data, form, [len(F.data) // 2]))
    where = f"{form}: {' '.join(b['k'] + (str(b['tel']) if b['tel'] else '') for b in beh['file'])} with damage {d['how']} in block {d['at']}"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = SimTelFile("st.dat", skip_non_triggered=False, zcat=eio.zcat_of(form))
        try:
            exp = beh["events"]
            for i, e in enumerate(exp):
                check_event(F, next(f), e, beh["cfg"], f"{where}: event {i + 1}", ("event", "moni"))
            try:
                ev = next(f)
            except (StopIteration, EOFError) as e:
                raise Mismatch(f"{where}: ended with {e!r} after {len(exp)} events, expected an error")
            except Exception:
                return 1 + len(exp)
            raise Mismatch(f"{where}: event {ev!r:.200} instead of an error")
        finally:
            f.close()


def replay(beh, rng, kinds):
    from eventio import SimTelFile
    from eventio.simtel.simtelfile import UnknownObjectWarning
    if rng.random() > P.get("sample", 1):
        return 0
    if "dmg" in beh:
        return damaged(beh, rng, kinds)
    aspects = P["aspects"]
    if P.get("traces"):
        t = TRACES[beh["no"] - 1]
        beh = dict(beh, file=t["file"], tels=t["tels"])
        F = real(beh["no"])
    else:
        F = File(beh, rng)
    cfg, cut = beh["cfg"], beh["cut"]
    data = F.data
    if cut["at"]:
        n = F.nodes[cut["at"] - 1]
        how = cut["how"]
        if how == "payload" and n.end == n.start + n.hsize:
            how = "between"
        if how == "header":
            pos = n.start + rng.randint(1, n.hsize - 1)
        elif how == "payload":
            # the last bytes of a block may be padding
            pos = n.start + n.hsize + rng.randrange(n.end - n.start - n.hsize)
        else:
            pos = n.start
        data = data[:pos]
        if len(data) < 4:
            return 0
        kinds[f"cut {how} {beh['file'][cut['at'] - 1]['k']}"] = kinds.get(f"cut {how} {beh['file'][cut['at'] - 1]['k']}", 0) + 1
    form = forms(rng)
    kinds["form " + form] = kinds.get("form " + form, 0) + 1
    torn = P.get("torn") and form != "plain"
    packed = eio.pack(data, form, [rng.randrange(1, max(2, len(data))) for _ in range(3)])
    with open("st.dat", "wb") as fh:
        fh.write(packed)
    where = f"{form}: {TRACES[beh['no'] - 1]['path']}" if "no" in beh else f"{form}: {' '.join(b['k'] + (str(b['tel']) if b['tel'] else '') for b in beh['file'])}"
    if cut["at"]:
        where += f" cut at block {cut['at']} ({how}, byte {pos - n.start} of {n.end - n.start})"
    kw = dict(skip_non_triggered=cfg["trig"], skip_calibration=cfg["calib"], zcat=eio.zcat_of(form))
    if cfg["allowed"]:
        kw["allowed_telescopes"] = rng.choice([set, list, tuple])(cfg["allowed"])
        where += f" allowed {cfg['allowed']}"
    where += f" skip_non_triggered={cfg['trig']} skip_calibration={cfg['calib']}"
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            f = SimTelFile("st.dat", **kw)
        except EOFError as e:
            if beh["opened"]:
                # a cut inside the block that completes the header
                raise Mismatch(f"{where}: could not be opened: {e!r}")
            return 1
        other = None
        try:
            if not beh["opened"]:
                if not cut["at"]:
                    raise AssertionError("not opened")
                # the last bytes of the block may not be needed
                if how == "payload" and cut["at"] == P_ready(beh):
                    return 1
                raise Mismatch(f"{where}: could be opened, expected EOFError")
            if HEAD in aspects:
                check_head(F, f, beh["head"], where)
            got = []
            exp = beh["events"]
            it = f if rng.random() < 0.5 else iter(f)
            lim = len(exp) + 3
            if not cut["at"] and "no" not in beh and rng.random() < 0.15:
                # a second file of the same structure with other contents, read at the same time
                other = companion(beh, kw, form, rng, where, aspects)
                kinds["two files"] = kinds.get("two files", 0) + 1
            while len(got) < lim:
                if other is not None:
                    for _ in range(rng.randrange(3)):
                        next(other, None)
                try:
                    got.append(next(it))
                except StopIteration:
                    break
                except Exception as e:
                    raise Mismatch(f"{where}: event {len(got) + 1}: raised {e!r}")
                if len(got) <= len(exp):
                    check_one(F, got, exp, len(got) - 1, cfg, where, aspects, beh)
            for _ in range(2):
                try:
                    x = next(it)
                except StopIteration:
                    continue
                raise Mismatch(f"{where}: event {x!r:.200} after the end")
            if len(got) != len(exp):
                raise Mismatch(f"{where}: {len(got)} events {[e['event_id'] for e in got]}, expected {len(exp)} {[e['id'] for e in exp]}")
            if HEAD in aspects:
                check_head(F, f, beh["head"], where + ", after the last event")
                if beh["head"]["hist"]:
                    check_value(F, f.histograms, beh["head"]["hist"], where, "histograms")
                else:
                    need(f.histograms is None, where, "histograms", f.histograms, None)
            if MONI in aspects:
                for k, n in (("cm", "camera_monitorings"), ("lc", "laser_calibrations"), ("pm", "pixel_monitorings")):
                    d = {t: v for t, v in getattr(f, n).items() if v}
                    check_monitoring(F, d, beh["head"][k], where + ", after the last event", n)
            # delivered events do not change afterwards
            for i in range(len(got)):
                check_one(F, got, exp, i, cfg, where + ", looked at again at the end", aspects, beh)
            if cut["at"] and how != "between" and beh["file"][cut["at"] - 1]["k"] != "UN":
                if how == "header" and not any("runcated" in str(w.message) or "EOF" in str(w.message) or not issubclass(w.category, ResourceWarning) for w in ws):
                    raise Mismatch(f"{where}: no warning")
                if not ws:
                    raise Mismatch(f"{where}: no warning about the truncation")
            if not cut["at"]:
                # a complete file gives warnings about blocks which are not known only
                ws = [w for w in ws if issubclass(w.category, UserWarning)]
                unknown = [w for w in ws if issubclass(w.category, UnknownObjectWarning)]
                n = sum(b["k"] == "UN" for b in beh["file"])
                if len(unknown) < len(ws):
                    raise Mismatch(f"{where}: the file is complete, but there is a warning: {[str(w.message) for w in ws if w not in unknown]}")
                if "no" not in beh and (len(unknown) > 0) != (n > 0):
                    raise Mismatch(f"{where}: {len(unknown)} warnings about unknown objects, {n} such objects")
                kinds["unknown objects warned" if n else "no warning"] = kinds.get("unknown objects warned" if n else "no warning", 0) + 1
        finally:
            f.close()
            if other is not None:
                other.close()
    return len(exp) + 1


def companion(beh, kw, form, rng, where, aspects):
    """generator which reads another file step by step"""
    from eventio import SimTelFile
    G = File(beh, rng)
    with open("st_other.dat", "wb") as fh:
        fh.write(eio.pack(G.data, form, [rng.randrange(1, max(2, len(G.data))) for _ in range(3)]))
    where = "another file read at the same time: " + where
    exp, got = beh["events"], []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = SimTelFile("st_other.dat", **kw)
    try:
        while True:
            yield
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    got.append(next(f))
                except StopIteration:
                    break
                except Exception as e:
                    raise Mismatch(f"{where}: event {len(got) + 1}: raised {e!r}")
            if len(got) > len(exp):
                raise Mismatch(f"{where}: more than {len(exp)} events")
            check_one(G, got, exp, len(got) - 1, beh["cfg"], where, aspects, beh)
        if len(got) != len(exp):
            raise Mismatch(f"{where}: {len(got)} events, expected {len(exp)}")
        if HEAD in aspects:
            check_head(G, f, beh["head"], where)
    finally:
        f.close()


def P_ready(beh):
    """number of the block that completes the header"""
    left = {(k, t) for k in DESC for t in beh["tels"]}
    rh = False
    for i, b in enumerate(beh["file"]):
        left.discard((b["k"], b["tel"]))
        rh = rh or b["k"] == "RH"
        if rh and not left:
            return i + 1
    return 0


def check_one(F, got, exp, i, cfg, where, aspects, beh):
    partial = bool(beh["cut"]["at"]) and i == len(exp) - 1
    check_event(F, got[i], exp[i], cfg, f"{where}: event {i + 1}", aspects, partial)
