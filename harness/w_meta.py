"""Replay of MetaTools: the tools which print history and meta parameters."""
import datetime
import json
import os
import random
import re
import struct

import eio
import w_cut
from worker import Mismatch

P = {}
GC_EVERY = 200
ALPHA = "abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789"


def setup(params):
    P.update(params)


def word(rng, enc, n=12):
    extra = "äöüßé" if enc == "latin1" else "äß€λ漢😀"
    return "".join(rng.choice(ALPHA if rng.random() < 0.9 else extra) for _ in range(rng.randint(1, n)))


def text(rng, enc):
    if rng.random() < 0.1:
        return ""
    if rng.random() < 0.05:
        return " ".join(word(rng, enc) for _ in range(40))       # more than 127 bytes
    return " ".join(word(rng, enc) for _ in range(rng.randint(1, 4)))


def var_string(b):
    return eio.uvar(len(b)) + b


def build(beh, enc, rnd):
    data, entries, metas = [], {}, {}
    base = []
    for i, o in enumerate(beh["file"], 1):
        if o["k"] == "hist":
            kids = b""
            for j in range(1, o["n"] + 1):
                t = rnd.choice([0, 1, 1600000000, 2**31 - 1, rnd.randrange(2**31)])
                s = text(rnd, "utf8")
                entries[i, j] = (t, s)
                b = s.encode() + (b"\n" if rnd.random() < 0.3 else b"")
                kids += eio.obj(rnd.choice([71, 72]), 1, 0, struct.pack("<ih", t, len(b)) + b)
            data.append(eio.obj(70, 1, 0, kids, True, sub=True))
        elif o["k"] == "meta":
            items = {}
            # telescopes share most of their parameters
            for k in range(o["n"]):
                if k < len(base) and rnd.random() < 0.7:
                    key, val = base[k]
                else:
                    key, val = word(rnd, enc), text(rnd, enc)
                    if k == len(base):
                        base.append((key, val))
                items[key] = val
            metas[i] = items
            payload = eio.uvar(len(items)) + b"".join(var_string(k.encode(enc)) + var_string(v.encode(enc)) for k, v in items.items())
            data.append(eio.obj(75, 0, o["id"], payload, True))
        else:
            data.append(eio.obj(rnd.choice([2000, 2010, 5999, 2020]), 0, 1, rnd.randbytes(rnd.randrange(30)), True))
    return b"".join(data), entries, metas


def replay(beh, rng, kinds):
    from eventio.scripts import print_simtel_history as ph, print_simtel_metaparams as pm
    enc = "latin1" if rng.random() < 0.2 else "utf8"
    data, entries, metas = build(beh, enc, rng)
    form = rng.choices(("plain", "zstd", "gzmulti"), (90, 9, 1))[0]
    kk = [o["k"] for o in beh["file"]]
    if "other" in kk and rng.random() < 0.2 and (beh["mode"]["m"] == "history" or "meta" in kk and "other" in kk[kk.index("meta"):]):
        data += eio.obj(2010, 0, 1, rng.randbytes(40), True)[:rng.randrange(1, 40)]   # the data may be truncated
    path = os.path.abspath("meta.dat")
    with open(path, "wb") as f:
        f.write(eio.pack(data, form, [rng.randrange(1, max(2, len(data)))]))
    m = beh["mode"]["m"]
    kinds[m] = kinds.get(m, 0) + 1
    where = f"{form}: {m} of {[(o['k'], o['id'], o['n']) for o in beh['file']]}"
    if m == "history":
        rc, out = w_cut.run(ph, [path])
        if rc != 0:
            raise Mismatch(f"{where}: failed with {rc!r}", form=form)
        want = []
        for i, j in beh["printed"]:
            t, s = entries[i, j]
            want.append(f"{datetime.datetime.fromtimestamp(t):%Y-%m-%dT%H:%M:%S} {s.strip()}".rstrip())
        got = [x.rstrip() for x in out.split("\n")[:-1]]
        if got != want:
            raise Mismatch(f"{where}: got {got}, expected {want}", form=form)
        return len(want)
    eo = ["--encoding", "latin1"] if enc == "latin1" else []
    want = {i: metas[j] for i, j in beh["meta"]}
    if m == "json":
        rc, out = w_cut.run(pm, [path, "--json"] + eo)
        if rc != 0:
            raise Mismatch(f"{where}: failed with {rc!r}", form=form)
        got = json.loads(out)
        exp = {"global": want.get(-1), "telescopes": {str(k): v for k, v in want.items() if k != -1}}
        if got != exp or list(got["telescopes"]) != list(exp["telescopes"]) or any(list(got["telescopes"][k]) != list(v) for k, v in exp["telescopes"].items()):
            raise Mismatch(f"{where}: got {got}, expected {exp}", form=form)
        return 1
    if m == "text":
        rc, out = w_cut.run(pm, [path] + eo)
        if rc != 0:
            raise Mismatch(f"{where}: failed with {rc!r}", form=form)
        exp = []
        for i in ([-1] if -1 in want else []) + [i for i in want if i != -1]:
            exp += [("title", i)] + [("item", f"{k} = {v}") for k, v in want[i].items()]
        got = []
        lines = out.split("\n")
        for n, line in enumerate(lines):
            if n + 1 < len(lines) and re.fullmatch(r"-{5,}", lines[n + 1]):
                t = re.search(r"-?\d+", line)
                got.append(("title", int(t[0]) if t else -1))
            elif line and not re.fullmatch(r"-{5,}", line):
                got.append(("item", line))
        if got != exp:
            raise Mismatch(f"{where}: got {got}, expected {exp}", form=form)
        return 1
    a, b = beh["mode"]["a"], beh["mode"]["b"]
    rc, out = w_cut.run(pm, [path, "--tel-diff", str(a), str(b)] + eo)
    if rc != 0:
        raise Mismatch(f"{where}: failed with {rc!r}", form=form)
    A = [f"{k} = {v}" for k, v in want[a].items()]
    B = [f"{k} = {v}" for k, v in want[b].items()]
    lines = out.split("\n")[:-1]
    body = [x for x in lines if not re.match(r"(---|\+\+\+|@@)", x)]
    minus = sorted(x[1:] for x in body if x.startswith("-"))
    plus = sorted(x[1:] for x in body if x.startswith("+"))
    same = [x[1:] for x in body if x.startswith(" ")]
    if (A == B) != (not body):
        raise Mismatch(f"{where} {a} {b}: printed {lines} for {A} and {B}", form=form)
    # what is not printed is the same in both
    ra, rb = list(A), list(B)
    for x in minus + same:
        if x not in ra:
            raise Mismatch(f"{where} {a} {b}: {x!r} is no parameter of telescope {a}: {lines}", form=form)
        ra.remove(x)
    for x in plus + same:
        if x not in rb:
            raise Mismatch(f"{where} {a} {b}: {x!r} is no parameter of telescope {b}: {lines}", form=form)
        rb.remove(x)
    if ra != rb:
        raise Mismatch(f"{where} {a} {b}: printed {lines} for {A} and {B}", form=form)
    return 1
