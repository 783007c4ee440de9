"""Replay of Inspect: the tools which list the objects of a file."""
import json
import os
import re
import warnings

import w_core
import w_cut
from worker import Mismatch

P = w_core.P
GC_EVERY = 200


def setup(params):
    w_core.setup(params)


def replay(beh, rng, kinds):
    from eventio.scripts import print_structure as ps, print_object_information as pi
    form = rng.choices(("plain", "zstd", "gzmultipy", "gzproc"), (90, 6, 3, 1))[0]
    path, data = w_core.stored(beh, form)
    path = os.fspath(path)
    if path.startswith("-"):
        # on a command line this would be an option
        path = "./" + path
    where = f"{form}: listing"
    kinds["eof" if beh["eof"] else "complete"] = kinds.get("eof" if beh["eof"] else "complete", 0) + 1
    rep, rp = beh["rep"], rng.random() < 0.3
    opts = ([rng.choice(["-m", "--max-repeats"]), str(rep)] if rep != 5 or rng.random() < 0.5 else []) + ([rng.choice(["-r", "--repr"])] if rp else [])
    rng.shuffle(opts) if not opts or opts[0][:1] != "-" else None
    args = [path] + opts if rng.random() < 0.5 else opts + [path]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rc, out = w_cut.run(ps, args)
    if rc != 0:
        raise Mismatch(f"{where} {args}: failed with {rc!r}", form=form)
    got = out.splitlines()
    want = beh["lines"]
    n_extra = 1 if beh["eof"] else 0
    if len(got) < len(want) or (n_extra and len(got) == len(want)) or (not n_extra and len(got) != len(want)):
        raise Mismatch(f"{where} {args}: {len(got)} lines, expected {len(want)}" + (" and a message" if n_extra else "") + f": {got}", form=form)
    for g, w in zip(got, want):
        ind = len(g) - len(g.lstrip(" "))
        if ind != 4 * w["lvl"] + 1:
            raise Mismatch(f"{where} {args}: line {g!r} is indented by {ind}, expected level {w['lvl']}", form=form)
        if w["k"] == "more":
            if not re.search(rf"(?<!\d){w['n']}(?!\d)", g) or "[" in g:
                raise Mismatch(f"{where} {args}: line {g!r}, expected that {w['n']} more objects are mentioned", form=form)
            continue
        s = beh["shown"][w["n"] - 1]
        m = re.match(r"\s*(\w+)\[(\d+)\](.*)$", g)
        if not m or m[1] != s["c"] or int(m[2]) != s["t"]:
            raise Mismatch(f"{where} {args}: line {g!r}, expected {s}", form=form)
        if rp and s["c"] != "x":
            for k, v in dict(size=s["size"], address=s["addr"], only_subobjects=s["s"]).items():
                if f"{k}={v}" not in m[3]:
                    raise Mismatch(f"{where} {args}: line {g!r}, expected {k}={v}", form=form)
        elif s["c"] in ("ArrayEvent", "TelescopeData", "TelescopeEvent", "TrackingPosition", "DisabledPixels", "HistoryMeta"):
            num = s["id"]
            if s["c"] in ("TelescopeEvent", "TrackingPosition"):
                num = {2201: 1, 3207: 107, 2105: 5, 11250: 950, 11199: 999}[s["t"]]
            if not re.search(rf"(?<!\d){num}(?!\d)", m[3]):
                raise Mismatch(f"{where} {args}: line {g!r} does not mention the number {num}", form=form)
    if n_extra and any("[" in x for x in got[len(want):]):
        raise Mismatch(f"{where} {args}: unexpected objects {got[len(want):]}", form=form)

    js = rng.random() < 0.5
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        rc, out = w_cut.run(pi, [path, "--json"] if js else [path])
    where = f"{form}: statistics"
    if rc != 0:
        raise Mismatch(f"{where}: failed with {rc!r}", form=form)
    if beh["eof"] and not any("truncated" in str(x.message) for x in w):
        raise Mismatch(f"{where}: no warning although the file is truncated", form=form)
    rows = []
    if js:
        for x in json.loads(out):
            rows.append((x["type"], x["version"], x["level"], x["name"], x["number_of_objects"]))
    else:
        for line in out.splitlines():
            f = [x.strip() for x in line.split("|")]
            if len(f) == 5 and f[0].isdigit():
                rows.append((int(f[0]), int(f[1]), int(f[2]), f[4], int(f[3])))
    got = sorted((a, b, c, n.rsplit(".", 1)[-1], k) for a, b, c, n, k in rows)
    want = sorted((x["t"], x["v"], x["l"], x["c"], x["n"]) for x in beh["stat"])
    if got != want:
        raise Mismatch(f"{where}: got {got}, expected {want}", form=form)
    return len(beh["lines"]) + len(want)
