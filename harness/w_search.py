"""Replay of Search behaviours."""
import os
import warnings

import eio
import w_core
from worker import Mismatch

P = w_core.P


def setup(params):
    w_core.setup(params)


def classes(names):
    import eventio
    from eventio.simtel import objects as st
    from eventio.iact import objects as ia
    out = []
    for n in names:
        out.append(getattr(st, n, None) or getattr(ia, n, None) or getattr(eventio, n))
    return out


def types(names, rng):
    c = classes(names)
    if len(c) == 1 and rng.random() < 0.7:
        return c[0]
    rng.shuffle(c)
    return tuple(c)


def replay(beh, rng, kinds):
    n = 0
    for form in P["forms"]:
        if form != "plain" and rng.random() >= P.get("sample", {}).get(form, 1.0):
            continue
        n += one(beh, rng, form, kinds)
    return n


def one(beh, rng, form, kinds):
    import eventio
    from eventio import search_utils as su
    path, data = w_core.stored(beh, form)
    fwd = eio.forward_only(form)
    touch = not fwd and rng.random() < 0.5           # look at the objects while the search is going on
    f = eventio.EventIOFile(path, zcat=eio.zcat_of(form))
    kept, keep = [], []
    try:
        for i, h in enumerate(beh["hist"]):
            q, a, take = h["q"], h["a"], h["take"]
            where = f"{form}: query {i + 1} {q} {a} on {'object %d' % h['o'] if h['o'] else 'the file'}"
            kinds[q + ":" + h["e"]] = kinds.get(q + ":" + h["e"], 0) + 1
            root = kept[h["o"] - 1] if h["o"] else f
            res, exc = [], None
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    if not h["o"] and rng.random() < 0.2 and not fwd:
                        f.peek()
                    del w[:]
                    if q == "find":
                        res.append(su.find_type(root, types(a, rng)))
                    elif q == "collect":
                        res.extend(su.collect_toplevel_of_type(root, types(a, rng)))
                    elif q == "findall":
                        res.extend(su.find_all_subobjects(root, [types(x, rng) for x in a]))
                    else:
                        if q == "top":
                            g = su.yield_toplevel_of_type(root, types(a, rng))
                        elif q == "yieldall":
                            g = su.yield_all_subobjects(root, [types(x, rng) for x in a])
                        elif q == "depth":
                            g = su.yield_all_objects_depth_first(root, a) if a or rng.random() < 0.5 else su.yield_all_objects_depth_first(root)
                        elif q == "sub":
                            g = su.yield_subobjects(root, types(a, rng))
                        elif q == "subn":
                            g = su.yield_n_subobjects(root, types(a["T"], rng)) if a["n"] == 3 and rng.random() < 0.5 else su.yield_n_subobjects(root, types(a["T"], rng), a["n"])
                        keep.append(g)
                        g = iter(g)
                        while len(res) < take:
                            try:
                                x = next(g)
                            except StopIteration:
                                break
                            res.append(x)
                            if touch:
                                content(x[0] if q == "depth" else x, data, h, where, rng)
                except StopIteration as e:
                    exc = e
                except Exception as e:
                    exc = e
            e = h["e"]
            if fwd and isinstance(exc, OSError) and (h["o"] or any(x["e"] in ("eof", "warn") for x in beh["hist"][:i])):
                kinds["backward refused"] = kinds.get("backward refused", 0) + 1
                return i
            if e == "eof" and not isinstance(exc, EOFError):
                raise Mismatch(f"{where}: got {exc!r} {res!r}, expected EOFError", form=form)
            if e == "stop" and not isinstance(exc, StopIteration):
                raise Mismatch(f"{where}: got {exc!r} {res!r}, expected StopIteration", form=form)
            if e not in ("eof", "stop") and exc is not None:
                raise Mismatch(f"{where}: raised {exc!r}, expected {h['r']}", form=form)
            if e == "warn" and not w:
                raise Mismatch(f"{where}: no warning although the file is truncated", form=form)
            if e in ("done", "taken", "found") and w:
                raise Mismatch(f"{where}: unexpected warning {w[0].message}", form=form)
            if e in ("taken", "found") and len(res) != len(h["r"]):
                raise Mismatch(f"{where}: {len(res)} results, expected {len(h['r'])}", form=form)
            j = 0
            used = []
            for x in h["r"]:
                if j < len(res):
                    o, lvl = res[j] if q == "depth" else (res[j], 0)
                    got = w_core.shown(o)
                    if {k: x[k] for k in got} == got and (q != "depth" or lvl == x["l"]):
                        used.append(o)
                        j += 1
                        continue
                if x["opt"]:
                    continue
                raise Mismatch(f"{where}: result {j + 1} is {res[j] if j < len(res) else 'missing'}, expected {x}", form=form)
            if j != len(res):
                raise Mismatch(f"{where}: unexpected result {res[j]!r}, expected {h['r']}", form=form)
            if touch:
                for o in used:
                    content(o, data, h, where, rng)
            if q == "find" or (q in ("top", "collect", "findall", "yieldall", "sub", "subn") and not any(x["opt"] for x in h["r"]) and not (used and used[0] is root)):
                kept.extend(used)
        # the file is where the queries left it: the rest can be read
        return len(beh["hist"])
    finally:
        f.close()


def content(o, data, h, where, rng):
    if o.header.only_subobjects:
        return
    lo, hi = o.address, o.address + o.size
    try:
        o.seek(0)
        got = bytes(o.read())
    except EOFError:
        got = None
    want = data[lo:hi] if hi <= len(data) or lo == hi else None
    if got != want:
        raise Mismatch(f"{where}: content of {o!r} is {got!r}, expected {want!r}")
