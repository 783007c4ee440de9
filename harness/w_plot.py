"""Replay of Plot: the pictures of the histogram tool."""
import os
import shutil
import struct

import eio
import w_cut
from worker import Mismatch

P = {}
GC_EVERY = 20


def setup(params):
    P.update(params)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401


def build(beh, rng):
    data, meta = b"", {}
    for b, blk in enumerate(beh["file"], 1):
        if blk["other"]:
            data += eio.obj(rng.choice([2010, 5999, 2000]), 0, 1, rng.randbytes(rng.randrange(30)), True)
            continue
        out = struct.pack("<h", len(blk["h"]))
        for j, h in enumerate(blk["h"], 1):
            title = " ".join(rng.choice(["events", "log10(E)", "weights", "R [m]", "größe", "a"]) for _ in range(rng.randint(1, 3)))
            t = title.encode()
            fl = h["ty"] in "RrFD"
            axes = []
            o = h["ty"].encode() + struct.pack("<h", len(t)) + t + (b"\0" if len(t) % 2 == 0 else b"")
            o += struct.pack("<ihhii", rng.randrange(1000), h["nx"], h["ny"], 5, 5 if h["te"] else 0)
            for n in (h["nx"], h["ny"])[:2 if h["ny"] else 1]:
                lo = rng.randrange(-50, 50)
                hi = lo + rng.randrange(1, 100)
                axes.append((lo, hi, n))
                o += struct.pack("<ii4f" if fl else "<ii4i", 1, 2, lo, hi, 3, 4)
            scale = 0.5 if h["ty"] in "FD" else 1
            if h["ty"] in "FD":
                o += struct.pack("<10f", *range(10))
            if h["te"]:
                o += struct.pack("<%d%s" % (len(h["d"]), "f" if h["ty"] in "FD" else "i"), *[x * scale if scale != 1 else x for x in h["d"]])
            out += o
            meta[b, j] = (title, axes, scale)
        data += eio.obj(100, rng.choice([1, 2]), 0, out, True)
    return data, meta


def close(a, b, span):
    return abs(a - b) <= 1e-6 * max(1.0, abs(span))


def replay(beh, rng, kinds):
    from eventio.scripts import plot_hists as tool
    import matplotlib.pyplot as plt
    data, meta = build(beh, rng)
    with open("hists.dat", "wb") as f:
        f.write(eio.pack(data, rng.choice(["plain", "plain", "zstd"])))
    base = os.path.abspath("pics/p")
    shutil.rmtree("pics", ignore_errors=True)
    os.mkdir("pics")
    from matplotlib.figure import Figure
    seen, save, show = [], Figure.savefig, plt.show
    pictures = rng.random() < 0.1 and not any(ord(c) > 127 for t, _, _ in meta.values() for c in t)

    def look(fig, fname=None, *a, **k):
        seen.append((snapshot(fig), fname))
        if pictures and fname:
            save(fig, fname, *a, **k)

    Figure.savefig = look
    plt.show = lambda *a, **k: look(plt.gcf())
    quiet = rng.random() < 0.2
    try:
        rc, out = w_cut.run(tool, ["hists.dat"] if quiet else ["hists.dat", "-o", base, "-f", "png", "-r", "20"])
    finally:
        Figure.savefig, plt.show = save, show
        plt.close("all")
    where = f"histograms {[[(h['ty'], h['nx'], h['ny'], h['d']) for h in b['h']] for b in beh['file']]}"
    if rc != 0:
        raise Mismatch(f"{where}: failed with {rc!r}")
    if quiet and not seen:
        return 0  # shown in some other way than plt.show: not looked at
    if len(seen) != len(beh["pics"]):
        raise Mismatch(f"{where}: {len(seen)} pictures, expected {len(beh['pics'])}")
    for n, (p, (s, name)) in enumerate(zip(beh["pics"], seen), 1):
        h = beh["file"][p["b"] - 1]["h"][p["j"] - 1]
        title, axes, scale = meta[p["b"], p["j"]]
        w = f"{where}: picture {n}"
        kinds[f"{'1' if not h['ny'] else '2'}d{'' if any(h['d']) else ' empty'}"] = kinds.get(f"{'1' if not h['ny'] else '2'}d{'' if any(h['d']) else ' empty'}", 0) + 1
        if not quiet and str(name) != f"{base}_{n:03d}.png":
            raise Mismatch(f"{w}: written to {name}")
        if pictures and not quiet and not os.path.getsize(f"{base}_{n:03d}.png"):
            raise Mismatch(f"{w}: empty file")
        if s["title"] != title:
            raise Mismatch(f"{w}: title {s['title']!r}, expected {title!r}")
        edges = [[lo + (hi - lo) * i / k for i in range(k + 1)] for lo, hi, k in axes]
        rows = [[x * scale for x in r] for r in p["rows"]]
        if s["rows"] != rows:
            raise Mismatch(f"{w}: shows {s['rows']}, expected {rows}")
        for i, a in enumerate("xy"[:len(axes)]):
            if len(s[a]) != len(edges[i]) or not all(close(u, v, 100) for u, v in zip(s[a], edges[i])):
                raise Mismatch(f"{w}: {a} edges {s[a]}, expected {edges[i]}")
            m = p[a]
            if h["ny"] or any(h["d"]):
                # what is not empty is visible
                lo, hi = edges[i][m[0] - 1], edges[i][m[1]]
                if any(h["d"]) and not (close(s[a + "lim"][0], lo, 100) and close(s[a + "lim"][1], hi, 100)):
                    raise Mismatch(f"{w}: {a} range {s[a + 'lim']}, expected {lo}..{hi}")
                if not any(h["d"]) and not (s[a + "lim"][0] <= lo + 1e-6 * 100 and s[a + "lim"][1] >= hi - 1e-6 * 100):
                    raise Mismatch(f"{w}: {a} range {s[a + 'lim']} does not contain {lo}..{hi}")
    return len(seen)


def snapshot(fig):
    """what a figure shows"""
    import numpy as np
    from matplotlib.collections import QuadMesh
    from matplotlib.patches import Rectangle, StepPatch
    ax = fig.axes[0]
    out = dict(title=ax.get_title(), xlim=ax.get_xlim(), ylim=ax.get_ylim(), rows=None, x=[], y=[])
    mesh = [c for c in ax.collections if isinstance(c, QuadMesh)]
    steps = [c for c in ax.patches if isinstance(c, StepPatch)]
    if mesh:
        c = mesh[0].get_coordinates()
        out["rows"] = np.asarray(mesh[0].get_array()).reshape(c.shape[0] - 1, c.shape[1] - 1).tolist()
        out["x"], out["y"] = c[0, :, 0].tolist(), c[:, 0, 1].tolist()
    elif steps:
        d = steps[0].get_data()
        out["rows"], out["x"] = [np.asarray(d.values, float).tolist()], np.asarray(d.edges, float).tolist()
    else:
        bars = sorted((b for b in ax.patches if isinstance(b, Rectangle)), key=lambda b: b.get_x())
        out["rows"] = [[float(b.get_height()) for b in bars]]
        out["x"] = [b.get_x() for b in bars] + ([bars[-1].get_x() + bars[-1].get_width()] if bars else [])
    return out
