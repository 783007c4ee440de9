"""Replay of CutTool."""
import contextlib
import gzip
import io
import os
import random
import sys

import eio
from worker import Mismatch

P = {}
GC_EVERY = 200
CACHE = {}


def setup(params):
    P.update(params)


def build(beh):
    """-> the top-level objects of the file"""
    rnd = random.Random(repr((beh["sizes"], beh["ext"], beh["sub"], P["seed"])))
    out = []
    for n, s, x in zip(beh["sizes"], beh["sub"], beh["ext"]):
        n -= 20 if x else 16
        if s:
            payload = eio.obj(2012, 3, 1, rnd.randbytes(n - 12)) if n >= 12 and rnd.random() < 0.5 else eio.obj(70, 1, 0, b"") + eio.obj(5999, 1, 0, rnd.randbytes(n - 24))
        else:
            payload = rnd.randbytes(n) if n < 5000 or rnd.random() < 0.5 else bytes(n)
        o = eio.obj(rnd.choice([2010, 1204, 5999, 70]), rnd.randrange(4), rnd.randrange(1000), payload, True, ext=x, sub=s)
        out.append(o)
    return out


def run(mod, args):
    """-> (exit status or exception, output)"""
    buf, old = io.StringIO(), sys.argv
    sys.argv = ["tool"] + args
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            mod.main()
        return 0, buf.getvalue()
    except SystemExit as e:
        return (e.code or 0), buf.getvalue()
    except Exception as e:
        return e, buf.getvalue()
    finally:
        sys.argv = old


def replay(beh, rng, kinds):
    from eventio.scripts import cut_eventio_file as tool
    objs = build(beh)
    data = b"".join(objs)
    key = (data[:2000], len(data), beh["form"])
    if key not in CACHE:
        if len(CACHE) > 20:
            for p in CACHE.values():
                os.unlink(p)
            CACHE.clear()
        CACHE[key] = os.path.abspath(f"in{len(CACHE)}.dat")
        with open(CACHE[key], "wb") as f:
            f.write(eio.pack(data, beh["form"], [rng.randrange(1, len(data)) for _ in range(3)]))
    arg = "".join(beh["arg"])
    name = "out.gz" if beh["out"] == "gz" else rng.choice(["out.simtel", "out.dat", "outgz", "out.gz.dat"])
    out = os.path.abspath(name)
    if os.path.exists(out):
        os.unlink(out)
    if not beh["err"] and rng.random() < 0.3:
        with open(out, "wb") as f:                 # is replaced
            f.write(rng.randbytes(rng.choice([10, 40000])))
    where = f"objects of {beh['sizes']} bytes, {beh['form']}, cut at {arg!r}"
    args = [CACHE[key], out, arg] if not arg.startswith("-") else ["--", CACHE[key], out, arg]
    rc, text = run(tool, args)
    kinds["error" if beh["err"] else f"{beh['form']}->{beh['out']}"] = kinds.get("error" if beh["err"] else f"{beh['form']}->{beh['out']}", 0) + 1
    if beh["err"]:
        if rc == 0:
            raise Mismatch(f"{where}: accepted, but {arg!r} is no size")
        if os.path.exists(out):
            raise Mismatch(f"{where}: wrote a file, but {arg!r} is no size")
        return 1
    if rc != 0:
        raise Mismatch(f"{where}: failed with {rc!r} {text[-300:]}")
    with open(out, "rb") as f:
        got = f.read()
    if beh["out"] == "gz":
        try:
            got = gzip.decompress(got)
        except Exception as e:
            raise Mismatch(f"{where}: the output {name} is no gzip file: {e!r}")
    want = b"".join(objs[:beh["keep"]])
    if got != want:
        raise Mismatch(f"{where}: wrote {len(got)} bytes, expected the first {beh['keep']} objects ({len(want)} bytes); equal: {got[:len(want)] == want[:len(got)]}")
    # the value itself (also where no file could show the difference)
    ps = getattr(tool, "parse_size", None)
    if ps:
        unit = {"k": 1024, "M": 1024**2, "G": 1024**3}.get(arg[-1], 1)
        v = int(arg.rstrip("kMG")) * unit
        if ps(arg) != v:
            raise Mismatch(f"parse_size({arg!r}) = {ps(arg)}, expected {v}")
    return 1
