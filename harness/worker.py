"""Replays behaviours of the specification in the real code.

usage: worker.py NAME INFILE STRIPE NSTRIPES RESULT PARAMS
"""
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import sys
import time
import traceback
import warnings


class Mismatch(Exception):
    """The real code did something the specification does not allow."""

    def __init__(self, what, **kw):
        super().__init__(what)
        self.what, self.kw = what, kw


def main():
    name, infile, stripe, n, result, params = sys.argv[1:7]
    sys.modules["worker"] = sys.modules["__main__"]
    stripe, n, params = int(stripe), int(n), json.loads(params)
    lim = int(float(os.environ.get("MEM_GB", "4")) * 2**30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    warnings.simplefilter("ignore")
    try:
        import eventio
        want = os.environ["VERIF_IMPORT"]
        assert os.path.dirname(os.path.abspath(eventio.__file__)) == os.path.join(want, "eventio"), eventio.__file__
        mod = importlib.import_module("w_" + name)
        mod.setup(params)
    except Exception:
        print("MACHINERY")
        traceback.print_exc()
        sys.exit(3)

    nb = ev = 0
    kinds, violation, samples = {}, None, []
    pf = os.open("progress", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    every = getattr(mod, "GC_EVERY", 0)
    with open(infile) as f:
        for i, line in enumerate(f):
            if i % n != stripe:
                continue
            x = json.loads(line)
            beh = json.loads(x) if isinstance(x, str) else x
            s = json.dumps(beh).encode()
            os.pwrite(pf, s, 0)
            os.ftruncate(pf, len(s))
            rng = random.Random(hashlib.sha256(s + str(params["seed"]).encode() + str(params.get("rep", "")).encode()).digest())
            try:
                r = mod.replay(beh, rng, kinds)
            except Mismatch as m:
                violation = dict(what=m.what, behaviour=beh, **m.kw)
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:
                violation = dict(what=f"unexpected {type(e).__name__}: {e}", behaviour=beh, traceback=traceback.format_exc()[-4000:])
            if violation:
                break
            nb += 1
            ev += r or 0
            if not samples and (i // n) == 3:
                samples.append(beh)
            if every and nb % every == 0:
                gc.collect()
    fin = getattr(mod, "finish", None)
    if fin and not violation:
        try:
            fin(kinds)
        except Mismatch as m:
            violation = dict(what=m.what, behaviour=dict(all=True), **m.kw)
    tmp = result + ".tmp"
    with open(tmp, "w") as f:
        json.dump(dict(behaviours=nb, events=ev, kinds=kinds, violation=violation, samples=samples), f, default=repr)
    os.rename(tmp, result)


if __name__ == "__main__":
    main()
