"""Chooses parsable payloads (from behaviours exported by Layout) and files made of them.

usage: palette.py [--chunked] OUT SEED NPAYLOADS NFILES EXPORT...
Writes OUT.pickle (payloads) and OUT.tla (a TLA+ set of forests, see EioFormat)."""
import json
import pickle
import random
import sys

import w_layout


def pick(rng, exports, n, chunked=False):
    by_type = {}
    for path in exports:
        with open(path) as f:
            for line in f:
                b = json.loads(json.loads(line))
                if not b["refuse"] and (not chunked or 0 < b["case"].get("chunk", 0) < b["case"].get("n", 0)):
                    by_type.setdefault((b["t"], b["ver"]), []).append(b)
    out = []
    keys = sorted(by_type)
    rng.shuffle(keys)
    while len(out) < n:
        for k in keys:
            b = rng.choice(by_type[k])
            payload, tok = w_layout.concretise(b, rng)
            if len(payload) > 3000:
                continue
            ct = {1201: 4, 1205: 12}.get(b["t"], 0)
            ch = cb = 0
            c = b["case"].get("chunk")
            if c:
                rows = (len(payload) - 12) // (16 if b["ver"] // 1000 == 1 else 32)
                ch, cb = max(1, -(-rows // c)), c * (16 if b["ver"] // 1000 == 1 else 32)
            tok["env"] = {"granularity": tok[e["v"][0]] for e in b["exp"] if e["k"] == "granularity"}
            out.append(dict(beh=b, payload=payload, tok=tok, ct=ct, ch=ch, cb=cb))
    return out


def leaf(rng, pal, i):
    p = pal[i - 1]
    b = p["beh"]
    return (f"[t |-> {b['t']}, v |-> {b['ver']}, id |-> {b['id']}, u |-> {rng.randrange(2)}, x |-> {'TRUE' if rng.random() < .2 else 'FALSE'}, s |-> FALSE, "
            f"n |-> {len(p['payload'])}, k |-> <<>>, p |-> [i |-> {i}, ct |-> {p['ct']}, ch |-> {p['ch']}, cb |-> {p['cb']}]]")


def forest(rng, pal, n, depth=0):
    out = []
    while n > 0:
        r = rng.random()
        if depth < 2 and n > 1 and r < 0.4:
            m = rng.randint(1, n)
            out.append(f"Box({rng.choice([2, 4])}, FALSE, {forest(rng, pal, m, depth + 1)})")
            n -= m
        elif r < 0.43:
            # a telescope definition without telescopes (its length is 0; not parsable)
            out.append(f"[t |-> 1201, v |-> 0, id |-> {rng.randrange(99)}, u |-> 0, x |-> FALSE, s |-> FALSE, n |-> 4, k |-> <<>>, p |-> [i |-> 0, ct |-> 4, ch |-> 0, cb |-> 0]]")
        elif r < 0.5:
            out.append(f"Leaf({rng.choice([1, 3, 6, 9])}, {rng.randrange(12)}, FALSE)")
        else:
            out.append(leaf(rng, pal, rng.randint(1, len(pal))))
            n -= 1
    return "<<" + ", ".join(out) + ">>"


def main():
    args = sys.argv[1:]
    chunked = args[0] == "--chunked"
    out, seed, npal, nfiles, *exports = args[chunked:]
    rng = random.Random(int(seed))
    pal = pick(rng, exports, int(npal), chunked)
    with open(out + ".pickle", "wb") as f:
        pickle.dump(pal, f)
    files = [forest(rng, pal, rng.randint(2, 6)) for _ in range(int(nfiles))]
    with open(out + ".tla", "w") as f:
        f.write("{ " + ",\n".join(files) + " }")


if __name__ == "__main__":
    main()
