"""Pool of payload layouts (exported by Layout) for the replays of files with meaningful contents.

usage: pool.py OUT.pickle SEED EXPORT..."""
import json
import pickle
import random
import sys

LIMIT = 400


def ok(b):
    c = b["case"]
    if b["refuse"] or c.get("chunk"):
        return False
    if sum(r["n"] + len(r["lit"]) for r in b["stored"]) > 400:
        return False
    if b["t"] == 1205 and (c["ids"] == [999, 999]):
        return False
    if b["t"] == 1208 and c["ver"] == 3 and c["fl"] & 4:
        return False
    return True


def main():
    out, seed, *exports = sys.argv[1:]
    rng = random.Random(int(seed))
    pool = {}
    for path in exports:
        with open(path) as f:
            for line in f:
                b = json.loads(json.loads(line))
                c = b["case"]
                if b["t"] == 1205 and c["ids"] == [999, 999] and not c["chunk"]:
                    pool.setdefault("1205part", []).append(b)
                elif ok(b):
                    t = b["t"]
                    name = "2100" if (t - 2100) % 1000 < 100 and t >= 2100 and c.get("t") == 2100 else str(t)
                    pool.setdefault(name, []).append(b)
    # prefer contents which can be told apart
    for k, v in pool.items():
        full = [b for b in v if sum(r["n"] for r in b["stored"]) >= 2]
        if len(full) > 3:
            v = full
        rng.shuffle(v)
        keep = {}
        for b in v:
            key = (b["ver"], b["case"].get("nt"), b["case"].get("nd"), bool(b["case"].get("em")))
            keep.setdefault(key, [])
            if len(keep[key]) < LIMIT // 8:
                keep[key].append(b)
        pool[k] = [b for bs in keep.values() for b in bs]
    with open(out, "wb") as f:
        pickle.dump(pool, f)
    print({k: len(v) for k, v in sorted(pool.items())})


if __name__ == "__main__":
    main()
