"""Independent scan of real sim_telarray files into the block sequences of SimTel.tla.

usage: scan.py OUT.ndjson MAXBLOCKS FILE...    (in the environment of the worker: tells emitter blocks apart with the low-level parse)"""
import gzip
import json
import struct
import sys

import zstandard

KINDS = {75: "TM", 2000: "RH", 2001: "MR", 1212: "IC", 1216: "AP", 2002: "CS", 2003: "CO", 2004: "PS", 2005: "DP", 2006: "SW", 2008: "DS", 2007: "PC",
         2022: "CM", 2023: "LC", 2033: "PM", 2020: "MS", 1205: "PA", 2021: "ME", 1204: "TD", 2026: "SU", 2010: "AE", 2034: "CP", 2028: "CE", 100: "HG", 70: "HI"}
PART = {2011: "HD", 2012: "SS", 2013: "SA", 2016: "PT", 2014: "IP", 2032: "TT"}


def load(path):
    with open(path, "rb") as f:
        d = f.read()
    if d[:2] == b"\x1f\x8b":
        import zlib
        out = b""
        while d:
            z = zlib.decompressobj(31)
            out += z.decompress(d)
            d = z.unused_data
            if not z.eof:
                break
        return out
    if d[:4] == b"\x28\xb5\x2f\xfd":
        out = b""
        with zstandard.ZstdDecompressor().stream_reader(d, read_across_frames=True) as r:
            while True:
                x = r.read(1 << 20)
                if not x:
                    return out
                out += x
    return d


class Obj:
    __slots__ = ("type", "ver", "id", "sub", "start", "addr", "size", "kids", "kk")


def objects(d, lo, hi, top):
    """objects in d[lo:hi]; the last one may be incomplete"""
    out = []
    p = lo
    while p < hi:
        o = Obj()
        o.start = p
        n = 16 if top else 12
        if p + n > hi:
            break
        if top:
            if d[p:p + 4] != b"\x37\x8a\x1f\xd4":
                raise Unexpected("no sync marker")
            p += 4
        w, o.id, ln = struct.unpack_from("<IiI", d, p)
        p += 12
        o.type, o.ver = w & 0xFFFF, w >> 20
        o.sub = bool(ln & 1 << 30)
        o.size = ln & 0x3FFFFFFF
        if w & 1 << 17:
            if p + 4 > hi:
                break
            o.size += (struct.unpack_from("<I", d, p)[0] & 0xFFF) << 30
            p += 4
        o.addr = p
        p += o.size
        o.kids = objects(d, o.addr, p, False) if o.sub and p <= len(d) else []
        out.append(o)
    return out


def telid(t, base):
    return (t - base) % 1000 + 100 * ((t - base) // 1000)


def unsplit(id):
    return (id & 0xFF) | (id >> 24 & 0x3F) << 8


class Unexpected(Exception):
    pass


def array_event(d, o):
    x = dict(trig=0, ids=[], parts=[], tracks=[], st=False)
    stage = 0
    for i, k in enumerate(o.kids):
        if i == 0:
            if k.type != 2009:
                raise Unexpected("no trigger information")
            x["trig"] = k.id
        elif (k.type - 2200) % 1000 < 100 and k.type >= 2200:
            if stage > 0:
                raise Unexpected("order")
            x["ids"].append(telid(k.type, 2200))
            parts = []
            for q in k.kids:
                if q.type == 2027:
                    parts.append(f"L{q.id // 1000000}")
                elif q.type in (2029, 2030):
                    parts.append("A" + str(q.id))
                else:
                    parts.append(PART.get(q.type, "?"))
            x["parts"].append(parts)
        elif (k.type - 2100) % 1000 < 100 and k.type >= 2100:
            if stage > 1:
                raise Unexpected("order")
            stage = 1
            x["tracks"].append(telid(k.type, 2100))
        elif k.type == 2015:
            stage = 2
            x["st"] = True
        else:
            raise Unexpected(k.type)
    return x


def tdata(d, o, emits):
    x = []
    for k in o.kids:
        tel = k.id % 1000
        if k.type == 1208:
            x.append(dict(k="PE", tel=tel))
        elif k.type == 1205:
            x.append(dict(k="EM" if emits(k) else "PH", tel=tel))
        else:
            raise Unexpected(k.type)
    return x


def blocks(d, tops, emits):
    out = []
    for o in tops:
        b = dict(k=KINDS.get(o.type, "UN"), tel=0, id=0, x=[])
        k = b["k"]
        if k == "TM":
            b["tel"] = b["id"] = o.id
            if o.id == -1:
                b["k"] = "GM"
        elif k == "HI":
            b["id"] = len(o.kids)
        elif k == "RH":
            ver = o.ver
            off = 4 * 4 + (4 if ver >= 2 else 0) + 8 + 8 + 4 + (8 if ver >= 1 else 0)
            b["id"] = struct.unpack_from("<i", d, o.addr + off)[0]
        elif k in ("CS", "CO", "PS", "DP", "SW", "DS", "PC", "LC", "PM"):
            b["tel"] = b["id"] = o.id
        elif k == "CM":
            b["tel"] = b["id"] = unsplit(o.id)
        elif k == "ME":
            b["id"] = o.id
        elif k == "AE":
            b["id"], b["x"] = o.id, array_event(d, o)
        elif k == "CE":
            b["tel"], b["id"], b["x"] = o.id, o.kids[0].id, array_event(d, o.kids[0])
        elif k == "TD":
            b["x"] = tdata(d, o, emits)
        elif k == "CP":
            b["x"] = tdata(d, o.kids[0], emits)
        elif k == "PA" and o.id != 999999:
            raise Unexpected("photons at top level")
        out.append(b)
    return out


def emitter_rows(d):
    def emits(o):
        if o.ver // 1000 == 1:
            return False
        n = struct.unpack_from("<i", d, o.addr + 8)[0]
        return any(struct.unpack_from("<f", d, o.addr + 12 + 32 * i + 28)[0] == 9999 for i in range(n))
    return emits


def main():
    out, most, *files = sys.argv[1:]
    with open(out, "w") as f:
        for path in files:
            try:
                d = load(path)
                tops = objects(d, 0, len(d), True)
                if tops and tops[-1].addr + tops[-1].size > len(d):
                    tops.pop()
                tops = tops[:int(most)]
                if not any(o.type == 2000 for o in tops):
                    continue
                bs = blocks(d, tops, emitter_rows(d))
            except Unexpected as e:
                print("skipped", path, e)
                continue
            tels = sorted({b["tel"] for b in bs if b["k"] == "CS"})
            f.write(json.dumps(dict(path=path, tels=tels, file=bs, size=tops[-1].addr + tops[-1].size)) + "\n")
            print(path, len(bs))


if __name__ == "__main__":
    main()
