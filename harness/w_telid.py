"""Replay of TelId."""
import struct

import eio
from worker import Mismatch

P = {}


def setup(params):
    P.update(params)


def payload(t):
    """types which read on construction"""
    return struct.pack("<i", 0) if t == 1201 else struct.pack("<hhfi", 0, 0, 0, 0) if t == 1205 else b""


def replay(beh, rng, kinds):
    import eventio
    from eventio.simtel import objects as st
    objs = beh["objs"]
    ids = [lo + (hi << 16) for lo, hi in (o["id"] for o in objs)]
    ids = [i - 2**32 if i >= 2**31 else i for i in ids]
    inside = rng.random() < 0.5            # as sub-objects
    data = b"".join(eio.obj(o["t"], o["v"], i, payload(o["t"]), not inside) for o, i in zip(objs, ids))
    if inside:
        data = eio.obj(2010, 0, 1, data, True, sub=True)
    with open("telid.dat", "wb") as f:
        f.write(data)
    with eventio.EventIOFile("telid.dat") as f:
        it = next(f) if inside else f
        for o, i in zip(objs, ids):
            where = f"object of type {o['t']}, version {o['v']}, id {i} (0x{i & 0xffffffff:08x})"
            kinds[o["c"] + (" refused" if o["err"] else "")] = kinds.get(o["c"] + (" refused" if o["err"] else ""), 0) + 1
            try:
                x = next(it)
            except Exception as e:
                if o["err"] and isinstance(e, ValueError):
                    continue
                raise Mismatch(f"{where}: raised {e!r}")
            if o["err"]:
                raise Mismatch(f"{where}: the telescope ids in type and id differ, but it is accepted as {x}")
            c = type(x).__name__
            if c in ("TrackingPosition", "TelescopeEvent") if o["c"] == "-" else c != o["c"]:
                raise Mismatch(f"{where}: read as {c}, expected {o['c']}")
            if x.header.type != o["t"] or x.header.id != i:
                raise Mismatch(f"{where}: header says {x.header.type}, {x.header.id}")
            for k, v in o["a"]:
                if k == "telescope_id=id":
                    k, v = "telescope_id", i
                got = getattr(x, k)
                if got != v:
                    raise Mismatch(f"{where}: {k} is {got}, expected {v}")
            if c in ("TrackingPosition", "TelescopeEvent"):
                cls, tel = getattr(st, c), dict((k, v) for k, v in o["a"]).get("telescope_id")
                if tel is not None:
                    if cls.telid_to_type(tel) != o["t"] or cls.type_to_telid(o["t"]) != tel:
                        raise Mismatch(f"{where}: telid_to_type({tel}) = {cls.telid_to_type(tel)}, type_to_telid({o['t']}) = {cls.type_to_telid(o['t'])}")
                    if c == "TrackingPosition" and cls.id_to_telid(i) != tel:
                        raise Mismatch(f"{where}: id_to_telid({i}) = {cls.id_to_telid(i)}")
                    if c == "TelescopeEvent" and x.global_count != i:
                        raise Mismatch(f"{where}: global_count {x.global_count}")
    return len(objs)
