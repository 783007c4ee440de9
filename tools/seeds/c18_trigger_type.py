ID = 'c18_trigger_type'
PROPERTY = 'C18'
FILE = 'simtel/objects.py'
EDITS = [('                if bit_count(int(mask) & 0b1111) > 1:', '                if bit_count(int(mask) & 0b0111) > 1:')]
NEEDS = 'a telescope which triggered by two types one of which is the fourth one'
BREAKS = 'trigger times by type are lost and the following data misread'
DEMO = r'''
from eventio import EventIOFile
for masks in ([3], [8], [5, 10], [15], [9, 1]):
    n = len(masks)
    times = {i + 1: {b: 10.0 * i + b for b in range(4) if m >> b & 1} for i, m in enumerate(masks) if bin(m).count("1") > 1}
    pay = struct.pack("<6i", 1, 2, 3, 4, 5, 6) + struct.pack("<h", n) + struct.pack(f"<{n}h", *range(1, n + 1)) + struct.pack(f"<{n}f", *[1.5] * n) + struct.pack("<h", 0)
    pay += b"".join(map(uvar, masks)) + b"".join(struct.pack("<f", t) for x in times.values() for t in x.values()) + struct.pack("<3f", 1, 2, 3)
    with EventIOFile(write(ob(2009, 3, 12, pay))) as f:
        d = next(f).parse()
    eq({int(t): {int(k): float(v) for k, v in x.items()} for t, x in d["teltrg_time_by_type"].items()}, times, f"times of {masks}")
    eq(float(d["plane_wavefront_compensation"]["alt"]), 2.0, "altitude")
'''
