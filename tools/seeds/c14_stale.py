ID = 'c14_stale'
PROPERTY = 'C14'
FILE = 'iact/__init__.py'
EDITS = [('            longitudinal = None\n            particles = None\n', "            longitudinal = None\n            if header['event_number'] == 1:\n                particles = None\n")]
NEEDS = 'a file in which a later shower has no particle block while an earlier one has'
BREAKS = 'particles of a previous shower are attached to the next one'
DEMO = r'''
import struct
from eventio import IACTFile
src = objects(real("3_gammas_reuse_5.dat"))
pt = ob(1205, 0, 999999, struct.pack("<hhfi", 999, 999, 1.0, 1) + struct.pack("<8f", *range(8)))
out, n = [], 0
for o in src:
    if o[0] == 1204 and out[-1][0] == 1203:
        n += 1
        if n == 1:
            out.append((1205, pt))
    out.append((o[0], o[3]))
with IACTFile(write(b"".join(x[1] for x in out))) as f:
    got = {}
    for e in f:
        got.setdefault(e.event_number, set()).add(e.particles is not None)
eq(got, {1: {True}, 2: {False}, 3: {False}}, "events with particles")
'''
