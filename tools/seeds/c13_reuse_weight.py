ID = 'c13_reuse_weight'
PROPERTY = 'C13'
FILE = 'iact/__init__.py'
EDITS = [("                    weight = array_offsets[reuse]['weight']\n", "                    weight = array_offsets[reuse if split_always else 0]['weight']\n")]
NEEDS = 'importance sampling weights that differ between the uses of a shower'
BREAKS = 'all uses of a shower get the weight of the first one'
DEMO = r'''
import struct
from eventio import IACTFile
src = objects(real("3_gammas_reuse_5.dat"))
out = []
for t, v, i, raw, pay, sub in src:
    if t == 1203:
        n, toff = struct.unpack_from("<if", pay)
        raw = ob(1203, 1, i, pay[:8 + 8 * n] + struct.pack("<%df" % n, *range(1, n + 1)))
    out.append(raw)
with IACTFile(write(b"".join(out))) as f:
    w = [(e.reuse, float(e.reuse_weight)) for e in f]
check(all(r == x for r, x in w), "weights %s" % w)
'''
