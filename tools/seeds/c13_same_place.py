ID = 'c13_same_place'
PROPERTY = 'C13'
FILE = 'iact/__init__.py'
EDITS = [('            n_reuses = len(array_offsets)\n', '            n_reuses = len({tuple(row) for row in array_offsets.tolist()})\n')]
NEEDS = 'a shower used several times at the same place'
BREAKS = 'the file cannot be read (the second use is not expected)'
DEMO = r'''
from eventio import IACTFile
src = objects(real("3_gammas_reuse_5.dat"))
out = []
for o in src:
    if o[0] == 1203:
        out.append(ob(1203, o[1], o[2], o[4][:8] + bytes(len(o[4]) - 8)))
    else:
        out.append(o[3])
with IACTFile(write(b"".join(out))) as f:
    n = [(e.event_number, e.reuse) for e in f]
eq(len(n), sum(o[0] == 1204 for o in src), "number of events")
'''
