ID = 'c20_chunks'
PROPERTY = 'C20'
FILE = 'iact/objects.py'
EDITS = [('        if last_chunksize == 0:\n            last_chunksize = chunksize\n', '        if last_chunksize == 0 or n_chunks == 2:\n            last_chunksize = chunksize\n')]
NEEDS = 'photon bunches read in two chunks the second of which is smaller'
BREAKS = 'the second chunk cannot be read'
DEMO = r'''
from eventio import EventIOFile
rows = [[float(10 * i + k) for k in range(8)] for i in range(5)]
pay = struct.pack("<hhfi", 0, 1, 500.0, 5) + b"".join(struct.pack("<8f", *r) for r in rows)
for size in (1, 2, 3, 4, 5, 6, 7, 100):
    with EventIOFile(write(ob(1205, 0, 1, pay))) as f:
        got = [[float(x) for x in r] for ph, em in next(f).parse(chunksize=size) for r in ph.tolist()]
    eq(got, rows, f"rows in chunks of {size}")
'''
