ID = 'c21_range_r'
PROPERTY = 'C21'
FILE = 'histograms.py'
EDITS = [("                if hist['type'] in {'R', 'r', 'F', 'D'}:", "                if hist['type'] in {'R', 'F', 'D'}:")]
NEEDS = 'a histogram of type r'
BREAKS = 'ranges and sums of such histograms'
DEMO = r'''
from eventio import EventIOFile
for ty in "RrFD":
    pay = struct.pack("<h", 1) + ty.encode() + struct.pack("<h", 1) + b"t" + struct.pack("<ihhii", 77, 2, 0, 5, 5)
    pay += struct.pack("<ii4f", 1, 2, 0.5, 10.25, 3, 4) + (struct.pack("<10f", *range(10)) + struct.pack("<2f", 8, 9) if ty in "FD" else struct.pack("<2i", 8, 9))
    with EventIOFile(write(ob(100, 2, 0, pay))) as f:
        h = next(f).parse()[0]
    eq((float(h["lower_x"]), float(h["upper_x"]), [float(x) for x in h["data"]]), (0.5, 10.25, [8.0, 9.0]), f"histogram of type {ty}")
'''
