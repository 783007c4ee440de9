ID = 'c18_pixel_id16'
PROPERTY = 'C18'
FILE = 'simtel/objects.py'
EDITS = [("pixel_timing['pixel_list'].astype(np.int32)", "pixel_timing['pixel_list'].astype(np.int16).astype(np.int32)")]
NEEDS = 'pixel timing of version 2 with pixel numbers above 32767'
BREAKS = 'pixel numbers wrap around'
DEMO = r'''
from eventio import EventIOFile
n = 40000
pay = svar(n) + struct.pack("<hhhh", 1, -1, -1, 1) + svar(2) + svar(5) + svar(39999) + struct.pack("<hhhff", 3, 1, 2, 0.5, 0.25) + struct.pack("<f", 1.5)
pay += struct.pack("<hh", 4, 8)
with EventIOFile(write(ob(2016, 2, 3, pay))) as f:
    d = next(f).parse()
eq([int(x) for x in d["pixel_list"]], [5, 39999], "pixel list")
eq([float(d["time"][i][0]) for i in (5, 39999)], [1.0, 2.0], "times")
'''
