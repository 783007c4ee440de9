ID = 'c20_negative_height'
PROPERTY = 'C20'
FILE = 'iact/objects.py'
EDITS = [("        data['photons'] *= 0.01\n", "        data['photons'] = np.abs(data['photons']) * 0.01\n")]
NEEDS = 'compact photon bunches with a negative number of photons'
BREAKS = 'the sign of the photons of compact bunches'
DEMO = r'''
from eventio import EventIOFile
pay = struct.pack("<hhfi", 0, 1, 500.0, 2) + struct.pack("<8h", 1, 2, 3, 4, 5, 6, 700, 400) + struct.pack("<8h", 1, 2, 3, 4, 5, 6, -700, 400)
with EventIOFile(write(ob(1205, 1000, 1, pay))) as f:
    ph, em = next(f).parse()
eq([round(float(x), 4) for x in ph["photons"]], [7.0, -7.0], "photons")
'''
