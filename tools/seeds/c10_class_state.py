ID = 'c10_class_state'
PROPERTY = 'C10'
FILE = 'simtel/simtelfile.py'
EDITS = [("""    def __init__(
        self,
        path,
        skip_non_triggered=True,
        skip_calibration=False,
""", """    # accumulated from the monitoring blocks
    camera_monitorings = defaultdict(dict)

    def __init__(
        self,
        path,
        skip_non_triggered=True,
        skip_calibration=False,
"""), ("        self.camera_monitorings = defaultdict(dict)\n", "        self.camera_monitorings.clear()\n")]
NEEDS = 'two files open at the same time, a monitoring block of the one between two events of the other'
BREAKS = 'events get the camera monitoring of another file'
DEMO = r'''
import struct
from eventio.simtel import SimTelFile
src = objects(real("gamma_with_obslevel_particles.simtel.zst"))
head = [o for o in src if o[0] in (70, 75, 2000, 2001, 1212, 1216, 2002, 2003, 2004, 2005, 2006, 2007, 2008)]
def made(ids):
    # monitoring block, mc shower and mc event, array event
    cm = next(o for o in src if o[0] == 2022)
    ae = next(o for o in src if o[0] == 2010)
    ms = next(o for o in src if o[0] == 2020)
    me = next(o for o in src if o[0] == 2021)
    hs = [o[3] for o in head]
    out = []
    for i in ids:
        b = bytearray(cm[3])
        out += [bytes(b[:16 + 4]) + struct.pack("<i", i) + bytes(b[16 + 8:]), ms[3], me[3], ae[3]]
    return b"".join(hs + out), cm[2] & 0xff | (cm[2] & 0x3f000000) >> 16
a, tel = made([1, 2])
b, _ = made([11, 12])
seen = []
with SimTelFile(write(a, "a.simtel"), skip_non_triggered=False) as f, SimTelFile(write(b, "b.simtel"), skip_non_triggered=False) as g:
    for x, y in zip(f, g):
        seen.append([e["camera_monitorings"][tel]["monitor_id"] for e in (x, y) if tel in e.get("camera_monitorings", {})])
eq(seen, [[1, 11], [2, 12]], "monitoring of two files")
'''
