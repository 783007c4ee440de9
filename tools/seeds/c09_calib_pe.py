ID = 'c09_calib_pe'
PROPERTY = 'C09'
FILE = 'simtel/simtelfile.py'
EDITS = [('                self.current_event["photoelectrons"] = self._current_calib_pe\n                self._current_calib_pe = None\n', '                self.current_event["photoelectrons"] = self._current_calib_pe\n')]
NEEDS = 'a calibration event without photo-electrons behind one which has some'
BREAKS = 'it gets the photo-electrons of the earlier one'
DEMO = r'''
from eventio.simtel import SimTelFile
src = objects(real("calib_true_pe.simtel.zst"))
k = [j for j, o in enumerate(src) if o[0] == 2034]
data = b"".join(o[3] for j, o in enumerate(src) if j not in k[1:])
with SimTelFile(write(data), skip_non_triggered=False) as f:
    c = ["photoelectrons" in e for e in f if e["type"] == "calibration"]
check(len(c) > 1, "calibration events")
eq(sum(c), 1, "calibration events with photo-electrons")
'''
