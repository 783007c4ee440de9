ID = 'c11_filter_zero'
PROPERTY = 'C11'
FILE = 'simtel/simtelfile.py'
EDITS = [('        if allowed_telescopes:\n            self.allowed_telescopes = set(allowed_telescopes)\n', '        if allowed_telescopes:\n            self.allowed_telescopes = set(int(t) & 0xff for t in allowed_telescopes)\n')]
NEEDS = 'telescope ids of 256 and more in allowed_telescopes'
BREAKS = 'such telescopes are lost and others are let through'
DEMO = r'''
import eventio.simtel.simtelfile as m
from eventio.simtel import SimTelFile
f = SimTelFile(os.path.join(RES, "calib_events.simtel.gz"), allowed_telescopes=[300])
ids = set()
for e in f:
    ids |= set(e.get("telescope_events", {}))
check(ids <= {300}, "telescopes %s passed the filter {300}" % ids)
eq(f.allowed_telescopes, {300}, "allowed")
'''
