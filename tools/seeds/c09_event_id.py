ID = 'c09_event_id'
PROPERTY = 'C09'
FILE = 'simtel/simtelfile.py'
EDITS = [('            if o.header.id != 0:\n                event["event_id"] = o.header.id\n', '            if o.header.id > 0:\n                event["event_id"] = o.header.id\n')]
NEEDS = 'an event number beyond 2^31 (negative as stored) in the trigger information that differs from the one of the array event'
BREAKS = 'the event id of such events'
DEMO = r'''
from eventio.simtel import SimTelFile
import eventio.simtel.simtelfile as m
from eventio import EventIOFile
d = real("gamma_test_mc_shower.npy") if False else None
src = objects(real("gamma_with_obslevel_particles.simtel.zst"))
ae = [o for o in src if o[0] == 2010][0]
subs = objects(ae[4], top=False)
new = []
for t, v, i, raw, pay, sub in subs:
    new.append(ob(t, v, -5 if t == 2009 else i, pay, False, sub=sub))
p = write(box(2010, 0, 17, *new))
with EventIOFile(p) as f:
    ev = m.parse_array_event(next(f))
eq(ev["event_id"], -5, "event id")
'''
