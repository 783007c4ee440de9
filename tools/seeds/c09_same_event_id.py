ID = 'c09_same_event_id'
PROPERTY = 'C09'
FILE = 'simtel/simtelfile.py'
EDITS = [('            # a new event started, return previous\n            event = self.current_event\n', '''            # a new event started, return previous
            event = self.current_event
            if event is not None and event["event_id"] == o.header.id:
                event = None
''')]
NEEDS = 'two consecutive events with the same id (of different runs in a merged file)'
BREAKS = 'the first of the two is lost'
DEMO = r'''
from eventio.simtel import SimTelFile
src = objects(real("gamma_with_obslevel_particles.simtel.zst"))
i = [k for k, o in enumerate(src) if o[0] == 2021][0]
me = src[i]
data = b"".join(o[3] for o in src[:i]) + me[3] * 3
with SimTelFile(write(data), skip_non_triggered=False) as f:
    n = [e["event_id"] for e in f]
eq(n, [me[2]] * 3, "event ids")
'''
