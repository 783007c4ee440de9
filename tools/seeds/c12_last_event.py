ID = 'c12_last_event'
PROPERTY = 'C12'
FILE = 'simtel/simtelfile.py'
EDITS = [('            if isinstance(e, EOFError):\n                warnings.warn(str(e))\n', "            if isinstance(e, EOFError):\n                warnings.warn(str(e))\n                if self.current_event is not None and not self.current_event.get('telescope_events'):\n                    self.current_event = None\n")]
NEEDS = 'a truncated file whose last, started event has no telescope data (yet), read with skip_non_triggered=False'
BREAKS = 'the last event of a truncated file is lost'
DEMO = r'''
from eventio.simtel import SimTelFile
src = objects(real("gamma_with_obslevel_particles.simtel.zst"))
i = [k for k, o in enumerate(src) if o[0] == 2021][0]
data = b"".join(o[3] for o in src[:i + 1]) + b"".join(o[3] for o in src[i + 1:])[:10]
with SimTelFile(write(data), skip_non_triggered=False) as f:
    n = [e["event_id"] for e in f]
eq(n, [src[i][2]], "events")
'''
