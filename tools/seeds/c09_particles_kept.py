ID = 'c09_particles_kept'
PROPERTY = 'C09'
FILE = 'simtel/simtelfile.py'
EDITS = [('            if self.current_obslev_particles is not None:\n                self.current_event["observation_level_particles"] = self.current_obslev_particles\n', '            if self.current_obslev_particles is not None:\n                self.current_event["observation_level_particles"] = self.current_obslev_particles\n                self.current_obslev_particles = None\n')]
NEEDS = 'a shower with particles at observation level which is used several times'
BREAKS = 'only the first use of a shower gets its particles'
DEMO = r'''
from eventio.simtel import SimTelFile
d = real("gamma_with_obslevel_particles.simtel.zst")
os_ = objects(d)
out = []
for o in os_:
    out.append(o[3])
    if o[0] == 2021:   # every event is written a second time with another id
        out.append(ob(2021, o[1], o[2] + 50, o[4]))
with SimTelFile(write(b"".join(out)), skip_non_triggered=False) as f:
    for e in f:
        check("observation_level_particles" in e, "event %d has no particles" % e["event_id"])
'''
