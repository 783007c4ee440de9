ID = 'c12_partial_photons'
PROPERTY = 'C12'
FILE = 'simtel/simtelfile.py'
EDITS = [('            self.current_event.update(parse_telescope_data(o))\n', '            parse_telescope_data(o, self.current_event)\n'),
         ("def parse_telescope_data(telescope_data):", "def parse_telescope_data(telescope_data, data=None):"),
         ('    data = defaultdict(dict)\n    for o in telescope_data:\n        if isinstance(o, iact.PhotoElectrons):\n            data["photoelectrons"][o.telescope_id]', '    if data is None:\n        data = {}\n    for o in telescope_data:\n        if isinstance(o, iact.PhotoElectrons):\n            data.setdefault("photoelectrons", {})[o.telescope_id]'),
         ('            data["photons"][o.telescope_id] = p', '            data.setdefault("photons", {})[o.telescope_id] = p'),
         ('                data["emitter"][o.telescope_id] = e', '                data.setdefault("emitter", {})[o.telescope_id] = e')]
NEEDS = 'a file cut inside the Cherenkov light block of an event, behind its first telescope'
BREAKS = 'the last event of the truncated file pretends that only some telescopes saw light'
DEMO = r'''
from eventio.simtel import SimTelFile
src = objects(real("gamma_with_obslevel_particles.simtel.zst"))
i = [k for k, o in enumerate(src) if o[0] == 2021][0]
bunch = lambda tel: ob(1205, 0, tel, struct.pack("<hhfi", 0, tel, 1.0, 1) + struct.pack("<8f", *range(8)), False)
full = box(1204, 0, src[i][2], *[bunch(t) for t in range(4)])
head = b"".join(o[3] for o in src[:i + 1])
with SimTelFile(write(head + full), skip_non_triggered=False) as f:
    eq([sorted(e["photons"]) for e in f], [[0, 1, 2, 3]], "photons of the complete file")
with SimTelFile(write(head + full[:-20]), skip_non_triggered=False) as f:
    eq(["photons" in e for e in f], [False], "photons of the truncated file")
'''
