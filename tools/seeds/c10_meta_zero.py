ID = 'c10_meta_zero'
PROPERTY = 'C10'
FILE = 'simtel/simtelfile.py'
EDITS = [('            if o.header.id == -1:\n', '            if o.header.id <= 0:\n')]
NEEDS = 'meta parameters of a telescope with id 0'
BREAKS = 'they replace the global meta parameters'
DEMO = r'''
from eventio.simtel import SimTelFile
src = objects(real("gamma_with_obslevel_particles.simtel.zst"))
meta = lambda i, k: ob(75, 0, i, uvar(1) + uvar(len(k)) + k + uvar(1) + b"v")
i = [k for k, o in enumerate(src) if o[0] == 2000][0]
data = b"".join(o[3] for o in src[:i] if o[0] != 75) + meta(-1, b"glob") + meta(0, b"tel0") + meta(3, b"tel3") + b"".join(o[3] for o in src[i:])
with SimTelFile(write(data)) as f:
    eq(f.global_meta, {b"glob": b"v"}, "global")
    eq(f.telescope_meta, {0: {b"tel0": b"v"}, 3: {b"tel3": b"v"}}, "telescopes")
'''
