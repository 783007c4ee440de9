ID = 'c10_shared_monitoring'
PROPERTY = 'C10'
FILE = 'simtel/simtelfile.py'
EDITS = [('telescope_id: copy(self.camera_monitorings[telescope_id])', 'telescope_id: self.camera_monitorings[telescope_id]')]
NEEDS = 'a camera monitoring block between two events and an earlier event kept while reading on'
BREAKS = 'monitoring data of events already delivered changes afterwards'
DEMO = r'''
from eventio.simtel import SimTelFile
src = objects(real("lst_muons_with_true_photons.simtel.zst"))
with SimTelFile(write(b"".join(o[3] for o in src)), skip_non_triggered=False) as f:
    tel = [e for e in f if e.get("telescope_events")][0]
tid = sorted(tel["telescope_events"])[0]
mon = lambda bits: ob(2022, 0, tid + 256, struct.pack("<hhiiihhhhiii", 1, 1, 7, 5, 6, 0, 1, 1, 1, 11, 12, bits))
out = []
for o in src:
    if o[0] == 2020:
        out.append(mon(len(out)))
    out.append(o[3])
with SimTelFile(write(b"".join(out)), skip_non_triggered=False) as f:
    kept, then = [], []
    for e in f:
        kept.append(e)
        then.append({k: v.get("status_bits") for k, v in e.get("camera_monitorings", {}).items()})
check(any(then), "some monitoring")
eq([{k: v.get("status_bits") for k, v in e.get("camera_monitorings", {}).items()} for e in kept], then, "monitoring of the kept events")
check(len(set(str(t) for t in then if t)) > 1, "different monitoring")
'''
