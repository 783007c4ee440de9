ID = 'c09_same_number'
PROPERTY = 'C09'
FILE = 'simtel/simtelfile.py'
EDITS = [('            self.current_mc_shower = o.parse()\n', '''            # several uses of a shower share its data
            if self.current_mc_shower is None or self.current_mc_shower["shower"] != o.header.id:
                self.current_mc_shower = o.parse()
''')]
NEEDS = 'two consecutive showers with the same number (merged files)'
BREAKS = 'the events of the second shower get the data of the first one'
DEMO = r'''
from eventio.simtel import SimTelFile
src = objects(real("gamma_with_obslevel_particles.simtel.zst"))
i = [k for k, o in enumerate(src) if o[0] == 2020][0]
t, v, n, raw, pay, sub = src[i]
ev = [o for o in src if o[0] == 2021][0]
other = ob(2020, v, n, pay[:4] + struct.pack("<f", 77.5) + pay[8:])
data = b"".join(o[3] for o in src[:i]) + raw + ev[3] + other + ob(2021, ev[1], ev[2] + 1, ev[4])
with SimTelFile(write(data), skip_non_triggered=False) as f:
    e = [x["mc_shower"]["energy"] for x in f]
eq(e, [struct.unpack("<f", pay[4:8])[0], 77.5], "energies")
'''
