ID = 'c27_track_mask'
PROPERTY = 'C27'
FILE = 'simtel/objects.py'
EDITS = [('        self.telescope_id = (\n            (self.header.id & 0xff) | (self.header.id & 0x3f000000) >> 16\n        )', '        self.telescope_id = (\n            (self.header.id & 0xff) | (self.header.id & 0x1f000000) >> 16\n        )')]
NEEDS = 'image parameters of telescope 8192 and above'
BREAKS = 'telescope numbers with their highest bit set'
DEMO = r'''
from eventio import EventIOFile
for tel in (0, 1, 255, 256, 8191, 8192, 16383):
    with EventIOFile(write(ob(2014, 5, (tel & 255) | (tel >> 8) << 24, b"\0" * 100))) as f:
        eq(next(f).telescope_id, tel, "telescope id")
'''
