ID = 'c22_timing_version'
PROPERTY = 'C22'
FILE = 'simtel/objects.py'
EDITS = [('        assert_version_in(self, supported_versions={1, 2})\n        self.seek(0)\n        byte_stream = BytesIO(self.read())\n\n        pixel_timing = {}', '        assert_version_in(self, supported_versions={1, 2, 3})\n        self.seek(0)\n        byte_stream = BytesIO(self.read())\n\n        pixel_timing = {}')]
NEEDS = 'a pixel timing block of a later version'
BREAKS = 'a block of unknown layout is read as if its layout was known'
DEMO = r'''
from eventio import EventIOFile
n = 3
pay = svar(n) + struct.pack("<hhhh", 1, -1, -1, 1) + svar(1) + svar(1) + struct.pack("<hhhff", 3, 1, 2, 0.5, 0.25) + struct.pack("<f", 1.5) + struct.pack("<h", 4)
for v in (2, 3, 4):
    with EventIOFile(write(ob(2016, v, 3, pay))) as f:
        try:
            next(f).parse()
        except NotImplementedError:
            eq(v > 2, True, f"version {v} refused")
        else:
            eq(v <= 2, True, f"version {v} accepted")
'''
