ID = 'c03_seek_end'
PROPERTY = 'C03'
FILE = 'base.py'
EDITS = [('            if offset > self.size:\n                offset = self.size\n', '            if offset >= self.size:\n                offset = self.size - 1\n')]
NEEDS = 'seek relative to the end by exactly (or more than) the size of the object'
BREAKS = 'seeking to the start of the payload from its end'
DEMO = r'''
from eventio import EventIOFile
p = write(ob(5000, 1, 7, b"abcdef"))
with EventIOFile(p) as f:
    o = next(f)
    eq(o.seek(6, 2), 0, "seek(6, 2)")
    eq(o.read(), b"abcdef", "read")
'''
