ID = 'c04_falsy_object'
PROPERTY = 'C04'
FILE = 'base.py'
EDITS = [('        if self.next is not None:\n            o, self.next = self.next, None\n            return o\n', '        o, self.next = self.next, None\n        if o:\n            return o\n')]
NEEDS = 'peek at an object that is false in a boolean context (a telescope definition without telescopes)'
BREAKS = 'the peeked object is dropped by next'
DEMO = r'''
import struct
from eventio import EventIOFile
p = write(ob(5000, 1, 1, b"abcdef") + ob(1201, 0, 2, struct.pack("<i", 0)) + ob(5000, 1, 3, b"jkl"))
with EventIOFile(p) as f:
    got = []
    while f.peek() is not None:
        got.append(next(f).header.id)
eq(got, [1, 2, 3], "objects")
'''
