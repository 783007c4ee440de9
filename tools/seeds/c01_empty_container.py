ID = 'c01_empty_container'
PROPERTY = 'C01'
FILE = 'base.py'
EDITS = [('        if self._next_header_pos >= self.size:\n            raise StopIteration\n', '        if self._next_header_pos + constants.OBJECT_HEADER_SIZE >= self.size:\n            raise StopIteration\n')]
NEEDS = 'a container whose last sub-object has an empty payload and no extension field'
BREAKS = 'the last, empty sub-object of a container is never visited'
DEMO = r'''
from eventio import EventIOFile
p = write(box(5999, 0, 1, ob(5001, 0, 2, b"abcd", False), ob(5002, 0, 3, b"", False)) + ob(5003, 0, 4, b"xyz"))
with EventIOFile(p) as f:
    got = [(o.header.type, [s.header.type for s in o] if o.header.only_subobjects else None) for o in f]
eq(got, [(5999, [5001, 5002]), (5003, None)], "objects")
'''
