ID = 'c01_nested_extended'
PROPERTY = 'C01'
FILE = 'header.pyx'
EDITS = [('    if header.extended:\n        header.header_size', '    if header.extended and (toplevel or not only_subobjects):\n        header.header_size')]
NEEDS = 'a container with extension field nested in another container'
BREAKS = 'addresses and sizes of nested containers with extended headers'
DEMO = r'''
from eventio import EventIOFile
p = write(box(5999, 0, 1, box(5001, 0, 2, ob(5005, 0, 9, b"abcd", False), top=False, ext=True), ob(5002, 0, 3, b"", False)))
with EventIOFile(p) as f:
    got = [(o.header.type, [s.header.type for s in o] if o.header.only_subobjects else None) for o in next(f)]
eq(got, [(5001, [5005]), (5002, None)], "objects")
'''
