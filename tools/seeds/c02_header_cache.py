ID = 'c02_header_cache'
PROPERTY = 'C02'
FILE = 'header.pyx'
EDITS = [('cpdef ObjectHeader parse_header_bytes(const uint8_t[:] header_bytes, bint toplevel=0):', '''_known = {}


def parse_header_bytes(header_bytes, toplevel=False):
    \'\'\'many objects have identical header bytes\'\'\'
    key = bytes(header_bytes), bool(toplevel)
    if key not in _known:
        _known[key] = _parse_header_bytes(header_bytes, toplevel)
    return _known[key]


cpdef ObjectHeader _parse_header_bytes(const uint8_t[:] header_bytes, bint toplevel=0):''')]
NEEDS = 'two objects with the same header bytes of which the first is kept, or an extended header which is seen twice'
BREAKS = 'the address (and size) in the header of the first object changes when the second one is read'
DEMO = r'''
from eventio import EventIOFile
data = ob(9000, 0, 1, b"first") + ob(9000, 0, 1, b"other") + ob(9000, 0, 1, b"third")
with EventIOFile(write(data)) as f:
    kept = list(f)
    eq([o.header.content_address for o in kept], [16, 37, 58], "addresses")
'''
