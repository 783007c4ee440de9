ID = 'c02_user_bit'
PROPERTY = 'C02'
FILE = 'header.pyx'
EDITS = [('    VERSION_N_BITS = 12\n', '    VERSION_N_BITS = 11\n')]
NEEDS = 'an object version of 2048 or more'
BREAKS = 'the version field loses its highest bit'
DEMO = r'''
from eventio import EventIOFile
p = write(ob(5000, 4095, 3, b"ab") + ob(5000, 2047, 3, b"ab"))
with EventIOFile(p) as f:
    eq([o.header.version for o in f], [4095, 2047], "versions")
'''
