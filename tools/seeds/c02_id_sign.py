ID = 'c02_id_sign'
PROPERTY = 'C02'
FILE = 'base.py'
EDITS = [('    extension <<= constants.LENGTH_NUM_BITS\n', '    extension *= 1 << (constants.LENGTH_NUM_BITS - (extension >> 11))\n')]
NEEDS = 'an extended header with the top bit of the 12 bit extension set (objects of 2 TiB or more)'
BREAKS = 'the length of extremely large objects'
DEMO = r'''
from eventio.header import parse_header_bytes
from eventio.base import read_header
import io
b = hdr(5000, 1, 7, (2048 << 30) + 5, False, ext=True)
h = read_header(io.BytesIO(b), 0)
eq(h.content_size, (2048 << 30) + 5, "size")
'''
