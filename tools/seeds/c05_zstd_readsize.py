ID = 'c05_zstd_readsize'
PROPERTY = 'C05'
FILE = 'base.py'
EDITS = [("            if to_read < 0:\n                raise IOError('Only forward seeking possible')\n            self.pos += len(self.pipe.read(to_read))\n\n        if whence == 1:", "            if to_read < 0:\n                raise IOError('Only forward seeking possible')\n            if to_read > 1 << 24:\n                self.pos += len(self.pipe.read1(to_read))\n            else:\n                self.pos += len(self.pipe.read(to_read))\n\n        if whence == 1:")]
NEEDS = 'a gzip compressed file read through the external process, skipping more than 16 MiB at once'
BREAKS = 'skipping over very large payloads of compressed files'
DEMO = r'''
import gzip
from eventio import EventIOFile
big = bytes(20 << 20)
p = write(gzip.compress(ob(5000, 1, 1, big) + ob(5000, 1, 2, b"ghi"), 1), "x.gz")
with EventIOFile(p) as f:
    eq([x.header.id for x in f], [1, 2], "objects")
'''
