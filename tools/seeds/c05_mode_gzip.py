ID = 'c05_mode_gzip'
PROPERTY = 'C05'
FILE = 'base.py'
EDITS = [('    def seek(self, position, whence=0):\n        return self._filehandle.seek(position, whence)\n\n    def tell(self):', '    def seek(self, position, whence=0):\n        if self.read_process is not None and position <= self._filehandle.tell():\n            return self._filehandle.tell()\n        return self._filehandle.seek(position, whence)\n\n    def tell(self):')]
NEEDS = 'seeking backwards (or relative) in a gzip compressed file'
BREAKS = 'a backwards seek on forward-only storage is silently ignored'
DEMO = r'''
import gzip
from eventio import EventIOFile
d = ob(5000, 1, 1, b"abcdef") + ob(5000, 1, 2, b"ghi")
p = write(gzip.compress(d), "x.gz")
with EventIOFile(p) as f:
    f.read(30)
    try:
        f.seek(5)
        got = f.read(4)
        eq(got, d[5:9], "bytes after seek")
    except OSError:
        pass
'''
