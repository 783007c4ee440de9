ID = 'c06_sync_partial'
PROPERTY = 'C06'
FILE = 'base.py'
EDITS = [("    if length < expected_length:\n        raise EOFError('File seems to be truncated')\n\n\ndef read_sync", "    if length < expected_length:\n        if zero_ok:\n            raise StopIteration\n        raise EOFError('File seems to be truncated')\n\n\ndef read_sync")]
NEEDS = 'a file cut inside the 4 byte sync marker of a top-level object'
BREAKS = 'a file cut within a sync marker ends as if it was complete'
DEMO = r'''
from eventio import EventIOFile
d = ob(5000, 1, 1, b"abcdef") + ob(5000, 1, 2, b"ghi")
for n in range(1, 4):
    p = write(d[:4 + 12 + 6 + n])
    with EventIOFile(p) as f:
        next(f)
        try:
            next(f)
            check(False, "no error")
        except EOFError:
            pass
        except StopIteration:
            check(False, "cut in the sync marker is reported as the end of the file")
'''
