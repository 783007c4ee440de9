ID = 'c07_sync_scan'
PROPERTY = 'C07'
FILE = 'base.py'
EDITS = [("    raise ValueError(\n        'Sync must be 0xD41F8A37 or 0x378A1FD4. Got: {}'.format(sync)\n    )\n", "    if sync[:3] == constants.SYNC_MARKER_LITTLE_ENDIAN[:3]:\n        return '<'\n\n    raise ValueError(\n        'Sync must be 0xD41F8A37 or 0x378A1FD4. Got: {}'.format(sync)\n    )\n")]
NEEDS = 'a later sync marker of which only the last byte is wrong'
BREAKS = 'damaged sync markers are accepted'
DEMO = r'''
from eventio import EventIOFile
d = ob(5000, 1, 1, b"abcdef") + b"\x37\x8a\x1f\xd5" + ob(5000, 1, 2, b"ghi")[4:]
with EventIOFile(write(d)) as f:
    next(f)
    try:
        next(f)
        check(False, "damaged marker accepted")
    except ValueError:
        pass
'''
