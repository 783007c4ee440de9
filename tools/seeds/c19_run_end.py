ID = 'c19_run_end'
PROPERTY = 'C19'
FILE = 'iact/objects.py'
EDITS = [('        if n != 3:', '        if n < 3:')]
NEEDS = 'a run end block with more words than its fixed number'
BREAKS = 'blocks of the wrong length are accepted as run end'
DEMO = r'''
from eventio import EventIOFile
from eventio.exceptions import WrongSize
with EventIOFile(write(ob(1210, 0, 1, struct.pack("<i4s2f", 3, b"RUNE", 7.0, 12.0)))) as f:
    next(f).parse()
with EventIOFile(write(ob(1210, 0, 1, struct.pack("<i4s3f", 4, b"RUNE", 7.0, 12.0, 3.0)))) as f:
    try:
        r = next(f).parse()
    except WrongSize:
        pass
    else:
        check(False, f"accepted: {r}")
'''
