ID = 'c15_short_array'
PROPERTY = 'C15'
FILE = 'tools.py'
EDITS = [('    return np.frombuffer(f.read(count * dt.itemsize), count=count, dtype=dt)', '    return np.frombuffer(f.read(count * dt.itemsize), dtype=dt)')]
NEEDS = 'a numeric array which ends early at a whole number of elements'
BREAKS = 'fewer elements than announced are returned instead of an error'
DEMO = r'''
from io import BytesIO
from eventio.tools import read_array
eq(read_array(BytesIO(struct.pack("<3h", 1, -2, 3)), "<i2", 3).tolist(), [1, -2, 3], "array")
try:
    a = read_array(BytesIO(struct.pack("<3h", 1, -2, 3)), "<i2", 4)
except Exception:
    pass
else:
    check(False, f"short array accepted: {a}")
'''
