ID = 'c23_subobjects_parse'
PROPERTY = 'C23'
FILE = 'iact/objects.py'
EDITS = [('        bunches = np.frombuffer(\n            self.read(count * dtype.itemsize),\n            dtype=dtype,\n            count=count\n        )\n', "        if chunksize is None and getattr(self, '_bunches', None) is not None:\n            return self._bunches\n        bunches = np.frombuffer(\n            bytearray(self.read(count * dtype.itemsize)),\n            dtype=dtype,\n            count=count\n        )\n"), ('            bunches = self.parse_compact(bunches)\n\n        return bunches', '            bunches = self.parse_compact(bunches)\n\n        if chunksize is None:\n            self._bunches = bunches\n        return bunches')]
NEEDS = 'a block of photons parsed twice with the result of the first time changed in between'
BREAKS = 'the second result shares memory with the first one'
DEMO = r'''
from eventio import EventIOFile
pay = struct.pack("<hhfi", 0, 1, 500.0, 2) + struct.pack("<16h", *range(16))
with EventIOFile(write(ob(1205, 1000, 1, pay))) as f:
    o = next(f)
    a, _ = o.parse()
    want = a.tolist()
    a["x"] += 1000
    b, _ = o.parse()
    eq(b.tolist(), want, "second result")
'''
