ID = 'c17_scaler_sign'
PROPERTY = 'C17'
FILE = 'simtel/objects.py'
EDITS = [("            'scaler': read_array(byte_stream, 'u2', n_pixels),", "            'scaler': read_array(byte_stream, 'i2', n_pixels),")]
NEEDS = 'pixel scalers of 32768 and more in camera monitoring'
BREAKS = 'large pixel scalers become negative'
DEMO = r'''
from eventio import EventIOFile
for ver in (0, 1):
    dims = struct.pack("<hhhh", 0, 3, 1, 1) if ver == 0 else b"".join(map(svar, (0, 3, 1, 1)))
    pay = struct.pack("<hhiii", 1, 1, 7, 5, 6) + dims + struct.pack("<ii", 8, 9) + struct.pack("<3H", 1, 2, 65535) + struct.pack("<3H", 32767, 32768, 65535)
    with EventIOFile(write(ob(2022, ver, 4 + 256 * 16, pay))) as f:
        d = next(f).parse()
    eq([int(x) for x in d["current"]], [1, 2, 65535], "current")
    eq([int(x) for x in d["scaler"]], [32767, 32768, 65535], "scaler")
'''
