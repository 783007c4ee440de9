ID = 'c16_adc_list'
PROPERTY = 'C16'
FILE = 'simtel/objects.py'
EDITS = [('            adc_list = adc_list_l & 0x1fff', '            adc_list = adc_list_l & 0x0fff')]
NEEDS = 'zero suppressed ADC sums (list of pixels) of a camera with more than 4096 pixels'
BREAKS = 'sums of pixels above 4095 are attributed to other pixels'
DEMO = r'''
from eventio import EventIOFile
n = 5000

import eventio.simtel.objects as so
def build(pixels):
    p = struct.pack("<i", n) + struct.pack("<h", 1)
    return p
for pix in (7, 4095, 4096, 4999):
    for ver in (3,):
        pay = struct.pack("<i", n) + struct.pack("<h", 1)
        pay += struct.pack("<h", 1) + struct.pack("<H", pix | 0x2000) + svar(1234)
        with EventIOFile(write(ob(2012, 3, 2 + 4096 * 3, pay))) as f:
            a = next(f).parse().reshape(-1)
        nz = a.nonzero()[0].tolist()
        eq((nz, float(a[nz[0]])), ([pix], 1234.0), "pixels with signal")
'''
