ID = 'c16_pixel_zero'
PROPERTY = 'C16'
FILE = 'simtel/objects.py'
EDITS = [('                        -start_pixel_id - 1,\n                        -start_pixel_id\n', '                        max(-start_pixel_id - 1, pixel_ranges[-1][1] if pixel_ranges else 0),\n                        max(-start_pixel_id, pixel_ranges[-1][1] if pixel_ranges else 0)\n')]
NEEDS = 'zero suppressed samples with a single pixel listed behind a range of higher pixels'
BREAKS = 'the samples of that pixel are lost'
DEMO = r'''
from eventio import EventIOFile
for ranges in ([(2,)], [(0, 1), (3,)], [(2, 4), (0,)], [(4,), (1,)]):
    pix = [p for r in ranges for p in range(r[0], r[-1] + 1)]
    pay = struct.pack("<ihh", 6, 1, 2) + svar(len(ranges)) + b"".join(svar(-r[0] - 1) if len(r) == 1 else svar(r[0]) + svar(r[1]) for r in ranges)
    pay += b"".join(svar(10 + p) + svar(5) for p in pix)
    with EventIOFile(write(ob(2013, 3, 1 + 4096 * 3, pay))) as f:
        a = next(f).parse()
    eq([[int(x) for x in r] for r in a.reshape(6, 2)], [[10 + p, 15 + p] if p in pix else [0, 0] for p in range(6)], f"samples of {ranges}")
'''
