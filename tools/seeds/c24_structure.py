ID = 'c24_structure'
PROPERTY = 'C24'
FILE = 'search_utils.py'
EDITS = [('                objects.extend(find_all_subobjects(o, structure, level + 1))', '                objects.extend(find_all_subobjects(o, structure, min(level + 1, len(structure) - 2)))')]
NEEDS = 'a structure whose last but one type contains objects of itself'
BREAKS = 'objects nested deeper than the structure are found'
DEMO = r'''
from eventio import EventIOFile
from eventio.search_utils import find_all_subobjects
from eventio.simtel.objects import ArrayEvent, TelescopeEvent, ADCSums
adc = lambda i, top: ob(2012, 3, i, b"", top)
data = box(2010, 0, 1, box(2201, 0, 1, adc(1, False), top=False), box(2202, 0, 1, box(2203, 0, 1, adc(2, False), top=False), adc(3, False), top=False))
with EventIOFile(write(data)) as f:
    got = [o.header.id for o in find_all_subobjects(f, [ArrayEvent, TelescopeEvent, ADCSums])]
eq(got, [1, 3], "objects along the structure")
'''
