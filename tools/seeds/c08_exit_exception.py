ID = 'c08_exit_exception'
PROPERTY = 'C08'
FILE = 'base.py'
EDITS = [('    def __exit__(self, exc_type, exc_value, traceback):\n        self.close()\n\n    @staticmethod', '    def __exit__(self, exc_type, exc_value, traceback):\n        if exc_type is None or issubclass(exc_type, Exception):\n            self.close()\n\n    @staticmethod')]
NEEDS = 'a with block left by an exception that is no Exception (KeyboardInterrupt, GeneratorExit, SystemExit)'
BREAKS = 'file handles stay open if the block is interrupted'
DEMO = r'''
import os
from eventio import EventIOFile
p = write(ob(5000, 1, 1, b"abcdef"))
before = len(os.listdir("/proc/self/fd"))
f = EventIOFile(p)
try:
    with f:
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
eq(len(os.listdir("/proc/self/fd")), before, "open files")
'''
