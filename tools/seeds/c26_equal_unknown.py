ID = 'c26_equal_unknown'
PROPERTY = 'C26'
FILE = 'scripts/print_structure.py'
EDITS = [('                if last and last != EventIOObject and isinstance(o, last):', '                if last and isinstance(o, last):')]
NEEDS = 'many unknown objects of different types in a row'
BREAKS = 'objects of different kinds are counted as more of the same'
DEMO = r'''
import subprocess
src = write(b"".join(ob(5000 + i, 0, i, b"x") for i in range(12)))
r = subprocess.run([sys.executable, "-m", "eventio.scripts.print_structure", "-m", "3", src], stdout=subprocess.PIPE, text=True, check=True)
eq([l.split("[")[1].split("]")[0] for l in r.stdout.splitlines() if "[" in l], [str(5000 + i) for i in range(12)], "types listed")
'''
