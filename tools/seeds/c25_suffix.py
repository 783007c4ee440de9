ID = 'c25_suffix'
PROPERTY = 'C25'
FILE = 'scripts/cut_eventio_file.py'
EDITS = [('        with EventIOFile(args.inputfile) as f:\n            of.write(f.read(bytes_to_read))', "        if args.inputfile.endswith(('.gz', '.zst')):\n            opened = EventIOFile(args.inputfile)\n        else:\n            opened = open(args.inputfile, 'rb')\n        with opened as f:\n            of.write(f.read(bytes_to_read))")]
NEEDS = 'a compressed file whose name does not tell'
BREAKS = 'the compressed bytes are cut instead of the objects'
DEMO = r'''
import subprocess
first, second = ob(2010, 0, 1, b"a" * 50), ob(2010, 0, 2, b"b" * 5000)
for name, packed in (("x.dat", first + second), ("y.simtel.gz", gzip.compress(first + second)), ("z.dat", gzip.compress(first + second))):
    src = write(packed, name)
    out = src + ".out"
    subprocess.run([sys.executable, "-m", "eventio.scripts.cut_eventio_file", src, out, "100"], stdout=subprocess.DEVNULL, check=True)
    eq(open(out, "rb").read(), first, f"first object of {name}")
'''
