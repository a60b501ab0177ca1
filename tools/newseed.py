"""tools/newseed.py id property 'needs' 'what breaks' < demo body: writes the seed's demo files and meta.json"""
import sys, os, json
i, prop, needs, brk = sys.argv[1:5]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
open(d + '/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport matplotlib\nmatplotlib.use('Agg')\nmatplotlib.use = lambda *a, **k: None\n"
                                "import numpy as np\n" + sys.stdin.read())
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=brk), open(d + '/meta.json', 'w'), indent=1)
