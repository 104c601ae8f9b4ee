#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY NEEDS BREAKS < demo.py : store the diff of the checkout WT (/tmp/wt) as a planted change.

demo.py is wrapped by a demo.sh that runs it with pytornado imported from the current directory."""
import json
import os
import subprocess
import sys
wt = os.environ.get('WT', '/tmp/wt')
sid, pid, needs, breaks = sys.argv[1:5]
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip(), 'no change in /tmp/wt'
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'])
demo = sys.stdin.read()
if demo.strip():
    open(d + '/demo.py', 'w').write(demo)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: /repo (built).  Everything written goes to a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$T/mpl" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD/src/lib" PYT_BIN="$PWD/src/bin" SCRATCH="$T/work"
mkdir "$T/work"
/opt/venv/bin/python "$here/demo.py"
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
