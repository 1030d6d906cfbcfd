"""Sees that what the checks need is there, and that the specification parses."""
import glob
import os
import subprocess
import sys

import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(ROOT, 'work'), exist_ok=True)
bad = 0
for m in sorted(glob.glob(os.path.join(tlc.SPEC, '*.tla'))):
    r = subprocess.run(['java', '-cp', tlc.CP, 'tla2sany.SANY', m], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or 'Fatal error' in r.stdout or '*** Errors' in r.stdout:
        print(m, r.stdout[-800:])
        bad += 1
print('%d modules, %d with errors' % (len(glob.glob(os.path.join(tlc.SPEC, '*.tla'))), bad))
sys.exit(1 if bad else 0)
