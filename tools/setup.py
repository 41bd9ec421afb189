#!/usr/bin/env python3
"""Once per sandbox: see that what the checks need is there, and parse the specifications."""
import os, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from cm import build, tlc
for x in ('java', 'gcc', 'make', 'zip', 'unzip'):
    if not shutil.which(x):
        sys.exit('missing: ' + x)
d = tempfile.mkdtemp()
try:
    build.build(os.path.join(d, 'b'))
    r = subprocess.run(['java', '-cp', tlc.JAR + ':' + tlc.community(), 'tla2sany.SANY', 'CMTrace.tla'], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode or b'rror' in r.stdout:
        sys.stderr.write(r.stdout.decode())
        sys.exit(1)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
finally:
    shutil.rmtree(d)
print('ok')
