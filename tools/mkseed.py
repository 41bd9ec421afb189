#!/usr/bin/env python3
"""mkseed.py SPECFILE: a planted bug from a small description (python: ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO) ->
   /verif/seeded/<id>/.  Verified in /repo (applied, built, tests, demo, check) and undone again."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def diff(edits):
    out = ''
    for f, old, new in edits:
        p = os.path.join(R, f)
        s = open(p, encoding='latin-1', newline='').read()
        if s.count(old) != 1:
            sys.exit('%s: %d matches of %r' % (f, s.count(old), old))
        open(p, 'w', encoding='latin-1', newline='').write(s.replace(old, new))
    d = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
    sh('git -C %s checkout -- .' % R)
    return d


def main():
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        for b in g['BUGS']:
            d = os.path.join(V, 'seeded', b['id'])
            assert not sh('git -C %s status --porcelain' % R).stdout.strip()
            patch = diff(b['edits'])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'wb').write(patch)
            open(os.path.join(d, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom demolib import *\n\n' + b['demo'].strip('\n') + '\n\n\nmain(demo)\n')
            shutil.copy(os.path.join(V, 'tools', 'demolib.py'), d)
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            print(b['id'], 'written')


main()
