#!/usr/bin/env python3
"""seedtest.py [-n (no check)] ID...: apply each planted bug to /repo, build, test, demo, run the check of its property; undo."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SEED_REPO', '/repo')


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tool(n):
    """build.sh / test.sh, also for a copy of the repository"""
    if R == '/repo':
        return '/opt/vp/' + n
    d = R.rstrip('/') + '.vp'
    os.makedirs(d, exist_ok=True)
    for x in ('build.sh', 'test.sh'):
        open(d + '/' + x, 'w').write(open('/opt/vp/' + x).read().replace('/opt/vp/build.sh', d + '/build.sh').replace('/repo', R))
    return d + '/' + n


def demo(i):
    return sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=R, timeout=300)


ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
nocheck = '-n' in sys.argv
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', []) or [])
assert not sh('git -C %s status --porcelain' % R).stdout.strip()
sh('bash ' + tool('build.sh'))
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    r0 = demo(i)
    try:
        a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i))
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stdout.decode())
            continue
        t = '/tmp/seedtest.%d.json' % os.getpid()
        b = sh('bash %s %s' % (tool('test.sh'), t))
        res = json.load(open(t))
        failed = [x for x in res['failed']] if b.returncode == 0 or res['passed'] else ['BUILD']
        r1 = demo(i)
        line = '%s %s demo %s/%s tests passed %d failed %s' % (i, m['property'], r0.returncode, r1.returncode, len(res['passed']), failed)
        if r0.returncode:
            line += '\n' + r0.stdout.decode()[-600:]
        if '-v' in sys.argv:
            line += '\n' + r1.stdout.decode()[-600:]
        if not nocheck:
            c = sh('python3 check.py %s quick' % m['property'], cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', CM_REPO=R))
            o = c.stdout.decode()
            line += ' CHECK rc=%d %s' % (c.returncode, 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=%s ' % m['property'] in o else 'MISSED')
            line += ' ' + ' '.join(l.strip() for l in o.split('\n') if l.startswith('  part'))[:200]
        print(line, flush=True)
    finally:
        sh('git -C %s checkout -- .' % R)
sh('bash ' + tool('build.sh'))
