"""Run TLC on a specification of /verif/spec."""
import json, os, re, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class TlcError(Exception):
    pass


def community():
    for p in ('/opt/veriftools/tla/CommunityModules-deps.jar', '/opt/veriftools/tla/CommunityModules.jar'):
        if os.path.exists(p):
            return p
    import glob
    g = glob.glob('/opt/veriftools/tla/*ommunity*.jar')
    return g[0] if g else ''


def write_json(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f)


def run(tmp, module, cfg=None, env=None, workers=8, args=(), timeout=800, mem='6g', stack='512m'):
    """-> dict(rc, out, states, distinct, ok, violated)"""
    meta = tempfile.mkdtemp(prefix='tlc', dir=tmp)
    chr_ = os.path.join(tmp, 'chr.json')
    if not os.path.exists(chr_):
        write_json(chr_, [chr(i) for i in range(256)])
    e = dict(os.environ, CM_CHR=chr_)
    e.update(env or {})
    cmd = ['java', '-Xmx' + mem, '-Xss' + stack, '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8',
           '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + meta, '-cp', JAR + ':' + community(), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-nowarning',
           '-config', cfg or os.path.join(SPEC, module + '.cfg')] + list(args) + [os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise TlcError('TLC timed out\n' + (ex.stdout or b'').decode('utf8', 'replace')[-2000:])
    out = p.stdout.decode('utf8', 'replace')
    subprocess.run(['rm', '-rf', meta])
    r = {'rc': p.returncode, 'out': out, 'secs': time.time() - t, 'states': 0, 'distinct': 0}
    for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out):
        r['states'], r['distinct'] = int(m[1].replace(',', '')), int(m[2].replace(',', ''))
    r['ok'] = 'Model checking completed. No error has been found.' in out
    r['violated'] = re.findall(r'Invariant (\w+) is violated', out) + re.findall(r'property (\w+) is violated', out)
    return r
