"""The last run of a history is killed at, or has fail, one of its file operations; then comes a clean run.

Every point is driven with the real program from a copy of the same situation.  What is on disk right after
the fault (o0) and after the clean run (o1) is judged by TLC (CMFaultTrace)."""
import json, multiprocessing, os, random, re, shutil, subprocess, tempfile, time, traceback
from . import gen, runner

OWNED = {'lost', 'made', 'base', 'basepart', 'half', 'queue', 'cfg', 'dupe', 'inb', 'files', 'exit', 'lock', 'proj', 'eval'}


def cls(what, name):
    """what kind of operation on what kind of file"""
    n = name.split()[0] if what == 'exec' else name
    d, b = os.path.split(n)
    b = re.sub(r'[0-9a-f]{8}', 'X', b)
    b = re.sub(r'\d+', '0', b)
    b = b.split('.', 1)[-1] if '.' in b else b
    return what, d.split('/')[-1][:3], b[:8]


def pick(r, ops, k):
    """k points, of as many kinds as possible"""
    g = {}
    for n, what, name in ops:
        for mode in ('kill', 'fail', 'int'):
            g.setdefault((mode if mode == 'int' else mode, ) + (cls(what, name) if mode != 'int' else ('',)), []).append((n, mode, what, name))
    if k is None:
        return [x for (m, *_), l in g.items() for x in (l if m != 'int' else r.sample(l, min(len(l), 20)))]
    res = []
    keys = list(g)
    r.shuffle(keys)
    for l in g.values():
        r.shuffle(l)
    while len(res) < k and keys:
        for key in list(keys):
            if len(res) >= k:
                break
            res.append(g[key].pop())
            if not g[key]:
                keys.remove(key)
    return res


def locks(w):
    return sorted(os.path.relpath(os.path.join(d, f), w.root) for d, _, fs in os.walk(w.root) for f in fs if f.endswith('.busy') or f.endswith('.bsy'))


def stale(w):
    """what an operator removes after a crash"""
    for f in locks(w):
        os.unlink(os.path.join(w.root, f))


def run_one(a):
    binp, tmp, sc, k, points = a
    sc.pop('proj', None)
    root = os.path.join(tmp, 's%s' % sc['id'])
    sc['faults'] = []
    i = 0
    try:
        w = runner.World(binp, root, sc)
        for i, e in enumerate(sc['steps'][:-1]):
            e['obs'] = w.step(e)
            if e['obs']['exit'] == 'timeout':
                raise runner.HarnessError('the program did not end')
        i += 1
        e = sc['steps'][-1]
        w.begin(e)
        snap = root + '.snap'
        subprocess.run(['cp', '-a', root, snap], check=True)
        had = locks(w)
        save = dict(w.__dict__)

        def restore():
            shutil.rmtree(root)
            subprocess.run(['cp', '-a', snap, root], check=True)
            w.__dict__.update(save)
            w.wins = list(save['wins'])
        log = os.path.join(root, 'oplog')
        rc, txt = w.go(e, {'CM_OPLOG': log})
        ops = []
        for l in open(log, encoding='latin-1'):
            n, what, name = (l.rstrip('\n').split(' ', 2) + [''])[:3]
            ops.append((int(n), what, name.replace(root + '/', '')))
        sc['ops'] = len(ops)
        e['obs'] = w.observe(rc, False)       # the undisturbed run
        if points is None:
            r = random.Random(str(sc['id']))
            # now and then a mailer takes everything away before the clean run
            points = [dict(n=n, mode=m, what=what, name=name, drain=r.random() < .25) for n, m, what, name in pick(r, ops, k)]
        seen = {}
        for p in points:
            restore()
            rc, txt = w.go(e, {'CM_OPN': str(p['n']), 'CM_OPMODE': p['mode']})
            # a lock that is still held, unless it was its removal that failed
            f = dict(p, rc=rc, at=[], locks=[x for x in locks(w) if x not in had and x != p['name']])
            if rc == 'timeout':
                raise runner.HarnessError('the program did not end: %s' % p)
            o0 = w.observe(rc, p.get('drain', False))
            stale(w)
            w.now += 1800
            rc, txt = w.go(e)
            o1 = w.observe(rc, True)
            for o in (o0, o1):
                for x in ('stats', 'log', 'arcs', 'ptext'):
                    o.pop(x)
                for x in o['out']:
                    x.pop('fname', None)
                    x.pop('size', None)
                for x in o['bases']:
                    # leftovers of an interrupted run that nobody reads, and a counter
                    why = [y for y in x['why'].split(';') if y and not y.endswith('.tmp') and not y.startswith('active') and y != 'jdx size' and not (o is o0 and y == 'files')]
                    x['whole'] = not why
                for x in o['flow']:
                    x.pop('size', None)
                    if x['kind'] != 'FILE':
                        x['name'] = ''
                    x.setdefault('id', '')
            if o1['exit'] == 'timeout' or rc != 0:
                f['txt'] = txt[-300:]
            f['rc'] = o0.pop('exit')
            # equal observations are judged once
            key = json.dumps([o0, o1, p.get('drain', False), p['mode'] == 'kill' or f['locks']], sort_keys=True)
            if key in seen:
                seen[key]['at'].append([p['n'], p['mode'], p['what'], p['name']])
                continue
            seen[key] = f
            f['at'].append([p['n'], p['mode'], p['what'], p['name']])
            f.setdefault('drain', False)
            f['o0'], f['o1'] = o0, o1
            sc['faults'].append(f)
    except Exception:
        sc['proj'] = {'step': i + 1, 'text': traceback.format_exc()[-1500:]}
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(root + '.snap', ignore_errors=True)
    return sc


def run_all(binp, tmp, scs, k=None, points=None, workers=10):
    jobs = [(binp, tmp, s, k, points) for s in scs]
    if len(jobs) == 1:
        return [run_one(jobs[0])]
    with multiprocessing.get_context('fork').Pool(workers) as pool:
        return pool.map(run_one, jobs, 1)


def point(f):
    return '; '.join('%s at operation %d (%s %s)' % (m, n, what, name) for n, m, what, name in f['at'][:3])


def part(ctx, p):
    from check import judge, report
    n, k = p['n'][0 if ctx.tier == 'quick' else 1]
    total = pts = judged = opsum = 0
    kinds = {}
    i = 0
    while i < n and not ctx.viol:
        if ctx.elapsed() > (700 if ctx.tier == 'thorough' else 450):
            break
        scs = []
        while len(scs) < p.get('chunk', 80) and i < n:
            scs.append(gen.fault_scenario(gen.Gen('%d-fault-%d' % (ctx.seed, i)), i))
            i += 1
        d = tempfile.mkdtemp(dir=ctx.tmp)
        os.chmod(d, 0o755)
        scs = run_all(ctx.bin, d, scs, k)
        shutil.rmtree(d, ignore_errors=True)
        hits = judge(ctx, scs, OWNED, 'CMFaultTrace')
        total += len(scs)
        for s in scs:
            opsum += s.get('ops', 0)
            judged += len(s['faults'])
            for f in s['faults']:
                for x in f['at']:
                    pts += 1
                    c = '%s %s' % (x[1], x[2])
                    kinds[c] = kinds.get(c, 0) + 1
        for sc, step, fs in hits[:3]:
            h, sc2 = again(ctx, sc, step)
            if not h:
                print('note: fault scenario %s/%s differed once and not again; ignored' % (sc['id'], step), flush=True)
                continue
            report(ctx, p['name'], sc2, h[0][1], h[0][2], (sc2.get('proj') or {}).get('text', '') or sc2.get('tlcerror', '') or
                   (point(sc2['faults'][0]) if sc2['faults'] else ''))
        if len(ctx.cov['samples']) < 3:
            for s in scs[-2:]:
                ctx.cov['samples'].append({'part': p['name'], 'id': s['id'], 'operations': s.get('ops'), 'points': [f['at'][0] for f in s['faults'][:5]]})
    ctx.cov['traces_validated_against_impl'] += pts
    ctx.cov['evaluations'] = pts
    ctx.cov['distinct_nontrivial'] = judged
    ctx.cov['rule'] = ('a point is one file operation of the last run of one history, killed before it, failing it or interrupted there, followed by a clean run; '
                       'points of one history with equal observations count once in distinct_nontrivial')
    ctx.cov['parts'].append({'name': p['name'], 'kind': 'fault points', 'scenarios': total, 'operations': opsum, 'points': pts, 'distinct': judged, 'kinds': kinds,
                             'module': 'CMFaultTrace'})


def strip(sc):
    s = {k: v for k, v in sc.items() if k not in ('faults', 'proj', 'tlcerror')}
    s['steps'] = [{k: v for k, v in e.items() if k != 'obs'} for e in sc['steps']]
    return json.loads(json.dumps(s))


def again(ctx, sc, step):
    from check import judge
    pts = None
    if not sc.get('proj') and sc['faults']:
        f = sc['faults'][max(step, 1) - 1]
        pts = [dict(n=x[0], mode=x[1], what=x[2], name=x[3], drain=f['drain']) for x in f['at'][:1]]
    d = tempfile.mkdtemp(dir=ctx.tmp)
    os.chmod(d, 0o755)
    s = run_all(ctx.bin, d, [strip(sc)], 16 if pts is None else None, pts)[0]
    shutil.rmtree(d, ignore_errors=True)
    return judge(ctx, [s], OWNED, 'CMFaultTrace'), s


def replay(ctx, sc):
    h, s = again(ctx, sc, 1)
    return [(st, sorted(fs)) for _, st, fs in h]
