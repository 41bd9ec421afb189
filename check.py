#!/usr/bin/env python3
"""Decide one property:  check.py C01 quick|thorough      (or: check.py --replay FILE)

Scenarios generated from a seed are executed by the real programs (built from /repo's working tree),
what they left on disk is projected, and TLC decides whether the recorded behaviour is a behaviour of
the specification in spec/ with respect to the facets the property owns.  Small exhaustive models
(spec/MC_*.tla) are checked as well.  See DESIGN.md."""
import json, os, re, shutil, sys, tempfile, time, traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
from cm import build, runner, tlc, registry

HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.path.join(HERE, 'evidence')
DIFF = re.compile(r'^"DIFF\|(\d+)\|(\d+)\|(.*)"', re.M)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='cmv', dir=os.environ.get('TMPDIR', '/tmp'))
        os.chmod(self.tmp, 0o755)
        self.bin = None
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'parts': []}
        self.viol = []
        self.known = []

    def elapsed(self):
        return time.time() - self.t0


def known_findings(prop):
    """[(signature, text)] of the findings recorded and not repaired"""
    res = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) scenario=(\S+) facets=(\S+) (.*)', l)
            if m and m[1] == prop:
                res.append((m[2], set(m[3].split(',')), m[4].strip()))
    except FileNotFoundError:
        pass
    return res


def clean(sc):
    """scenario without observations"""
    s = {k: v for k, v in sc.items() if k != 'proj'}
    s['steps'] = [{k: v for k, v in e.items() if k != 'obs'} for e in sc['steps']]
    return json.loads(json.dumps(s))


def judge(ctx, scs, owned, module='CMTrace', cfg=None):
    """-> list of (scenario, step, facets) that TLC rejects"""
    bad = [(s, s['proj']['step'], {'proj'}) for s in scs if s.get('proj')]
    good = [s for s in scs if not s.get('proj')]
    if not good:
        return bad
    d = tempfile.mkdtemp(dir=ctx.tmp)
    data, own = os.path.join(d, 'data.json'), os.path.join(d, 'owned.json')
    tlc.write_json(data, {'scenarios': good})
    tlc.write_json(own, sorted(owned))
    r = tlc.run(d, module, cfg=cfg, env={'CM_DATA': data, 'CM_OWNED': own}, args=['-continue'])
    shutil.rmtree(d)
    byid = {s['id']: s for s in good}
    hits = []
    for m in DIFF.finditer(r['out']):
        fs = set(m[3].split(','))
        if fs & owned and not any(h[0]['id'] == int(m[1]) and h[1] == int(m[2]) for h in hits):
            hits.append((byid[int(m[1])], int(m[2]), fs & owned))
    if r['ok'] or (r['violated'] and hits):
        ctx.cov['states'] += r['distinct']
        ctx.cov['transitions'] += max(0, r['states'] - len(good))
        return bad + hits
    if len(good) == 1:
        # TLC cannot even evaluate what was observed
        good[0]['tlcerror'] = r['out'][-3000:]
        return bad + [(good[0], 0, {'eval'})]
    h = len(good) // 2
    return bad + judge(ctx, good[:h], owned, module, cfg) + judge(ctx, good[h:], owned, module, cfg)


def report(ctx, part, sc, step, facets, note=''):
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    p = os.path.join(EV, 'replay', '%s-%s-%s.json' % (ctx.prop, part, str(sc.get('id', 'x'))))
    with open(p, 'w') as f:
        json.dump({'property': ctx.prop, 'part': part, 'step': step, 'facets': sorted(facets), 'note': note, 'scenario': sc}, f, indent=1)
    ctx.viol.append({'part': part, 'scenario': str(sc.get('id')), 'step': step, 'facets': sorted(facets), 'replay': p})
    print('VIOLATION property=%s replay=%s' % (ctx.prop, p), flush=True)
    print('  part %s, scenario %s, step %s differs in: %s %s' % (part, sc.get('id'), step, ', '.join(sorted(facets)), note), flush=True)


def confirm(ctx, part, sc, owned, module, cfg):
    """run the scenario again, alone; -> hits"""
    s = clean(sc)
    d = tempfile.mkdtemp(dir=ctx.tmp)
    os.chmod(d, 0o755)
    runner.run_all(ctx.bin, d, [s])
    h = judge(ctx, [s], owned, module, cfg)
    shutil.rmtree(d, ignore_errors=True)
    return h


def trace_part(ctx, p):
    n = p['n'][0 if ctx.tier == 'quick' else 1]
    owned = set(p['facets']) | {'exit', 'proj', 'eval'}
    module, cfg = p.get('module', 'CMTrace'), p.get('cfg')
    know = known_findings(ctx.prop)
    done = steps = 0
    kinds = {}
    chunk = p.get('chunk', 400 if 'fixed' in p else 200)
    fixed = p['fixed'](ctx.tier) if 'fixed' in p else iter(())
    more = True
    i = 0
    while (i < n or more) and not ctx.viol:
        if ctx.elapsed() > (registry.THOROUGH_LIMIT if ctx.tier == 'thorough' else 450):
            break
        scs = []
        while more and len(scs) < chunk:
            s = next(fixed, None)
            if s is None:
                more = False
            else:
                scs.append(s)
        while len(scs) < chunk and i < n:
            scs.append(registry.make(p['gen'], '%d-%s-%d' % (ctx.seed, p['name'], i), i, p.get('args', {})))
            i += 1
        if not scs:
            break
        d = tempfile.mkdtemp(dir=ctx.tmp)
        os.chmod(d, 0o755)
        runner.run_all(ctx.bin, d, scs)
        shutil.rmtree(d, ignore_errors=True)
        hits = judge(ctx, scs, owned, module, cfg)
        done += len(scs)
        steps += sum(len(s['steps']) for s in scs)
        for s in scs:
            for e in s['steps']:
                kinds[e['op']] = kinds.get(e['op'], 0) + 1
        seen = 0
        for sc, step, fs in hits:
            kn = [k for k in know if k[0] == '%s/%s' % (p['name'], sc['id']) and fs <= k[1]]
            if kn:
                ctx.known.append(kn[0][2])
                continue
            h = confirm(ctx, p['name'], sc, owned, module, cfg)
            if not h:
                print('note: scenario %s/%s differed once and not again; ignored' % (p['name'], sc['id']), flush=True)
                continue
            sc2, step, fs = h[0]
            report(ctx, p['name'], sc2, step, fs, (sc2.get('proj') or {}).get('text', '') or sc2.get('tlcerror', ''))
            seen += 1
            if seen >= 3:
                break
        if len(ctx.cov['samples']) < 3 and scs:
            s = clean(scs[-1])
            ctx.cov['samples'].append({'part': p['name'], 'id': s['id'], 'steps': [summary(e) for e in s['steps']]})
    ctx.cov['traces_validated_against_impl'] += done
    ctx.cov['parts'].append({'name': p['name'], 'kind': 'conformance', 'scenarios': done, 'events': steps, 'event_kinds': kinds,
                             'facets': sorted(owned), 'module': module})


def summary(e):
    if e['op'] == 'toss':
        return {'op': 'toss', 'nosec': e.get('nosec'), 'files': [
            {'name': f['name'], 'msgs': len(f.get('pkt', {}).get('msgs', [])), 'raw': len(f.get('pkt', {}).get('raw', ''))} for f in e['files']]}
    return {k: (v if len(json.dumps(v)) < 300 else '...') for k, v in e.items()}


def mc_part(ctx, p):
    """an exhaustive model of the specification"""
    if ctx.viol:
        return
    mod = p['module']
    cfg = p['cfg'][0 if ctx.tier == 'quick' else 1] if isinstance(p.get('cfg'), (list, tuple)) else p.get('cfg', mod + '.cfg')
    d = tempfile.mkdtemp(dir=ctx.tmp)
    env = dict(p.get('env') or {})
    if 'data' in p:
        env.update(CM_DATA=os.path.join(d, 'data.json'), CM_OWNED=os.path.join(d, 'owned.json'))
        tlc.write_json(env['CM_DATA'], p['data']())
        tlc.write_json(env['CM_OWNED'], [])
    r = tlc.run(d, mod, cfg=os.path.join(tlc.SPEC, cfg), env=env, timeout=registry.MC_TIMEOUT)
    shutil.rmtree(d)
    if not r['ok']:
        sys.stderr.write(r['out'][-3000:])
        if r['violated']:
            report(ctx, mod, {'id': 'model', 'out': r['out'][-6000:]}, 0, set(r['violated']))
            return
        raise tlc.TlcError('TLC failed on ' + mod)
    ctx.cov['states'] += r['distinct']
    ctx.cov['transitions'] += r['states']
    ctx.cov['parts'].append({'name': mod, 'kind': 'exhaustive model', 'cfg': cfg, 'states': r['distinct'], 'transitions': r['states']})


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = Ctx(prop, tier, seed)
    P = registry.PROPS[prop]
    rc = 0
    try:
        ctx.bin = build.build(os.path.join(ctx.tmp, 'build'))
        only = sys.argv[3] if len(sys.argv) > 3 else None
        for p in P['parts']:
            if only and p.get('name', p.get('module')) != only:
                continue
            if p['kind'] == 'trace':
                trace_part(ctx, p)
            elif p['kind'] == 'mc':
                mc_part(ctx, p)
            else:
                p['fn'](ctx, p)
        for k in sorted(set(ctx.known)):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        rc = 1 if ctx.viol else 0
    except Exception:
        traceback.print_exc()
        rc = 2 if not ctx.viol else 1
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    if rc != 2:
        os.makedirs(EV, exist_ok=True)
        cov = ctx.cov
        if P.get('level') == 'fault_enumeration':
            cov.setdefault('evaluations', cov['traces_validated_against_impl'])
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'coverage': cov,
              'wall_s': round(ctx.elapsed(), 1), 'violations': len(ctx.viol), 'assumptions': P.get('assumptions', registry.ASSUME)}
        with open(os.path.join(EV, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d scenarios, %d states, %.0f s, %s' % (prop, tier, cov['traces_validated_against_impl'], cov['states'],
                                                            ctx.elapsed(), 'VIOLATED' if rc else 'ok'))
    return rc


def replay(path):
    r = json.load(open(path))
    ctx = Ctx(r['property'], 'quick', 1)
    try:
        ctx.bin = build.build(os.path.join(ctx.tmp, 'build'))
        p = [x for x in registry.PROPS[r['property']]['parts'] if x.get('name') == r['part']][0]
        if 'replay' in p:
            h = p['replay'](ctx, r['scenario'])
            print('reproduced: %s' % h if h else 'not reproduced')
            return 1 if h else 0
        if p['kind'] != 'trace':
            print('this part is replayed by running the check again')
            return 2
        owned = set(p['facets']) | {'exit', 'proj', 'eval'}
        h = confirm(ctx, r['part'], r['scenario'], owned, p.get('module', 'CMTrace'), p.get('cfg'))
        for sc, step, fs in h:
            print('differs at step %s in %s' % (step, sorted(fs)))
        print('reproduced' if h else 'not reproduced')
        return 1 if h else 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
