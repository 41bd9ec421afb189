"""Developer tool: run generated scenarios and show where model and program differ.
   python3 -m cm.debug GENFUNC N SEED [only-id]"""
import sys, os, json, tempfile, shutil, time, re
from . import build, runner, tlc, gen, fido


def lines(m):
    return m.get('lines') or []


def parts(m):
    L = lines(m)
    if not m.get('area') and not m.get('echo'):
        return ''.join(L), [], []
    return (''.join(l for l in L if not l.startswith(('SEEN-BY:', '\x01PATH:'))),
            [l for l in L if l.startswith('SEEN-BY:')], [l for l in L if l.startswith('\x01PATH:')])


def show(name, a, b):
    if a != b:
        print('   %s\n      model %s\n      real  %s' % (name, repr(a)[:900], repr(b)[:900]))


def cmpmsg(tag, m, o, fields):
    for f in fields:
        show(tag + '.' + f, m.get(f), o.get(f))
    b, s, p = parts(o)
    show(tag + '.body', m['body'], b)
    show(tag + '.sbl', m['sbl'], s)
    show(tag + '.pathl', m['pathl'], p)


def diff(st, obs):
    if 'exp' in obs:
        print('   exp', [(a['tag'], a['type'], a['base'], a['path'], a['desc'], a['group'], [st['cfg']['nodes'][l['i'] - 1]['a'] for l in a['nodes']]) for a in st['cfg']['areas'] if not a['f']['UNCONFIRMED']], '\n     ', obs['exp'])
    def groups(ps):
        g = {}
        for p in ps:
            g.setdefault((p['type'] == 'ECHOMAIL', tuple(p['dest']), tuple(p['orig']), p['type']), []).append(p)
        return g
    A, B = groups(st['ob']), groups(obs['out'])
    for k in sorted(set(A) | set(B), key=str):
        a, b = A.get(k, []), B.get(k, [])
        show('pkts %s' % (k,), [(p['pw'], len(p['msgs'])) for p in a], [(p['pw'], len(p['msgs'])) for p in b])
        am, bm = [m for p in a for m in p['msgs']], [m for p in b for m in p['msgs']]
        show('msgs %s' % (k,), [(m['area'], m['subj']) for m in am], [(m['area'], m['subj']) for m in bm])
        for m, o in zip(am, bm):
            cmpmsg('out %s %s' % (k[1], m['subj']), m, o, ['o2', 'd2', 'attr', 'cost', 'date', 'to', 'from', 'subj', 'area'])
    for a, b in zip(st['cfg']['areas'], st['bases']):
        o = [x for x in obs['bases'] if x['tag'].lower() == a['tag'].lower()]
        om = o[0]['msgs'] if o else []
        show('base %s' % a['tag'], [(m['num'], m['subj']) for m in b['msgs']], [(m['num'], m['subj']) for m in om])
        if o:
            show('hw %s' % a['tag'], b['hw'], o[0].get('hw'))
            if not o[0].get('wf', True):
                print('   not well-formed', a['tag'], o[0].get('why'))
        for m, x in zip(b['msgs'], om):
            if a['base'] == 'JAM':
                for f in sorted(m):
                    if not m['del'] or f in ('num', 'del'):
                        show('base %s %d.%s' % (a['tag'], m['num'], f), m.get(f), x.get(f))
                continue
            show('base %s %d.keep' % (a['tag'], m['num']), m['keep'], x['keep'])
            cmpmsg('base %s %d' % (a['tag'], m['num']), m, x, ['from', 'to', 'subj', 'date', 'attr', 'cost', 'orig', 'dest'])
    for p, o in zip(st['pend'][len(st['pend']) - len(obs.get('wr', [])):], obs.get('wr', [])):
        q = fido.parse_pkt(o['raw'].encode('latin-1'))
        for m, n in zip(p['pkt']['msgs'], q['msgs']):
            n['lines'] = fido.split_lines(n.pop('text'))
            for k in m:
                show('wr.' + k, m[k], n[k])
    show('inb', st['inb'], obs['inb'])
    show('files', st['of'], [{k: f.get(k) for k in ('dest','pri','mode','name','id')} for f in obs['flow'] if f['kind'] == 'FILE'])
    if obs['stats']['day'] == 0:
        return
    sa = [x for i, x in enumerate(st['stats']['areas']) if st['cfg']['areas'][i]['type'] in ('BAD', 'NETMAIL', 'ECHOMAIL') and not st['cfg']['areas'][i]['f']['UNCONFIRMED']]
    show('stats', [(x['total'], x['days'], x['dupes'], x['first'], x['last']) for x in sa], [(x['total'], x['days'], x['dupes'], x['first'], x['last']) for x in obs['stats']['areas']])
    show('nstats', st['ns'], [{k: v for k, v in x.items() if k not in ('a', 'first')} for x in obs['stats']['nodes']])
    for k in ('areas', 'nodes'):
        a, b = st['cfg'][k], obs['cfg'][k]
        show('cfg #' + k, len(a), len(b))
        for x, y in zip(a, b):
            show('cfg.' + k, x, y)
    show('arc', st['arc'], obs['arcs'])
    show('wait', (len(st['wait']), st['waitf']), obs['left'])
    show('dupes', st['dupes'], [list(x) for x in obs['dupes']] if obs['dupes'] else obs['dupes'])


def main():
    fn, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    only = int(sys.argv[4]) if len(sys.argv) > 4 else None
    tmp = tempfile.mkdtemp(prefix='cm', dir='/tmp')
    os.chmod(tmp, 0o755)
    try:
        b = os.environ.get('CM_BIN') or build.build(tmp + '/b')
        f = getattr(gen, fn)
        scs = [f(gen.Gen('%s-%d' % (seed, i)), i) for i in range(n) if only is None or i == only]
        t = time.time()
        runner.run_all(b, tmp, scs)
        print('run', time.time() - t)
        d = '/tmp/data.json'
        tlc.write_json(d, {'scenarios': scs})
        tlc.write_json(tmp + '/owned.json', [])
        os.mkdir(tmp + '/dbg')
        r = tlc.run(tmp, os.environ.get('MOD', 'CMTrace'), env={'CM_DATA': d, 'CM_OWNED': tmp + '/owned.json', 'CM_DEBUG': tmp + '/dbg'})
        print('tlc', r['secs'], r['states'], r['distinct'], r['ok'], r['violated'])
        if not r['ok']:
            print(r['out'][-1500:])
        lim = int(os.environ.get('LIM', '8'))
        D = [l for l in r['out'].split('\n') if 'DIFF' in l]
        print(len(D), 'diffs')
        for l in D[:40]:
            print(l)
        for s in scs:
            if s.get('proj'):
                print('PROJ', s['id'], s['proj'])
        for l in D[:lim]:
            print('=' * 20, l)
            m = re.match(r'"DIFF\|(\d+)\|(\d+)', l)
            i, k = int(m[1]), int(m[2])
            st = json.load(open(tmp + '/dbg/%d-%d.json' % (i, k)))
            sc = [s for s in scs if s['id'] == i][0]
            print(sc['steps'][k - 1]['obs'].get('txt', ''))
            diff(st, sc['steps'][k - 1]['obs'])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
