"""python3 -m cm.debugfault N K SEED [only]: run fault scenarios, show what TLC rejects (development aid)"""
import json, os, sys, tempfile, shutil, collections
from . import fault, gen, tlc
import check
from check import judge, Ctx


def main():
    n, k, seed = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    only = [int(x) for x in sys.argv[4:]]
    ctx = Ctx('C13', 'quick', 1)
    ctx.bin = os.environ['CM_BIN']
    dbg = tempfile.mkdtemp()
    os.environ['CM_DEBUG'] = dbg
    scs = [gen.fault_scenario(gen.Gen('%s-fault-%d' % (seed, i)), i) for i in (only or range(n))]
    scs = fault.run_all(ctx.bin, ctx.tmp, scs, k or None)
    hits = [h for c in range(0, len(scs), 60) for h in judge(ctx, scs[c:c + 60], fault.OWNED, 'CMFaultTrace')]
    print('%d hits, %d points, %d judged' % (len(hits), sum(len(f['at']) for s in scs for f in s['faults']), sum(len(s['faults']) for s in scs)))
    byf = collections.Counter()
    lim = int(os.environ.get('LIM', '5'))
    for sc, j, fs in hits:
        byf[','.join(sorted(fs))] += 1
        if lim <= 0:
            continue
        lim -= 1
        print('== scenario', sc['id'], 'fault', j, sorted(fs), sc.get('proj', {}).get('text', ''), sc.get('tlcerror', '')[-400:])
        if sc.get('proj') or sc.get('tlcerror'):
            continue
        f = sc['faults'][j - 1]
        print('   ', f['at'][:6], 'rc', f['rc'])
        want = json.load(open('%s/%d.json' % (dbg, sc['id'])))
        if os.environ.get('DUMP'):
            json.dump([want, f], open(os.environ['DUMP'], 'w'), indent=1)
        show(want, f, fs, sc)
    print(byf)
    shutil.rmtree(ctx.tmp)
    shutil.rmtree(dbg)


def show(want, f, fs, sc):
    def ms(ps, lines):
        return {(str(p['dest']), p['type'], str(p['orig']) if p['type'] == 'ECHOMAIL' else '', m['subj'], m['area'], str(m['attr']), m['to'], str(m['o2'] + m['d2']), m['date'], m['from'], m['cost'],
                 (''.join(m['lines']) if lines else m['body'] + ''.join(m['sbl']) + ''.join(m['pathl']))) for p in ps for m in p['msgs']}
    if fs & {'lost', 'made'}:
        w, a, b = ms(want['ob'], False), ms(f['o0']['out'], True), ms(f['o1']['out'], True)
        for x in sorted(w - b)[:3]:
            print('  missing', x)
        for x in sorted(b - w)[:3]:
            print('  extra  ', x)
        for x in sorted(a - w - b)[:3]:
            print('  extra0 ', x)
        print('  inb', f['o0']['inb'], 'left', f['o0']['left'], f['o1']['left'])
    if fs & {'base', 'basepart', 'half'}:
        for o in ('o0', 'o1'):
            for i, a in enumerate(want['cfg']['areas']):
                b = next((b for b in f[o]['bases'] if b['tag'] == a['tag']), {'msgs': [], 'why': '-', 'whole': True})
                key = lambda m: (m['subj'], str(m['attr']), m['from'], m['to'], m['date'], str(m.get('fl')), str(m.get('orig')), m.get('text', ''), m.get('body', ''.join(m.get('lines', []))))
                g = lambda l: sorted(map(key, (m for m in l if not m.get('del'))))
                x, y = set(g(want['bases'][i]['msgs'])), set(g(b['msgs']))
                if x != y or not b['whole']:
                    print('  ', o, a['tag'], a['base'], b.get('why'), '\n     missing', sorted(x - y)[:2], '\n     extra', sorted(y - x)[:2])
    if 'dupe' in fs:
        print('  want', want['dupes'], '\n  got', f['o0']['dupes'], f['o1']['dupes'])
    if 'inb' in fs:
        print('  want', want['inb'], '\n  got', f['o0']['inb'], f['o1']['inb'])
    if fs & {'files', 'queue'}:
        print('  want', want['of'], '\n  got', f['o0']['flow'], '\n', f['o1']['flow'])
    if 'cfg' in fs:
        for o in ('o0', 'o1'):
            for k in ('areas', 'nodes'):
                for i in range(max(len(want['cfg'][k]), len(f[o]['cfg'][k]))):
                    x, y = (want['cfg'][k] + [0] * 9)[i], (f[o]['cfg'][k] + [0] * 9)[i]
                    if x != y:
                        print('  ', o, 'want', x, '\n      got ', y)
    if 'exit' in fs:
        print('  ', f.get('txt'))


main()
