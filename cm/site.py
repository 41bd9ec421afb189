"""Small worlds whose histories are explored exhaustively: by TLC in spec/MC_Site.tla (all of them up to a depth), and with the real
program (all of them up to a smaller depth, and others at random)."""
import itertools, json
from . import gen
from .conf import node, area, aka, link, config, route


def world(k):
    """the k-th world: configuration and pool of events"""
    g = gen.Gen('site')
    nodes = [node([1, 10, 2, 0], 'SECRET', groups='A', afpw='afpw'), node([1, 10, 3, 0], groups='A', afpw='afpw'), node([1, 20, 4, 0], 'Other', groups='A', afpw='afpw'),
             node([2, 5, 5, 0], groups='A', afpw='afpw'), node([1, 10, 2, 7], 'PT', groups='A', afpw='afpw')]
    areas = [area('NETMAIL', 'NETMAIL', 1), area('BAD', 'BAD', 1),
             area('ONE', group='A', nodes=[link(1), link(2, ro=True), link(3), link(5)]),
             area('TWO', group='A', nodes=[link(1), link(2, wo=True), link(4)])]
    c = config(akas=[aka([1, 10, 1, 0])], nodes=nodes, areas=areas, routes=[route('*:*/*.*', '*:*/*.*', 1)],
               dupemode=('BAD', 'KILL', 'IGNORE', 'BAD')[k], dupesize=(2, 3, 2, 200)[k], flags=('CHECKSEENBY',) if k != 2 else ())
    if k == 1:
        areas[2]['f']['IGNORESEENBY'] = True
        nodes[2]['f']['PASSIVE'] = True
    if k == 3:
        for a in areas:
            a['base'] = 'JAM'
    ev = []

    def add(meta, o, pw, m):
        i = len(ev)
        meta = dict({'kind': '', 'node': 0, 'area': '', 'id': '', 'sb': [], 'subj': m['subj'], 'zone': o[0], 'right': False, 'on': False, 'to': 0, 'pwok': True}, **meta)
        f = {'name': '%08x.pkt' % (i + 1), 'id': 'f%d' % i, 'mtime': 10, 'pkt': g.pkt(o, [1, 10, 1, 0], pw, [m]), 'kind': 'PKT', 'rank': 0, 'dir': '', 'act': True}
        ev.append({'op': 'toss', 'files': [f], 'nosec': False, 'exit': 0, 'drain': False, 'meta': meta})

    def msg(lines, subj, o2, **kw):
        return g.msg(lines, o2, [10, 1], **dict(dict(subj=subj, attr=0, cost=0, date='01 Mar 01  12:00:00', to='All', **{'from': 'Somebody'}), **kw))

    def echo(n, tag, id, sb, subj, a=None, pw=None):
        nd = nodes[n - 1] if n else None
        a = a or nd['a']
        lines = ['AREA:%s\r' % tag, '\x01MSGID: %s %08x\r' % (id, 1), 'text of %s\r' % subj, 'SEEN-BY: %s\r' % ' '.join('%d/%d' % tuple(x) for x in sb), '\x01PATH: %d/%d\r' % tuple(a[1:3])]
        add({'kind': 'echo', 'node': n, 'area': tag, 'id': id, 'sb': sb, 'pwok': pw is None}, a, (nd['pw'] if nd else '') if pw is None else pw, msg(lines, subj, a[1:3]))

    def net(kind, n, d, subj, to='Somebody Else', text='hello\r', **kw):
        nd = nodes[n - 1]
        kl = ['\x01INTL %d:%d/%d %d:%d/%d\r' % tuple(d[:3] + nd['a'][:3])] + (['\x01FMPT %d\r' % nd['a'][3]] if nd['a'][3] else []) + (['\x01TOPT %d\r' % d[3]] if d[3] else [])
        m = dict(msg(kl + [text], subj, nd['a'][1:3], attr=1, to=to), d2=d[1:3])
        add(dict({'kind': kind, 'node': n}, **kw), nd['a'], nd['pw'], m)

    A, B = 'a@x', 'b@x'
    echo(1, 'ONE', A, [[10, 2]], 'e1')
    echo(1, 'ONE', B, [[10, 2], [20, 4], [77, 7]], 'e2')
    echo(3, 'ONE', A, [[20, 4]], 'e3')
    echo(1, 'TWO', A, [[10, 2]], 'e4')
    echo(4, 'TWO', B, [[5, 5], [10, 2]], 'e5')
    echo(2, 'ONE', 'c@x', [[10, 3]], 'e6')
    echo(1, 'GONE', 'd@x', [[10, 2]], 'e7')
    echo(0, 'ONE', 'e@x', [[9, 9]], 'e8', a=[1, 9, 9, 0])
    echo(1, 'ONE', 'f@x', [[10, 2]], 'e9', pw='WRONG')
    net('af', 3, [1, 10, 1, 0], 'afpw', to='AreaFix', text='-ONE\r', area='ONE', on=False, right=True)
    net('af', 3, [1, 10, 1, 0], 'afpw', to='AreaFix', text='+TWO\r', area='TWO', on=True, right=True)
    net('af', 5, [1, 10, 1, 0], 'nopw', to='AreaFix', text='-ONE\r', area='ONE', on=False, right=False)
    net('here', 1, [1, 10, 1, 0], 'n1')
    net('via', 1, [1, 10, 2, 7], 'n3')
    ev[-1]['meta']['to'] = 5
    return c, ev


WORLDS = 4


def model_data():
    """what MC_Site reads: the runner's fields are filled in"""
    scs = []
    for k in range(WORLDS):
        c, ev = world(k)
        for e in ev:
            e.update(drained=False, today=22345, wday=1, busy=[], edits=[], aux=[], obs={'arcs': []})
        scs.append({'id': k, 'cfg': c, 'nl': gen.NONL, 'disk': [], 'steps': ev})
    return {'scenarios': scs}


def scenario(id, k, h):
    c, ev = world(k)
    return {'id': id, 'cfg': c, 'nl': gen.NONL, 'steps': [json.loads(json.dumps(dict(ev[i], files=[dict(ev[i]['files'][0], id='f%d.%d' % (j, i))]))) for j, i in enumerate(h)]}


def fixed(tier):
    """all histories of two events; thoroughly, of three"""
    res = []
    for k in range(WORLDS):
        n = len(world(k)[1])
        for h in itertools.product(range(n), repeat=2 if tier == 'quick' else 3):
            res.append((k, h))
    return (scenario(100000 + i, k, h) for i, (k, h) in enumerate(res))


def site_scenario(g, id, **kw):
    k = g.r.randrange(WORLDS)
    n = len(world(k)[1])
    return scenario(id, k, [g.r.randrange(n) for _ in range(g.r.randint(3, 7))])
