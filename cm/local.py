"""Small worlds of locally written mail: what an editor, the scanner, a rescan and maintenance do to one area, in any order.  Explored
exhaustively by TLC in spec/MC_Local.tla and replayed with the real programs, as in site.py."""
import itertools, json
from . import gen
from .conf import node, area, aka, link, config, route, NULL4

WORLDS = 4      # *.msg or JAM, without or with high-water marks


def config_(k):
    nodes = [node([1, 10, 2, 0]), node([1, 10, 3, 0]), node([1, 20, 4, 0])]
    base = 'JAM' if k & 1 else 'MSG'
    areas = [area('NETMAIL', 'NETMAIL', 1, base=base), area('BAD', 'BAD', 1, base=base),
             area('ONE', base=base, nodes=[link(1), link(2, ro=True), link(3, wo=True)], keepnum=2)]
    return config(akas=[aka([1, 10, 1, 0])], nodes=nodes, areas=areas, routes=[route('*:*/*.*', '*:*/*.*', 1)], dupemode='BAD', dupesize=200,
                  flags=('ALLOWKILLSENT', 'ALLOWRESCAN', 'JAM_LINK') + (('MSG_HIGHWATER', 'JAM_HIGHWATER') if k & 2 else ()))


def post(tag, subj, local, sent, ks):
    net = tag == 'NETMAIL'
    m = {'from': 'Me', 'to': 'You', 'subj': subj, 'date': '01 Mar 01  12:00:00', 'attr': (0x100 if local else 0) | (8 if sent else 0) | (0x80 if ks else 0), 'cost': 0,
         'orig': [0, 10, 1, 0] if net else NULL4, 'dest': [0, 10, 3, 0] if net else NULL4, 'text': 'text\r', 'keep': '0,0,0'}
    j = {'from': 'Me', 'to': 'You', 'subj': subj, 'date': m['date'], 'attr': (1 if local else 0) | (0x10 if sent else 0) | (0x20 if ks else 0) | (0x2000000 if net else 0x1000000),
         'cost': 0, 'oaddr': '1:10/1', 'daddr': '1:10/3' if net else '', 'fl': [], 'rawtext': 'text\r', 'keep': '0,0,4294967295,0'}
    return {'do': 'post', 'tag': tag, 'msg': m, 'jam': j}


# edit: what happens to the base before the run; run: what is run
E = [dict(edit='post', area='ONE', local=True, run='scan'), dict(edit='post', area='ONE', local=True, run='idle'), dict(run='scan'), dict(run='toss'),
     dict(run='rescan'), dict(run='pack'), dict(edit='first', area='ONE', run='idle'), dict(edit='last', area='ONE', run='scan'), dict(run='maint'),
     dict(edit='post', area='ONE', local=True, sent=True, run='scan'), dict(edit='post', area='ONE', run='scan'),
     dict(edit='post', area='NETMAIL', local=True, ks=True, run='scan'), dict(edit='post', area='NETMAIL', local=True, run='idle')]
EVENTS = [dict(dict(edit='', area='', local=False, sent=False, ks=False), **e) for e in E]


def step(k, i, pos):
    """the i-th event as the pos-th of a history"""
    m = EVENTS[i]
    g = gen.Gen('local')
    e = {'exit': 0, 'drain': False, 'meta': m}
    if m['edit'] == 'post':
        e['edits0'] = [post(m['area'], 'l%d' % pos, m['local'], m['sent'], m['ks'])]
    elif m['edit']:
        e['edits0'] = [{'do': 'del', 'tag': m['area'], 'pick': 0 if m['edit'] == 'first' else -1, 'gone': False}]
    if m['run'] == 'scan':
        e.update(op='scan', how='ALL')
    elif m['run'] == 'rescan':
        e.update(op='rescan', tag='ONE', node=2, max=0, args=['RESCAN', 'ONE', 'RESCANNODE', '1:10/3'])
    elif m['run'] in ('pack', 'maint'):
        e.update(op='maint', maint=m['run'] == 'maint', pack=True, pat='', args=(['MAINT'] if m['run'] == 'maint' else []) + ['PACK'])
    else:
        e.update(op='toss', files=[], nosec=False, aux=[])
        if m['run'] == 'toss':
            x = g.msg(['AREA:ONE\r', '\x01MSGID: x %d\r' % pos, 'text\r', 'SEEN-BY: 10/2\r', '\x01PATH: 10/2\r'], [10, 2], [10, 1], subj='t%d' % pos, attr=0, cost=0,
                      date='01 Mar 01  12:00:00', to='All', **{'from': 'Somebody'})
            e['files'] = [{'name': '%08x.pkt' % pos, 'id': 'f%d' % pos, 'mtime': 10, 'pkt': g.pkt([1, 10, 2, 0], [1, 10, 1, 0], '', [x]), 'kind': 'PKT', 'rank': 0, 'dir': '', 'act': True}]
    return e


def rec(k, x):
    """the record of a message written, as the runner makes it"""
    if k & 1:
        r = dict(x['jam'])
        r.update(num=0, text=r.pop('rawtext'), rto=0, r1=0, rn=0)
        r['del'] = False
    else:
        r = dict(x['msg'])
        r.update(num=0, body=r.pop('text'), sbl=[], pathl=[], rto=0, nr=0, keep='0')
    return r


def model_data():
    scs = []
    for k in range(WORLDS):
        ev = []
        for i in range(len(EVENTS)):
            e = step(k, i, 0)
            x = e.pop('edits0', [])
            e['edits'] = [{'do': 'post', 'tag': y['tag'], 'rec': rec(k, y)} if y['do'] == 'post' else {'do': 'del', 'tag': y['tag'], 'num': 0} for y in x]
            e.update(drained=False, today=22345, wday=1, busy=[], obs={'arcs': []}, pre=[])
            ev.append(e)
        scs.append({'id': k, 'cfg': config_(k), 'nl': gen.NONL, 'disk': [], 'steps': ev})
    return {'scenarios': scs}


def scenario(id, k, h):
    return {'id': id, 'cfg': config_(k), 'nl': gen.NONL, 'disk': [], 'steps': [step(k, i, p + 1) for p, i in enumerate(h)]}


def fixed(tier):
    res = [(k, h) for k in range(WORLDS) for h in itertools.product(range(len(EVENTS)), repeat=2 if tier == 'quick' else 3)]
    return (scenario(100000 + i, k, h) for i, (k, h) in enumerate(res))


def local_scenario(g, id, **kw):
    return scenario(id, g.r.randrange(WORLDS), [g.r.randrange(len(EVENTS)) for _ in range(g.r.randint(3, 8))])
