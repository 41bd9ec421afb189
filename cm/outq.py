"""Small worlds of the outbound: mail for two systems, one or both busy, a mailer that sends what is queued, days that pass.  Explored
exhaustively by TLC in spec/MC_Out.tla and replayed with the real program, as in site.py."""
import itertools
from . import gen
from .conf import node, area, aka, link, config, route

WORLDS = 4
TODAY = 22345      # a day for the model


def config_(k):
    p = (('', ''), ('ZIP', ''), ('STO', 'ZIP'), ('ZIP', 'STO'))[k]
    nodes = [node([1, 10, 2, 0], packer=p[0]), node([2, 20, 3, 0], packer=p[1]), node([1, 10, 9, 0])]
    areas = [area('NETMAIL', 'NETMAIL', 1), area('BAD', 'BAD', 1), area('ONE', nodes=[link(1), link(2), link(3)]), area('TWO', nodes=[link(2), link(3)])]
    c = config(akas=[aka([1, 10, 1, 0])], nodes=nodes, areas=areas, routes=[route('*:*/*.*', '*:*/*.*', 1)], dupemode='KILL', dupesize=200,
               flags=('WEEKDAYNAMING',) if k >= 2 else (), fattach=['*:*/*.*'])
    c['maxbundle'] = (0, 0, 1, 100)[k]
    return c


# mail: what is tossed; busy: systems a mailer is talking to; drain: the mailer has sent everything before this run, trunc: and truncated the bundles; days: that have passed
E = [dict(mail='echo'), dict(mail='echo', busy=[1]), dict(mail='echo', busy=[2], days=1), dict(mail='echo', drain=True, days=1),
     dict(mail='echo', busy=[1], drain=True, days=7), dict(), dict(drain=True), dict(busy=[1, 2], drain=True, days=9), dict(mail='two', busy=[1]),
     dict(mail='net'), dict(mail='net', busy=[2], drain=True, days=8), dict(mail='file'), dict(mail='file', busy=[1], drain=True),
     dict(mail='echo', drain=True, trunc=True), dict(mail='dupe', days=6)]
EVENTS = [dict(dict(mail='', busy=[], drain=False, trunc=False, days=0), **e) for e in E]


def step(k, i, pos, last):
    """the i-th event as the pos-th of a history; last: the number of the last new echomail message"""
    m = EVENTS[i]
    g = gen.Gen('outq')
    e = {'op': 'toss', 'files': [], 'aux': [], 'nosec': False, 'exit': 0, 'meta': m, 'busy': [config_(k)['nodes'][n - 1]['a'] for n in m['busy']]}
    kw = {'date': '01 Mar 01  12:00:00', 'from': 'Somebody', 'cost': 0}
    if m['mail'] in ('echo', 'two', 'dupe'):
        x = [g.msg(['AREA:%s\r' % t, '\x01MSGID: x %d\r' % (last if m['mail'] == 'dupe' else pos), 'text\r', 'SEEN-BY: 10/9\r', '\x01PATH: 10/9\r'], [10, 9], [10, 1],
                   subj='m%d' % pos, attr=0, to='All', **kw) for t in (('ONE', 'TWO') if m['mail'] == 'two' else ('ONE',))]
    elif m['mail'] == 'net':
        x = [g.msg(['\x01INTL 2:20/3 1:10/9\r', 'text\r'], [10, 9], [20, 3], subj='m%d' % pos, attr=1, to='You', **kw)]
    elif m['mail'] == 'file':
        x = [g.msg(['text\r'], [10, 9], [10, 2], subj='a%d.txt' % pos, attr=0x11, to='You', **kw)]
        e['aux'] = [{'name': 'a%d.txt' % pos, 'id': 'x%d' % pos, 'data': 'file %d' % pos}]
    if m['mail']:
        e['files'] = [{'name': '%08x.pkt' % pos, 'id': 'f%d' % pos, 'mtime': 10, 'pkt': g.pkt([1, 10, 9, 0], [1, 10, 1, 0], '', x), 'kind': 'PKT', 'rank': 0, 'dir': '', 'act': True}]
    return e


def model_data():
    scs = []
    for k in range(WORLDS):
        ev = []
        for i in range(len(EVENTS)):
            e = step(k, i, 0, 0)
            e.update(drained=EVENTS[i]['drain'], today=TODAY, wday=1, edits=[], obs={'arcs': []})
            ev.append(e)
        scs.append({'id': k, 'cfg': config_(k), 'nl': gen.NONL, 'disk': [], 'steps': ev})
    return {'scenarios': scs}


def scenario(id, k, h):
    steps, day, last = [], 0, 0
    for p, i in enumerate(h):
        day += EVENTS[i]['days']
        e = step(k, i, p + 1, last)
        if EVENTS[i]['mail'] in ('echo', 'two'):
            last = p + 1
        e['day'] = day
        e['drain'] = False
        if steps and EVENTS[i]['drain']:
            steps[-1]['drain'] = 'trunc' if EVENTS[i]['trunc'] else True
        steps.append(e)
    steps[-1]['drain'] = True
    return {'id': id, 'cfg': config_(k), 'nl': gen.NONL, 'steps': steps}


def fixed(tier):
    res = [(k, h) for k in range(WORLDS) for h in itertools.product(range(len(EVENTS)), repeat=2 if tier == 'quick' else 3)]
    return (scenario(100000 + i, k, h) for i, (k, h) in enumerate(res))


def outq_scenario(g, id, **kw):
    return scenario(id, g.r.randrange(WORLDS), [g.r.randrange(len(EVENTS)) for _ in range(g.r.randint(3, 8))])
