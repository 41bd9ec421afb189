"""Random scenario material.  Everything is drawn from a seeded generator."""
import random
import time
from . import conf, fido
from .conf import node, area, aka, link, config, route, change

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'Hello', 'world', 'quote', '> text', 'x', 'The', 'quick', 'brown', 'fox']
NAMES = ['Alice', 'Bob Builder', 'Carol C', 'All', 'Sysop', 'Dave D', 'A' * 35, '']
HI = '\xe5\xe4\xf6\x80\xff\xc9'


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.run = 0
        self.names = 0xffff
        self.m = 0
        self.last = None
        self.fwd = False

    def chance(self, p):
        return self.r.random() < p

    def uid(self):
        self.n += 1
        return self.n

    def date(self):
        return '%02d Mar 01  %02d:%02d:%02d' % (self.r.randint(1, 28), self.r.randint(0, 23), self.r.randint(0, 59), self.r.randint(0, 59))

    def addr(self, zones=(1, 2), points=True):
        return [self.r.choice(zones), self.r.choice([10, 20, 200, 5020] * 8 + [40000]), self.r.randint(1, 30) if not self.chance(.02) else 33001,
                self.r.choice([0, 0, 0, 1, 7]) if points else 0]

    def words(self, n):
        return ' '.join(self.r.choice(WORDS) for _ in range(n))

    def textline(self):
        c = self.r.random()
        if c < .5:
            s = self.words(self.r.randint(1, 10))
        elif c < .6:
            s = ''
        elif c < .7:
            s = ''.join(self.r.choice(HI + 'abc ') for _ in range(self.r.randint(1, 30)))
        elif c < .8:
            n = self.r.choice([70, 79, 80, 196, 197, 198, 199, 200, 396, 397, 500])
            s = (self.words(120))[:n]
        elif c < .85:
            s = self.r.choice([' SEEN-BY: 1/1', 'seen-by: 2/2', '---', '... tag', ' * origin: no (1:1/1)', '-*-', 'AREA:XX', 'Re: x'])
        else:
            s = self.words(2) + '\t' + self.words(1)
        return s + ('\r' if not self.chance(.05) else '\n' if self.chance(.5) else '\r\n')

    def oddkludge(self):
        """control lines that begin like others, long ones"""
        return '\x01' + self.r.choice(['TOOLS: x', 'FMTS: y', 'TO', 'FM', 'REPLYADDR a@b.c', 'REPLYTO 1:1/1 x', 'MSGTO: z', 'CHRS: LATIN-1 2', 'TZUTC: 0100', 'PIDS: 1',
                                       'NOTE: ' + self.words(40)[:180], 'X' * 150, 'FLAG: DIR', 'SEEN: 1', '']) + '\r'

    def msgid(self):
        self.m += 1
        return '%s %08x' % (self.r.choice(['1:10/1', '2:20/3.4@fidonet', 'foo@bar.com', '1:2/3@x'] * 5 + ['a.rather.long.name.of.some.message.id@a.host.name.to.match']), self.m * 7919 + 17)

    def sbline(self, n):
        s = 'SEEN-BY:'
        net = 0
        for _ in range(n):
            a, b = self.r.choice([10, 20, 200, 5020, 7]), self.r.choice([0, 1, 2, 3, 4, 5, 11, 400, 32000, 65535, self.r.randint(1, 500)])
            t = ' %d/%d' % (a, b) if a != net or self.chance(.2) else ' %d' % b
            if len(s) + len(t) > 190:
                break
            s += t
            net = a
        return s + '\r'

    def pathline(self):
        s = '\x01PATH:'
        net = 0
        for _ in range(self.r.randint(1, 14)):
            a, b = self.r.choice([10, 20, 200]), self.r.randint(1, 600)
            t = ' %d/%d' % (a, b) if a != net else ' %d' % b
            if len(s) + len(t) > self.r.choice([60, 76, 79, 98]):
                break
            s += t
            net = a
        return s + '\r'

    def subj(self, tag='s'):
        s = '%s%d' % (tag, self.uid())
        if self.chance(.2):
            s = self.r.choice(['Re: ', 'RE:', 'Re: re: ', 'Re^2: ', 'Re[3]: ', 'Re^ab: ', 'Re[x: ', 'Reply: ', 'Re^2 x: ']) + s
        if self.chance(.1):
            s = (s + ' ' + 'z' * 72)[:71]
        return s

    def body(self, big=.05):
        n = self.r.randint(0, 8)
        if self.chance(big):
            n = self.r.choice([150, 400])
        L = [self.textline() for _ in range(n)]
        return L

    def echolines(self, area, opt=None):
        """lines of an echomail message in a packet"""
        o = opt or {}
        L = ['AREA:' + area + '\r']
        if o.get('areablank'):
            L = ['AREA: ' + area + ' \r']
        k = []
        mid = o.get('msgid', self.msgid() if self.chance(.85) else '')
        if mid:
            k.append('\x01MSGID: ' + mid + '\r')
        if self.chance(.3):
            k.append('\x01REPLY: ' + self.msgid() + '\r')
        if self.chance(.3):
            k.append('\x01PID: tool 1.%d\r' % self.r.randint(0, 9))
        if self.chance(.1):
            k.append('\x01FMPT 3\r')
        if self.chance(.15):
            k.append(self.oddkludge())
        if o.get('rescanned'):
            k.append('\x01RESCANNED 1:10/1\r')
        self.r.shuffle(k)
        L += k
        L += self.body()
        if self.chance(.6):
            L.append('--- tear\r')
            L.append(' * Origin: ' + self.r.choice(['x (1:20/4)', 'foo (bar) (2:20/5.6)', 'y (1:20/7@fido)', 'no address', 'z ()']) + '\r')
        c = self.r.random()
        if c < .75:
            for _ in range(self.r.choice([1, 1, 2, 3, 9])):
                L.append(self.sbline(self.r.choice([0, 1, 3, 8, 20])))
        if self.chance(.12):
            # more than fit into one block of the list
            k = self.r.randint(1, 50)
            for i in range(self.r.choice([4, 5, 6, 9, 10])):
                L.append('SEEN-BY: ' + ' '.join('%s%d' % ('5/' if j == 0 else '', k + 13 * i + j) for j in range(13)) + '\r')
        if o.get('sb'):
            L.append('SEEN-BY: ' + ' '.join('%d/%d' % tuple(x) for x in o['sb']) + '\r')
        for _ in range(self.r.choice([0, 0, 1, 1, 1, 2, 2, 10, 12])):
            L.append(self.pathline())
        if o.get('path'):
            L.append('\x01PATH: ' + o['path'] + '\r')
        if self.chance(.1):
            L.append(self.textline())
        if self.chance(.1) and not L[-1].startswith(('SEEN-BY', '\x01', 'AREA')):
            L[-1] = L[-1].rstrip('\r\n')
            if L[-1] == '':
                L.pop()
            elif len(L[-1]) < 190 and self.chance(.3):
                L[-1] += ' '
        return L

    def msg(self, lines, o2=None, d2=None, **kw):
        m = {'o2': o2 or [self.r.choice([10, 20]), self.r.randint(1, 30)], 'd2': d2 or [10, 1],
             'attr': self.r.choice([0, 0, 0, 1, 0x101, 0x8 | 0x100, 0x1000, 2]), 'cost': self.r.choice([0, 0, 7, 65535]),
             'date': self.date(), 'to': self.r.choice(NAMES), 'from': self.r.choice(NAMES[:7]), 'subj': self.subj(), 'lines': lines}
        m.update(kw)
        return m

    def pkt(self, orig, dest, pw, msgs, **kw):
        return {'raw': '', 'hdr': list(fido.pkt_header(orig, dest, pw, **kw)), 'msgs': msgs}

    def files(self, pkts):
        res = []
        used = set()
        for p in pkts:
            while True:
                n = self.r.choice(['%08x.pkt', '%08x.pkt', '%08X.PKT', '%08x.Pkt']) % self.r.randint(0, self.names)
                if n.lower() not in used:
                    break
            used.add(n.lower())
            res.append({'name': n, 'id': 'f%d' % self.uid(), 'mtime': self.r.choice([0, 10, 10, 10, 20]), 'pkt': p, 'kind': 'PKT', 'rank': 0, 'dir': '', 'act': True})
        for i, f in enumerate(sorted(res, key=lambda f: f['name'].lower())):
            f['rank'] = i
        self.r.shuffle(res)
        return res


# ------------------------------------------------------------------ echomail
TAGS0 = ['ECHO.ONE', 'Echo_Two', 'PASS', 'FOUR.X']
TAGS2 = ['L' * 62, 'L' * 61 + 'M', 'Q' * 77, 'Q' * 76 + 'R']
TAGS1 = ['A.RATHER.LONG.AREA.NAME.WITH.A.LONG.TAIL.ONE', 'A.RATHER.LONG.AREA.NAME.WITH.A.LONG.TAIL.TWO', 'A.RATHER.LONG', 'A.RATHER.LONGER']


def echo_config(g, base='MSG', **kw):
    r = g.r
    zones = r.choice([(1,), (1, 2)])
    akas = []
    while len(akas) < r.choice([1, 2, 3]):
        a = g.addr(zones, True)
        if any(x['a'] == a for x in akas):
            continue
        akas.append(aka(a, add=[[10, r.randint(1, 5)] for _ in range(r.choice([0, 0, 0, 2]))],
                        rem=r.choice([[], [], [], ['10/*'], ['20/1?'], ['*/3', '200/*'], ['10/1', '20/*']])))
    nodes = []
    nn = r.randint(2, 6)
    if g.chance(.06):
        nn = 60
    while len(nodes) < nn:
        a = g.addr(zones) if nn < 20 else [1, r.choice([10, 20, 200]), r.randint(1, 60), 0]
        if nodes and len(zones) > 1 and g.chance(.25):
            a = [3 - nodes[-1]['a'][0]] + nodes[-1]['a'][1:]     # the same numbers in another zone
        if any(n['a'] == a for n in nodes) or any(x['a'] == a for x in akas):
            continue
        fl = [f for f, p in (('PASSIVE', .1), ('TINYSEENBY', .12), ('NOSEENBY', .12), ('AUTOADD', .4), ('PACKNETMAIL', .2),
                             ('NONETMAILPASSWORD', .2)) if g.chance(p)]
        nodes.append(node(a, r.choice(['', '', 'SECRET', 'Pw%d' % len(nodes), 'EIGHTCHR']), r.choice(['', '', '', 'ZIP']), flags=fl,
                          defgroup=r.choice(['', 'A', 'B']), addgroups=r.choice(['', '', 'A', 'AB']), rogroups=r.choice(['', 'A']),
                          pri=r.choice(['NORMAL', 'NORMAL', 'CRASH', 'HOLD', 'DIRECT']),
                          pktfrom=r.choice([conf.NULL4] * 6 + [x['a'] for x in akas])))
    areas = [area('NETMAIL', 'NETMAIL', 1), area('BAD', 'BAD', 1)]
    if g.chance(.7):
        areas.append(area('DEFAULT', 'DEFAULT', 1, path='a/def_%l', nodes=mklinks(g, len(nodes), .2),
                          flags=[f for f in ('MANDATORY', 'DEFREADONLY', 'IGNOREDUPES', 'IGNORESEENBY') if g.chance(.15)],
                          base=r.choice(['MSG', 'MSG', '']), desc=r.choice(['', 'Default desc'])))
        if areas[-1]['base'] == '':
            areas[-1]['path'] = ''
        if g.chance(.5):
            areas.append(area('DEFAULT_B', 'DEFAULT', r.randint(1, len(akas)), path='a/b_%a', keepnum=r.choice([0, 50])))
    tags1 = r.choice([TAGS0] * 14 + [TAGS1] * 5 + [TAGS2])
    for i in range(r.randint(1, 4)):
        areas.append(area(tags1[i], 'ECHOMAIL', r.randint(1, len(akas)),
                          base='' if i == 2 or g.chance(.1) else base,
                          nodes=mklinks(g, len(nodes), .8),
                          flags=[f for f, p in (('IGNOREDUPES', .12), ('IGNORESEENBY', .2), ('UNCONFIRMED', .05)) if g.chance(p)]))
    if g.chance(.2):
        areas.append(area('LOC', 'LOCAL', 1))
    c = config(akas=akas, nodes=nodes, areas=areas, dupemode=r.choice(['BAD', 'BAD', 'KILL', 'IGNORE']),
               dupesize=r.choice([3, 5, 200, 200]), maxpkt=r.choice([0, 0, 1, 2]), defzone=r.choice([1, 2]),
               routes=[route('*:*/*.*', '1:10/1', 1)],
               flags=[f for f, p in (('CHECKSEENBY', .5), ('IMPORTSEENBY', .5), ('STRIPRE', .4), ('PATH3D', .3), ('CHECKPKTDEST', .3), ('WEEKDAYNAMING', .2), ('FLOWCRLF', .2)) if g.chance(p)])
    c.update(kw)
    return c


def mklinks(g, n, p):
    L = []
    for i in range(1, n + 1):
        if g.chance(p):
            L.append(link(i, g.chance(.12), g.chance(.1), g.chance(.1)))
    for l in L:
        if l['ro']:
            l['wo'] = l['feed'] = False
        elif l['wo']:
            l['feed'] = False
    g.r.shuffle(L)
    return L


def echo_toss(g, c, known, nmsg=None, newareas=True, bad=False):
    """one toss event of echomail"""
    r = g.r
    nosec = g.chance(.06)     # a message for BAD would then be stored there like in any area; not told apart here
    pkts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if g.chance(.9):
            n = r.choice(c['nodes'])
            o, pw = n['a'], n['pw']
            if g.chance(.1):
                pw = pw.lower()
        else:
            o, pw = g.addr((1, 2)), ''
        d = r.choice(c['akas'])['a'] if g.chance(.95) else [1, 10, 99, 0]
        if g.chance(.04):
            pw = r.choice(['WRONG', '', 'SECRETXX', pw[:-1], (pw + 'X')[:8]])
        if g.chance(.08):
            o = [0] + o[1:]
        msgs = []
        for _ in range(nmsg or r.randint(1, 4)):
            echoareas = [a for a in c['areas'] if a['type'] == 'ECHOMAIL']
            x = r.random()
            if x < .8 or not newareas:
                a = r.choice(echoareas)['tag']
                if g.chance(.1):
                    a = a.swapcase()
            elif x < .95:
                a = r.choice(['NEWAREA', 'New.Area:2', 'ANOTHER', 'a/b_c%l', 'NEW.A', 'NEW_A', 'N' * 76])
            else:
                a = r.choice(['LOC', 'LOC', 'NETMAIL', 'DEFAULT', 'DEFAULT_B', 'BAD' if bad and not nosec else 'LOC'])
            opt = {}
            if known and g.chance(.3):
                m = r.choice(known)
                opt['msgid'] = m[0] if g.chance(.9) else m[0].swapcase()
                if m[1] == 'BAD':
                    pass
                elif m[1].lower() == a.lower() or g.chance(.7):
                    a = m[1]
            opt['rescanned'] = g.chance(.06)
            opt['areablank'] = g.chance(.05)
            if g.chance(.5):
                opt['sb'] = [x['a'][1:3] for x in c['nodes'] if g.chance(.3) and x['a'][3] == 0][:10]
            if g.chance(.3):
                k = r.choice(c['akas'])['a']
                if g.chance(.2):
                    k = k[:3] + [r.choice([0, 5, k[3]])]
                opt['path'] = '%d/%d' % (k[1], k[2]) + ('.%d' % k[3] if k[3] else '')
            lines = g.echolines(a, opt)
            m = g.msg(lines)
            msgs.append(m)
            mid = [l[8:].strip() for l in lines if l.startswith('\x01MSGID: ')]
            if mid:
                # the same tag spelling is used again for the same identity
                known.append((mid[-1], a))
        pkts.append(g.pkt(o, d, pw, msgs))
    return {'op': 'toss', 'files': g.files(pkts), 'nosec': nosec, 'exit': 0}


def echo_scenario(g, id, nsteps=None, **kw):
    c = echo_config(g, **kw)
    if g.chance(.4):
        for a in c['areas']:
            if a['base'] and g.chance(.6):
                a['base'] = 'JAM'
        c['jammaxopen'] = g.r.choice([0, 1, 2, 5])
    known = []
    steps = [echo_toss(g, c, known, bad=True) for _ in range(nsteps or g.r.randint(1, 3))]
    return {'id': id, 'cfg': c, 'nl': NONL, 'steps': steps, 'tz': tz(g)}


def tz(g):
    """the time zone the system is in; the clock shows the same time in each"""
    return g.r.choice(['UTC', 'UTC', 'EST+5', 'MSK-3', 'AST-6'])


NONL = {'type': '', 'lists': []}
AATAGS = ['NEWAREA', 'New.Area:2', 'ANOTHER', 'a/b_c%l', 'NEW.A', 'NEW_A', 'X' * 60, 'Tag(1)', 'B.B', 'b_b', "o'x`y", 'A<B>C|D;E', 'DEFAULTX', 'BADX', 'N#1']


def aa_scenario(g, id):
    """echomail for unknown areas: default areas by group, descriptions from area lists, who is linked, later runs"""
    r = g.r
    c = echo_config(g)
    nodes, akas = c['nodes'][:6], c['akas']
    c['nodes'] = nodes
    for n in nodes:
        n.update(defgroup=r.choice(['', 'A', 'B', 'C', 'D']), addgroups=r.choice(['', 'A', 'BC', 'ABD', 'CD']), rogroups=r.choice(['', 'A', 'BD']))
        n['f']['AUTOADD'] = g.chance(.65)
    areas = [a for a in c['areas'] if a['type'] in ('NETMAIL', 'BAD')]
    defs = [t for t in ('DEFAULT', 'DEFAULT_A', 'DEFAULT_CB', 'DEFAULT_BD', 'default_dc') if g.chance(.6)]
    r.shuffle(defs)
    for k, t in enumerate(defs):
        b = r.choice(['MSG', 'MSG', 'JAM', ''])
        areas.append(area(t, 'DEFAULT', r.randint(1, len(akas)), base=b, path='' if not b else 'a/d%d_' % k + r.choice(['%l', '%a', '%A', 'x%L_y']),
                          nodes=mklinks(g, len(nodes), .25), desc=r.choice(['', 'Default desc %d' % k]),
                          keepnum=r.choice([0, 50, 7]), keepdays=r.choice([0, 14]), group=r.choice(['', 'Z']),
                          flags=[f for f in ('MANDATORY', 'DEFREADONLY', 'IGNOREDUPES', 'IGNORESEENBY') if g.chance(.25)]))
    areas.append(area('ECHO.ONE', 'ECHOMAIL', r.randint(1, len(akas)), base='MSG', nodes=mklinks(g, len(nodes), .8)))
    r.shuffle(areas)
    c['areas'] = areas
    c['arealists'] = [{'node': r.randint(1, len(nodes)), 'DESC': g.chance(.8), 'FORWARD': g.chance(.3), 'group': r.choice(['', 'A']),
                       'lines': [{'tag': r.choice([t, t, t.swapcase()]), 'desc': r.choice(['', 'Desc of ' + t[:9], 'D' * 60, 'E' * 100])}
                                 for t in r.sample(AATAGS[:6] + AATAGS[8:10], r.randint(1, 6))]}
                      for _ in range(r.choice([0, 1, 2, 3]))]
    tags = r.sample(AATAGS, 4)
    steps = []
    known = []
    for _ in range(r.choice([1, 2, 2, 3])):
        e = echo_toss(g, c, known, nmsg=r.choice([1, 2, 3]), bad=True)
        for f in e['files']:
            for m in f['pkt']['msgs']:
                if g.chance(.75):
                    m['lines'][0] = 'AREA:' + r.choice(tags) + '\r'
        steps.append(e)
    return {'id': id, 'cfg': c, 'nl': NONL, 'steps': steps}


# ------------------------------------------------------------------- netmail
def nodelist_lines(g, zones, addrs, noise=True):
    """a nodelist that lists (some of) addrs and others"""
    r = g.r
    L = [';A nodelist', ';S comment'] if noise else []
    for z in zones:
        L.append('Zone,%d,Zone_%d,Somewhere,Sysop,-Unpublished-,300' % (z, z))
        nets = sorted({a[1] for a in addrs if a[0] == z} | {r.choice([10, 20, 200, 300])})
        r.shuffle(nets)
        reg = 0
        for n in nets:
            if reg == 0 or g.chance(.5):
                reg += 1
                L.append('Region,%d,Region_%d,X,Y,1-2,300' % (50 + reg, reg))
                if g.chance(.3):
                    L.append(',%d,Indep,X,Y,1-2,300' % r.randint(1, 9))
            L.append('Host,%d,Net_%d,X,Y,1-2,9600' % (n, n))
            nodes = sorted({a[2] for a in addrs if a[0] == z and a[1] == n and g.chance(.8)} | {r.randint(1, 30) for _ in range(2)})
            for f in nodes:
                c = r.random()
                if c < .2:
                    L.append('Hub,%d,Hub_%d,X,Sys Op,1-2,9600,CM,V32' % (f, f))
                elif c < .3:
                    L.append('Pvt,%d,N_%d,X,Y,-,300' % (f, f))
                elif c < .4:
                    L.append('Hold,%d,N_%d,X,Y,1,300' % (f, f))
                elif c < .5:
                    L.append('Down,%d,N_%d,X,Y,1,300' % (f, f))
                else:
                    L.append(',%d,N_%d,X,Y,1,300,CM' % (f, f))
                if noise and g.chance(.2):
                    L.append(r.choice([';E', '', 'Garbage,5,x', 'point without comma', '  ,7,x']))
                if g.chance(.2):
                    L.append('Point,%d,P,X,Y,1,300' % r.randint(1, 3))
    return L


def nl_text(g, addrs):
    """nodelist lines with everything that occurs in nodelists, and malformed ones; appends the addresses meant"""
    r = g.r
    L = []
    cur = [0, 0, 0, 0]

    def rest():
        x = r.random()
        f = ['Name_%d' % g.uid(), 'Some_Place', 'Sys_\xe9p', r.choice(['-Unpublished-', '46-8-1']), '9600'] + r.choice([[], ['CM'], ['CM', 'XA', 'V34', 'U,T']])
        if x < .06:
            f = f[:r.randint(0, 4)]
        elif x < .1:
            f[r.randint(0, len(f) - 1)] = ''
        elif x < .13:
            f.append('F' * (199 - 60 - r.randint(0, 20)))
        return ''.join(',' + y for y in f)

    def kw(w):
        return r.choice([w, w, w, w.upper(), w.lower()])

    def num(n):
        if g.chance(.06):
            return r.choice(['', 'x', '%dx' % n, '-%d' % n, '70000', '1' * 12, 'x%d' % n])
        return str(n)
    for _ in range(r.randint(4, 45)):
        x = r.random()
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 400, 65535, 32768])
        if x < .04:
            L.append('%s,%s%s' % (kw('Zone'), num(r.randint(1, 3)), rest()))
        elif x < .09:
            L.append('%s,%s%s' % (kw('Region'), num(r.randint(10, 13)), rest()))
        elif x < .18:
            L.append('%s,%s%s' % (kw('Host'), num(r.choice([10, 20, 200, 5020])), rest()))
        elif x < .28:
            L.append('%s,%s%s' % (kw('Hub'), num(n), rest()))
        elif x < .52:
            L.append(',%s%s' % (num(n), rest()))
        elif x < .6:
            L.append('%s,%s%s' % (kw('Pvt'), num(n), rest()))
        elif x < .66:
            L.append('%s,%s%s' % (kw('Hold'), num(n), rest()))
        elif x < .73:
            L.append('%s,%s%s' % (kw('Down'), num(n), rest()))
        elif x < .87:
            L.append('%s,%s%s' % (kw('Point'), num(r.randint(1, 4)), rest()))
        elif x < .93:
            L.append(r.choice([';E error', ';', '', 'Garbage,5,x', 'Boss,1:10/5', 'point without comma', '  ,7,x', 'Hub', 'Zone', 'Pvt 5', ';,5,x', '\x1a', 'Pointless,3,x', 'Hosts,9,x', 'Hubba,7']))
        elif x < .96:
            pre = r.choice([';', ',%d,' % n, 'Hold,%d,' % n, ',x,', 'junk'])
            L.append(pre + 'z' * (499 - len(pre) - r.choice([0, 0, 0, 1])) + r.choice([',5,Hidden,X,Y,Z,300', 'Host,77,Hidden,X,Y,Z,300', 'Point,2,Hidden', 'Zone,3,H']))
        elif L:
            L.append(r.choice(L))
    return L


def nl_scenario(g, id):
    r = g.r
    steps = []
    for _ in range(r.choice([1, 1, 2])):
        files, conf_, prefs = [], [], []
        for i in range(r.choice([1, 1, 2, 2, 3])):
            base = r.choice(['nodelist', 'POINTS', 'FidoNet', 'region'])
            base += r.choice(['', '', str(i)])
            z = r.choice([0, 0, 0, 1, 2, 2, 21])
            if g.chance(.8):
                L = nl_text(g, None)
                if g.chance(.02):
                    # offsets beyond 16 bits
                    k = r.randint(0, len(L))
                    L[k:k] = [';' + 'c' * 480] * 140
                if g.chance(.8):
                    L.insert(0, 'Zone,%d,Z,X,Y,1,300' % r.randint(1, 3))
                eol = r.choice(['\r\n', '\r\n', '\n'])
                data = eol.join(L) + (eol if g.chance(.8) else r.choice(['', '\x1a', eol + '\x1a']))
                names = [base] if g.chance(.3) else []
                for k in range(r.choice([0, 1, 1, 2]) if names else r.randint(1, 3)):
                    names.append(base.swapcase() + '.%03d' % r.randint(1, 366) if g.chance(.3) else base + '.%03d' % r.randint(1, 366))
                if g.chance(.4):
                    names.append(r.choice([base + '.12', base + 'x.123', base[:-1] + '.200', base + '.12a', base + '.1234', base + '-100']))
                for nm in names:
                    if nm.lower() not in [f['name'].lower() for f in files]:
                        D = data if len(names) == 1 else eol.join((['Zone,1,A,B,C,D,300'] if g.chance(.5) else []) + nl_text(g, None)) + eol
                        files.append({'name': nm, 'data': D, 'mtime': 1000000000 + 100 * r.randint(0, 10 ** 6)})
            if g.chance(.2):
                conf_.append({'text': r.choice(['; comment\n', ';x 3\n', '\n', '  \n'])})
            want = r.choice([base, base, files[-1]['name'] if files else base])
            prefs.append({'want': want, 'zone': z})
            conf_.append({'text': (r.choice(['%s', '%s', '"%s"', '  %s']) % want) + (' %d' % z if z else r.choice(['', ' ', ' 0'])) + r.choice(['\n', '\r\n'] if z else ['\n'])})
        steps.append({'op': 'index', 'files': files, 'prefs': prefs, 'conf': conf_, 'exit': 0})
        addrs = set()
        nums = {'zone': {1, 2, 3}, 'net': {1, 2, 10, 11, 20, 200, 5020, 77}, 'node': {0, 1, 5}, 'pt': {0, 1, 2}}
        # addresses that may be meant by the lines
        for f in files:
            z, n, nd = 0, 0, 0
            for l in f['data'].split('\n'):
                w = l.split(',')
                if len(w) < 2 or not w[1].strip().isdigit() or len(w[1]) > 6:
                    continue
                v, k = int(w[1]) & 0xffff, w[0].lower()
                if k == 'zone': z, n, nd = v, v, 0
                elif k in ('region', 'host'): n, nd = v, 0
                elif k == 'point':
                    addrs.add((z, n, nd, v))
                    continue
                elif k in ('', 'pvt', 'hold', 'hub', 'down'): nd = v
                addrs.add((z, n, nd, 0))
                if z == 0:
                    addrs |= {(p['zone'], n, nd, 0) for p in prefs}
        addrs = [list(a) for a in r.sample(sorted(addrs), min(len(addrs), 14))]
        for _ in range(6):
            addrs.append([r.choice([0, 1, 2, 3, 21]), r.choice(sorted(nums['net'])), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20]), r.choice([0, 0, 0, 1, 2, 3])])
        steps.append({'op': 'lookup', 'addrs': addrs, 'full': g.chance(.5), 'exit': 0})
    return {'id': id, 'kind': 'nl', 'steps': steps}


PATS = ['*', '*:*/*.*', '1:*/*', '1:*/*.*', '2:*/*.*', '1:10/*', '1:10/*.*', '1:10/1?.*', '1:20/*', '*:*/*.1', '1:10/1', '1:10/5.*',
        'ZONE 1', 'ZONE 2', 'NET 1:10', 'NET 2:20', 'NODE 1:10/5', 'NODE 2:200/7', 'REGION 1:51', 'REGION 2:52', 'HUB 1:10/5', '200/*.*', '1:*/?.*', '2:2*/*.*', '?:1?/*.0']
DPATS = ['1:10/1', '2:20/1', '1:10/1.7', '*:*/*.*', '*:*/*.0', '*:*/0.0', '*:*/0', '1:*/*.0', 'ZONE', 'REGION', 'NET', 'HUB', 'NODE', '1:20/*.*', '*:10/3.*', '*:*/*']


def netmail_config(g, **kw):
    r = g.r
    zones = r.choice([(1,), (1, 2)])
    akas = []
    n = r.choice([1, 2, 3])
    while len(akas) < n:
        a = g.addr(zones, True)
        if not any(x['a'] == a for x in akas):
            akas.append(aka(a))
    nodes = []
    n = r.randint(1, 5)
    while len(nodes) < n:
        a = g.addr(zones)
        if g.chance(.3):
            a = list(r.choice(akas)['a'][:3]) + [r.randint(1, 4)]
        if any(x['a'] == a for x in nodes) or any(x['a'] == a for x in akas):
            continue
        nodes.append(node(a, r.choice(['', '', 'SECRET', 'Pw%d' % len(nodes), 'EIGHTCHR']), r.choice(['', '', 'ZIP']),
                          flags=[f for f, p in (('PACKNETMAIL', .2), ('NONETMAILPASSWORD', .3)) if g.chance(p)],
                          pktfrom=r.choice([conf.NULL4] * 6 + [x['a'] for x in akas])))
    areas = [area('NETMAIL', 'NETMAIL', 1)]
    for i in range(1, len(akas)):
        if g.chance(.5):
            areas.append(area('NETMAIL%d' % (i + 1), 'NETMAIL', i + 1))
    for a in areas:
        if g.chance(.35):
            a['imports'] = [g.addr(zones) if g.chance(.5) else list(r.choice(akas)['a'][:3]) + [r.randint(1, 4)] for _ in range(r.randint(1, 2))]
    if g.chance(.1):
        areas.pop(0)
    if g.chance(.95):
        areas.append(area('BAD', 'BAD', 1))
    c = config(akas=akas, nodes=nodes, areas=areas, maxpkt=r.choice([0, 0, 0, 1]), defzone=r.choice([1, 2]),
               loopmode=r.choice(['IGNORE', 'LOG', 'LOGBAD', 'LOGBAD']),
               routes=[route(r.choice(PATS), r.choice(DPATS), r.randint(1, len(akas))) for _ in range(r.randint(0, 4))] +
               ([route('*:*/*.*', r.choice(DPATS), r.randint(1, len(akas)))] if g.chance(.75) else []),
               changes=[change(r.sample(['NORMAL', 'CRASH', 'DIRECT', 'HOLD'], r.randint(1, 4)), r.choice(PATS),
                               r.choice(['NORMAL', 'CRASH', 'DIRECT', 'HOLD'])) for _ in range(r.choice([0, 0, 1, 2, 3]))],
               bounce=[r.choice(PATS) for _ in range(r.choice([0, 1, 2]))],
               fattach=[r.choice(PATS) for _ in range(r.choice([0, 1, 2]))],
               flags=[f for f, p in (('NOROUTE', .08), ('FORCEINTL', .4), ('IMPORTEMPTYNETMAIL', .4), ('BOUNCEPOINTS', .5), ('ANSWERRECEIPT', .6),
                                     ('ANSWERAUDIT', .6), ('NODIRECTATTACH', .3), ('BOUNCEHEADERONLY', .4), ('STRIPRE', .3), ('ADDTID', .3), ('CHECKPKTDEST', .2)) if g.chance(p)])
    c.update(kw)
    return c


def netmail_msg(g, c, aux, o, d):
    """one netmail; returns the packet message"""
    r = g.r
    akas = [x['a'] for x in c['akas']]
    pool = akas + [n['a'] for n in c['nodes']] + [a[:3] + [r.randint(1, 4)] for a in akas] + [x for a in c['areas'] for x in a['imports']]
    dest = list(r.choice(pool)) if g.chance(.75) else g.addr((1, 2, 3))
    if g.last and g.chance(getattr(g, 'same', .25)):
        dest = list(g.last)
    g.last = dest
    orig = list(r.choice(pool)) if g.chance(.6) else g.addr((1, 2))
    k = []
    mode = r.random()
    o2, d2 = orig[1:3], dest[1:3]
    if mode < .5 or orig[0] != o[0] or dest[0] != d[0]:
        k.append('\x01INTL%s %d:%d/%d %d:%d/%d\r' % (r.choice(['', '', ':']), dest[0], dest[1], dest[2], orig[0], orig[1], orig[2]))
        if g.chance(.15):
            o2, d2 = [7, 7], [8, 8]      # the control line wins
    if orig[3] and g.chance(.9):
        k.append('\x01FMPT %d\r' % orig[3])
    if dest[3] and g.chance(.9):
        k.append('\x01TOPT %d\r' % dest[3])
    if g.chance(.3):
        k.append('\x01MSGID: %s\r' % g.msgid())
    if g.chance(.1):
        k.append(g.oddkludge())
    r.shuffle(k)
    attr = 0
    for b, p in ((1, .5), (2, .12), (8, .1), (0x10, getattr(g, 'attach', .12)), (0x80, .1), (0x100, .1), (0x200, .12), (0x1000, .25), (0x2000, .1), (0x4000, .25), (0x20, .1), (4, .1), (0x800, .05), (0x8000, .05)):
        if g.chance(p):
            attr |= b
    body = g.body(.05)
    if g.chance(.12):
        body = []
    if body and g.chance(.1):
        # text without a final end of line
        body[-1] = body[-1].rstrip('\r\n') or 'last'
        tail = []
    else:
        tail = []
        if body and not body[-1].endswith('\r'):
            body[-1] = body[-1].rstrip('\r\n') + '\r'
        for _ in range(r.choice([0, 0, 1, 2])):
            a = list(r.choice(pool + akas)) if g.chance(.7) else g.addr()
            s = conf.s4(a) if g.chance(.5) else conf.s4s(a)
            if g.chance(.1):
                s = '%d/%d' % (a[1], a[2])
            tail.append('\x01Via %s%s @20010101.000000 %s\r' % (r.choice(['', '', '', 'a gateway that tells its long name first ']), s, r.choice(['CrashMail II/Linux 1.0', 'Squish 1.0', 'CrashMail'])))
    body = [l.replace('\n', '\r') if not l.endswith('\r\n') else l[:-1] for l in body]
    subj = g.subj('n')
    if attr & 0x10 or g.chance(.05):
        names = []
        for _ in range(r.randint(1, 3)):
            n = 'att%d_%d.zip' % (g.run, r.randint(1, 5)) if g.chance(.95) else 'att%d_1.zip' % (g.run - 1)
            names.append(r.choice(['', '', 'c:\\dir\\', '/path/']) + n)
            if g.chance(.7) and not any(x['name'] == n for x in aux) and n.startswith('att%d_' % g.run):
                i = g.uid()
                aux.append({'name': n, 'id': 'x%d' % i, 'data': 'file data %d' % i})
        subj = r.choice([' ', ', ', ','])  .join(names)
    return g.msg(k + body + tail, o2, d2, attr=attr, subj=subj)


def netmail_toss(g, c, **kw):
    r = g.r
    g.run += 1
    pkts, aux = [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        if c['nodes'] and g.chance(.7):
            n = r.choice(c['nodes'])
            o, pw = n['a'], n['pw'] if g.chance(.92) else r.choice(['BAD', '', n['pw'][:-1], (n['pw'] + 'X')[:8]])
        else:
            o, pw = g.addr((1, 2)), ''
        d = r.choice(c['akas'])['a'] if g.chance(.9) else g.addr((1, 2))
        h = [list(o), list(d)]
        if g.chance(.12):
            h[0][0] = 0
        if g.chance(.12):
            h[1][0] = 0
        msgs = [netmail_msg(g, c, aux, o, d) for _ in range(r.randint(1, 4))]
        pkts.append(g.pkt(h[0], h[1], pw, msgs))
    return {'op': 'toss', 'files': g.files(pkts), 'aux': aux, 'nosec': g.chance(.05), 'exit': 0}


def netmail_scenario(g, id, **kw):
    c = netmail_config(g, **kw)
    nl = NONL
    if g.chance(.6):
        addrs = [x['a'] for x in c['akas']] + [n['a'] for n in c['nodes']] + [g.addr((1, 2)) for _ in range(6)]
        nl = {'type': 'CMNL', 'lists': [{'zone': 0, 'lines': nodelist_lines(g, (1, 2), addrs)}]}
    else:
        # region and hub patterns need a nodelist
        for l in (c['bounce'], c['fattach']):
            l[:] = [x for x in l if x[:3] not in ('REG', 'HUB')]
        c['changes'] = [x for x in c['changes'] if x['pat'][:3] not in ('REG', 'HUB')]
        c['routes'] = [x for x in c['routes'] if x['pat'][:3] not in ('REG', 'HUB') and x['dest'] not in ('REGION', 'HUB')]
        c['bounce'] = []
    return {'id': id, 'cfg': c, 'nl': nl, 'steps': [netmail_toss(g, c) for _ in range(r_steps(g))]}


def r_steps(g):
    return g.r.choice([1, 1, 2])


# ------------------------------------------------- packet files and bundles
LIMITS = (('date', 20), ('to', 36), ('from', 36), ('subj', 72))


def mutate(g, p):
    """turn a structured packet into a (possibly) damaged raw one"""
    r = g.r
    p = {'raw': '', 'hdr': list(p['hdr']), 'msgs': [dict(m) for m in p['msgs']]}
    h = p['hdr']

    def put(o, n):
        h[o], h[o + 1] = n & 255, n >> 8
    w = lambda o: h[o] + 256 * h[o + 1]
    c = r.random()
    if c < .05:
        put(18, r.choice([0, 1, 3, 0x102, 0x200]))
    elif c < .13:
        put(16, 2)                       # type 2.2
        if g.chance(.3):
            put(50, r.choice([0, 1]))
    elif c < .2:
        h[r.choice([40, 41, 44, 45])] ^= r.choice([1, 2, 128])      # no valid capability word
    elif c < .26:
        put(38, w(20))
        put(20, 65535)                   # point: net in the auxiliary field
    elif c < .32:
        put(46, 0)
        put(48, 0)
        if g.chance(.5):
            put(34, 0)
    elif c < .36:
        put(r.choice([0, 2, 20, 22, 46, 48, 50, 52]), r.choice([0, 1, 7, 99, 65535]))
    elif c < .39:
        put(38, r.choice([1, 10, 20]))   # an auxiliary net nobody asked for
    elif c < .44:
        h[26 + r.randint(0, 7)] = r.choice([0, 65, 97, 255])
    if p['msgs'] and g.chance(.3):
        m = r.choice(p['msgs'])
        f, n = r.choice(LIMITS)
        m[f] = ''.join(r.choice('abcXYZ 09') for _ in range(r.choice([n - 2, n - 1, n - 1, n, n + 1, n + 30, 0])))
    raw = fido.pkt_bytes(p)
    offs = [58]
    for m in p['msgs']:
        offs.append(offs[-1] + len(fido.msg_bytes(m)))
    c = r.random()
    if c < .15:
        raw = raw[:r.randint(0, len(raw))]
    elif c < .3:
        raw = raw[:max(0, min(len(raw), r.choice(offs) + r.choice([-2, -1, 0, 1, 2, 3, 13, 14, 15])))]
    elif c < .34:
        raw = raw[:58 + r.choice([-1, 0, 1, 1, 2])]
        if g.chance(.4):
            raw = raw[:58] + b'\0' * r.choice([1, 1, 2, 3])
    elif c < .4 and p['msgs']:
        raw = raw[:r.choice(offs[:-1]) + 14 + r.randint(0, 60)]
    elif c < .45:
        raw = raw[:-1]
    elif c < .5:
        raw = raw + r.choice([b'\0', b'\x1a' * 20, b'\2\0junk'])
    elif c < .57 and p['msgs']:
        i = r.choice(offs)
        raw = raw[:i] + bytes([r.choice([0, 1, 3, 2]), r.choice([0, 1])]) + raw[i + 2:]
    elif c < .64 and p['msgs']:
        k = r.randrange(len(p['msgs']))
        i = offs[k] + 14 + r.randint(0, 60)
        raw = raw[:i] + b'\0' + raw[i + 1:]
    return {'raw': raw.decode('latin-1'), 'hdr': [], 'msgs': []}


def names_toss(g, c, toss):
    """damage packets, pack some of them into bundles, add files that are no packets"""
    r = g.r
    e = toss
    for f in e['files']:
        if g.chance(.6):
            f['pkt'] = mutate(g, f['pkt'])
            if not f['pkt']['raw']:
                f['pkt']['raw'] = '\x02'
    fs = e['files']
    if g.chance(.4):
        k = r.randint(0, len(fs))
        mem, fs = fs[:k], fs[k:]
        st = r.choice(['ok'] * 8 + ['empty', 'bad', 'bad'])
        a = {'name': '%08x.%s%s' % (r.randint(0, g.names), r.choice(['mo', 'TU', 'We', 'th', 'fr', 'sa', 'su']), r.choice('0a9Z')), 'id': 'f%d' % g.uid(),
             'mtime': r.choice([0, 10, 20]), 'kind': 'ARC', 'rank': 0, 'dir': '', 'act': True, 'state': st, 'members': mem if st == 'ok' else [],
             'mangle': r.choice(['PK\3\4 this is not an archive', 'Rar!', '', 'PK'])}
        for i, f in enumerate(sorted(mem, key=lambda f: f['name'].lower())):
            f['rank'] = i
        if mem:
            fs.append(a)
        e['files'] = fs
    e.setdefault('aux', [])
    for _ in range(r.choice([0, 0, 1, 2])):
        i = g.uid()
        n = r.choice(['%07x.pkt', '%09x.pkt', '%08x.pk', '%08x.mo', '%08x.txt', '%08x_pkt', '%08x.moo1', 'x%d.bad']) % r.randint(0, 9)
        if not any(x['name'] == n for x in g.aux):
            x = {'name': n, 'id': 'x%d' % i, 'data': 'file data %d' % i}
            e['aux'].append(x)
            g.aux.append(x)
    c2 = r.random()
    if c2 < .1 and len(e['files']) == 1:
        f = e['files'][0]
        f['dir'] = 'other/'
        e['how'] = ['TOSSFILE', 'other/' + f['name']]
    elif c2 < .2:
        for f in e['files']:
            f['dir'] = 'other/'
        e['how'] = ['TOSSDIR', 'other']
    if not e['files']:
        e['how'] = ['TOSS']
    return e


def raw_scenario(g, id, **kw):
    r = g.r
    g.names = 3
    g.aux = []
    known = []
    net = g.chance(.35)
    c = netmail_config(g) if net else echo_config(g)
    c['f']['CHECKPKTDEST'] = g.chance(.4)
    if net:
        c['bounce'] = []
        for l in (c['fattach'],):
            l[:] = [x for x in l if x[:3] not in ('REG', 'HUB')]
        c['changes'] = [x for x in c['changes'] if x['pat'][:3] not in ('REG', 'HUB')]
        c['routes'] = [x for x in c['routes'] if x['pat'][:3] not in ('REG', 'HUB') and x['dest'] not in ('REGION', 'HUB')]
    steps = []
    for _ in range(g.r.randint(1, 3)):
        t = netmail_toss(g, c) if net else echo_toss(g, c, known, nmsg=g.r.randint(1, 3))
        # packets stay small: the raw parser of the model is slow
        for f in t['files']:
            for m in f['pkt']['msgs']:
                m['lines'] = m['lines'][:25]
                if m['lines'] and not m['lines'][-1].endswith('\r') and m['lines'][-1].startswith(('SEEN', '\x01', 'AREA')):
                    m['lines'].pop()
        t['files'] = t['files'][:4]
        if not net and g.chance(.3):
            # netmail and echomail in one packet
            for f in t['files']:
                o, d = [f['pkt']['hdr'][x] + 256 * f['pkt']['hdr'][x + 1] for x in (46, 20, 0, 50)], [f['pkt']['hdr'][x] + 256 * f['pkt']['hdr'][x + 1] for x in (48, 22, 2, 52)]
                aux = []
                m = netmail_msg(g, c, aux, o, d)
                m['attr'] &= ~0x10
                f['pkt']['msgs'].insert(r.choice([0, 0, len(f['pkt']['msgs'])]), m)
                for n in c['nodes']:
                    if n['a'] == o and g.chance(.5):
                        # no password needed, but only for the netmail
                        n['f']['NONETMAILPASSWORD'] = True
                        n['pw'] = n['pw'] or 'PASSWORD'
                        if g.chance(.6):
                            f['pkt']['hdr'][26:34] = list(r.choice([b'WRONG', b'', b'PASS']).ljust(8, b'\0'))
        steps.append(names_toss(g, c, t))
    return {'id': id, 'cfg': c, 'nl': NONL, 'steps': steps}


# ------------------------------------------------------------------ outbound
def out_scenario(g, id, **kw):
    """histories of mixed mail with busy systems, bundles, domains and calendar days"""
    r = g.r
    c = echo_config(g)
    sc = {'id': id, 'cfg': c, 'nl': NONL}
    c['maxbundle'] = r.choice([0, 1, 1, 2, 4])
    for a in c['areas']:
        if a['type'] == 'ECHOMAIL':
            a['group'] = r.choice(['', 'A', 'B'])
    c['f']['CHECKPKTDEST'] = False
    for n in c['nodes']:
        n['packer'] = r.choice(['', 'ZIP', 'ZIP', 'STO'])
        n['f']['PASSIVE'] = False
    zs = sorted({a['a'][0] for a in c['akas']})
    if len(zs) == 2 and g.chance(.7):
        doms = {1: r.choice(['fidonet', 'fidonet', '']), 2: r.choice(['othernet', 'fidonet', 'FidoNet', 'a'])}
        for a in c['akas']:
            a['domain'] = doms[a['a'][0]]
        idx = {z: [i + 1 for i, a in enumerate(c['akas']) if a['a'][0] == z][0] for z in zs}
        c['routes'] = [route('1:*/*.*', '*:*/*.*', idx[1]), route('2:*/*.*', '*:*/*.*', idx[2]), route('*:*/*.*', '*:*/*.*', 1)]
        first = c['akas'][0]['a'][0]
        o = 3 - first
        if doms[1] and doms[1].lower() != doms[2].lower():
            sc['domzone'] = {doms[o]: o}
            sc['dirs'] = {conf.s4(n['a']): doms[o] for n in c['nodes'] if n['a'][0] == o}
    else:
        c['routes'] = [route('*:*/*.*', r.choice(['*:*/*.*', '*:*/*.*', '*:*/*.0']), r.randint(1, len(c['akas'])))]
    if g.chance(.5):
        c['changes'] = [change(r.sample(['NORMAL', 'CRASH', 'DIRECT', 'HOLD'], r.randint(1, 4)), r.choice([x for x in PATS if x[:3] not in ('REG', 'HUB')]),
                               r.choice(['NORMAL', 'CRASH', 'DIRECT', 'HOLD'])) for _ in range(r.choice([1, 2, 3]))]
    if g.chance(.2):
        # several kinds of mail for the same system in one run
        c['changes'] = [change([r.choice(['NORMAL', 'DIRECT'])], '*:*/*.*', r.choice(['CRASH', 'HOLD', 'DIRECT']))]
        g.same, g.attach = .7, .4
    known, steps, day = [], [], 0
    for _ in range(r.randint(2, 5)):
        e = echo_toss(g, c, known, nmsg=r.randint(1, 3)) if g.chance(.6) else netmail_toss(g, c)
        if g.chance(.4):
            # more packets than fit into one bundle
            e2 = netmail_toss(g, c) if g.chance(.3) else echo_toss(g, c, known, nmsg=r.randint(1, 3))
            have = {f['name'].lower() for f in e['files']}
            e['files'] += [f for f in e2['files'] if f['name'].lower() not in have]
            e.setdefault('aux', []).extend(e2.get('aux', []))
            for i, f in enumerate(sorted(e['files'], key=lambda f: f['name'].lower())):
                f['rank'] = i
        day += r.choice([0, 0, 0, 1, 1, 2, 6, 7, 9])
        e['day'] = day
        e['drain'] = r.choice([True, True, False, False, 'trunc'])
        e['busy'] = [n['a'] for n in c['nodes'] if g.chance(.25)]
        if len(c['nodes']) > 20:
            e['busy'] = e['busy'][:3]
        steps.append(e)
    c['fattach'] = ['*:*/*.*']
    for e in steps:
        have = {x['name'] for x in e.get('aux', [])}
        for f in e['files']:
            for m in f['pkt']['msgs']:
                if m['attr'] & 0x10:
                    # an attachment that is not there and waits for a busy system is not modelled; no file is named twice
                    n = m['subj'].replace('\\', '/').replace(',', ' ').split()
                    names = {x.split('/')[-1] for x in n}
                    if len(n) == len(names) and names <= have:
                        have -= names
                    elif any(x['busy'] for x in steps):
                        m['attr'] &= ~0x10
    for e in steps:
        if g.chance(.7):
            e['report'] = {'sort': r.choice('aaatmdlu'), 'last7': g.chance(.3), 'noareas': g.chance(.08), 'nonodes': g.chance(.15),
                           'group': r.choice(['', '', '', '', 'A', 'ab'])}
    sc['steps'] = steps
    return sc


# ------------------------------------------------------------------- AreaFix
AFTAGS = ['ECHO.ONE', 'Echo_Two', 'PASS', 'FOUR.X', 'ECHO.FIVE', 'E', 'LONG.AREA.NAME.WITH.MORE.THAN.THIRTY.CHARS']
FWTAGS = ['FWD.ONE', 'fwd_two', 'FWD.THREE', 'ECHO.ONE', 'X.Y', 'A.B', 'A_B', 'FORWARDED.AREA.WITH.A.RATHER.LONG.NAME', 'Z' * 60]
PWS = ['', 'secret', 'Secret1', 'two words', 'x' * 39, 'a"b', 'back\\slash', 'PW']


def af_config(g, base='MSG'):
    r = g.r
    c = echo_config(g, base)
    akas, nodes = c['akas'], c['nodes']
    if len(nodes) > 20:
        del nodes[6:]
        c['areas'][2:] = [a for a in c['areas'][2:] if not a['nodes'] or all(l['i'] <= 6 for l in a['nodes'])]
    grp = lambda n: ''.join(sorted(r.sample('ABCZ', r.randint(0, n))))
    for i, n in enumerate(nodes):
        n['afpw'] = r.choice(PWS)
        n['groups'], n['rogroups'], n['addgroups'] = grp(4), grp(2), grp(2)
        n['sysop'] = r.choice(['', 'Sysop %d' % i, 'S' * 35])
        n['rafname'], n['rafpw'] = r.choice([('', ''), ('AreaFix', 'up pw'), ('areamgr', 'x')])
        n['packer'] = r.choice(['', 'ZIP', 'STO'])
        for f, p in (('FORWARDREQ', .6), ('NOTIFY', .4), ('SENDAREAFIX', .4), ('SENDTEXT', .4)):
            n['f'][f] = g.chance(p)
        n['f']['AFNEEDSPLUS'] = bool(n['rafname']) and g.chance(.4)
    areas = [a for a in c['areas'] if a['type'] != 'ECHOMAIL']
    for t in AFTAGS:
        if g.chance(.8):
            areas.append(area(t, 'ECHOMAIL', r.randint(1, len(akas)), base=r.choice([base, base, '']), nodes=mklinks(g, len(nodes), r.choice([.2, .5])),
                              group=r.choice(['', 'A', 'A', 'B', 'C']), desc=r.choice(['', 'Some area', 'A description that is rather long, longer than a column', 'with "quotes" \\']),
                              banned=[i + 1 for i in range(len(nodes)) if g.chance(.1)],
                              flags=[f for f, p in (('MANDATORY', .15), ('DEFREADONLY', .15), ('UNCONFIRMED', .05)) if g.chance(p)]))
            if g.chance(.6) and areas[-1]['nodes']:
                l = r.choice(areas[-1]['nodes'])
                l.update(ro=False, wo=False, feed=True)
    c['areas'] = areas
    c['arealists'] = []
    for _ in range(r.choice([0, 1, 1, 2])):
        c['arealists'].append({'node': r.randint(1, len(nodes)), 'DESC': g.chance(.6), 'FORWARD': g.chance(.8), 'group': r.choice(['', 'A', 'B', 'C']),
                               'lines': [{'tag': t, 'desc': r.choice(['', 'Desc of ' + t[:9], 'D' * 100])} for t in r.sample(FWTAGS, r.randint(1, 6))]})
    c['groups'] = [[x, 'Group ' + x] for x in 'ABCZ' if g.chance(.7)]
    c['afmaxlines'] = r.choice([0, 0, 0, 1, 2, 3, 5, 8, 12, 30])
    c['afnames'] = r.choice([['areafix'], ['AreaFix', 'areamgr']])
    if g.chance(.6):
        c['afhelp'] = 'help.txt'
        c['helplines'] = [r.choice(['', 'Help line %d' % i, '  indented  ', 'tab\there', 'h' * 98]) for i in range(r.randint(0, 9))]
    for f, p in (('AREAFIXREMOVE', .5), ('REMOVEWHENFEED', .5), ('FORWARDPASSTHRU', .4), ('ALLOWRESCAN', .7), ('INCLUDEFORWARD', .5),
                 ('IMPORTAREAFIX', .3), ('ADDTID', .3), ('FORCEINTL', .3)):
        c['f'][f] = g.chance(p)
    c['f']['CHECKPKTDEST'] = False
    c['routes'] = [route('*:*/*.*', '*:*/*.*', r.randint(1, len(akas)))] if g.chance(.9) else [route('1:10/*.*', '1:10/1', 1)]
    if g.fwd:
        # several uplinks with lists, some of them without a route
        c['areas'] = [a for a in c['areas'] if a['type'] != 'ECHOMAIL' or g.chance(.3)]
        c['arealists'] = []
        for i in r.sample(range(len(nodes)), min(len(nodes), r.randint(2, 3))):
            nodes[i]['rafname'], nodes[i]['rafpw'] = r.choice([('AreaFix', 'up pw'), ('areamgr', 'x')])
            c['arealists'].append({'node': i + 1, 'DESC': g.chance(.6), 'FORWARD': g.chance(.9), 'group': r.choice('AABC'),
                                   'lines': [{'tag': t, 'desc': r.choice(['', 'Desc of ' + t[:9]])} for t in r.sample(FWTAGS, r.randint(2, 5))]})
        for n in nodes:
            n['groups'], n['f']['FORWARDREQ'] = grp(4) if g.chance(.3) else 'ABC', g.chance(.9)
        if g.chance(.4):
            c['routes'] = [route(conf.s4s(n['a']), '*:*/*.*', r.randint(1, len(akas))) for n in nodes if g.chance(.7)]
    return c


def af_tag(g, c):
    r = g.r
    x = r.random()
    t = r.choice([a['tag'] for a in c['areas'] if a['type'] == 'ECHOMAIL'] or ['E']) if x < (.2 if g.fwd else .55) else r.choice(FWTAGS) if x < .8 else \
        r.choice(['*', 'ECHO*', 'E?HO.ONE', 'ECHO.????', 'FWD*', '?', 'P*ASS', 'NETMAIL', 'BAD', 'DEFAULT', 'NO.SUCH.AREA', 'L*', '*X'])
    return t.swapcase() if g.chance(.15) else t


def af_line(g, c):
    r = g.r
    x = r.random()
    if x < .3:
        l = r.choice(['%LIST', '%QUERY', '%UNLINKED', '%HELP', '%INFO', '%PAUSE', '%RESUME', '%pause', '%Resume', '%RESCAN', '%COMPRESS ' + r.choice(['ZIP', 'sto', 'NONE', '?', 'ARJ', '', '"ZIP"', 'Z', 'ST', 'ZIPP']),
                      '%PWD ' + r.choice(['newpw', '"new pw"', '', 'p\\"q', 'n' * 60, 'a\\\\b']), '%UNKNOWN x', '%', '%LISTE', '%HELP please'])
    elif x < .36:
        return r.choice(['', '   ', '\x01KLUDGE: x', '\t', ' ---', '  --- x', '--'])
    else:
        l = r.choice(['', '+', '-', '-', '=']) + af_tag(g, c)
        if g.chance(.35):
            l += r.choice([', ', ',', ' ,']) + r.choice(['r=2', 'R=1', 'r=0', 'r=', 'foo', 'r=999', '', 'x,r=1'])
    if g.chance(.1):
        l = '  ' + l
    if g.chance(.1):
        l += '  '
    return l


def qtok(s):
    s = s.replace('\\', '\\\\').replace('"', '\\"')
    return '"%s"' % s if ' ' in s or not s else s


def af_msg(g, c, pws):
    """a request; pws are the passwords as far as known here"""
    r = g.r
    ni = r.randrange(len(c['nodes']))
    n = c['nodes'][ni]
    a = n['a'] if g.chance(.95) else g.addr((1, 2))
    d = r.choice(c['akas'])['a']
    pw = n['afpw']
    if g.chance(.1):
        pw = r.choice(PWS)
    if g.chance(.3):
        pw = pw.swapcase()
    subj = qtok(pw) + r.choice(['', '', '', ' -q', ' -L', ' -x'])
    if pw == '' and g.chance(.7):
        subj = ''
    k = ['\x01INTL %d:%d/%d %d:%d/%d\r' % tuple(d[:3] + a[:3])]
    if a[3]:
        k.append('\x01FMPT %d\r' % a[3])
    if d[3]:
        k.append('\x01TOPT %d\r' % d[3])
    L = [af_line(g, c) + r.choice(['\r', '\r', '\r\n']) for _ in range(r.randint(0, 6))]
    if g.chance(.4):
        L.append(r.choice(['---\r', '--- Tool\r', '---']))
        if L[-1].endswith('\r'):
            L.append(af_line(g, c) + '\r')
    elif L and g.chance(.1):
        L[-1] = L[-1].rstrip('\r\n')
    L = [l for l in L if l]
    return g.msg(k + L, a[1:3], d[1:3], subj=subj, to=r.choice(c['afnames'] + ['areafix', 'AREAFIX']), attr=r.choice([0, 1, 0x101, 0x1001]),
                 **{'from': r.choice(['Alice', 'Bob Builder', 'F' * 35])}), n


def fwd_scenario(g, id):
    g.fwd = True
    return af_scenario(g, id)


def af_scenario(g, id, base='MSG'):
    r = g.r
    c = af_config(g, base)
    sc = {'id': id, 'cfg': c, 'nl': NONL}
    if c['afhelp']:
        sc['files'] = [{'path': 'help.txt', 'data': ''.join(x + '\n' for x in c['helplines'])}]
    known, steps, day = [], [], 0
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < .75:
            e = {'op': 'toss', 'files': [], 'nosec': False, 'exit': 0, 'aux': []}
            pk = []
            for _ in range(r.choice([1, 1, 2])):
                m, n = af_msg(g, c, None)
                pk.append(g.pkt(n['a'], r.choice(c['akas'])['a'], n['pw'], [m]))
            e['files'] = g.files(pk)
            if g.chance(.6) and any(a['type'] == 'ECHOMAIL' for a in c['areas']):
                e2 = echo_toss(g, c, known, nmsg=r.randint(1, 3))
                have = {f['name'].lower() for f in e['files']}
                e['files'] += [f for f in e2['files'] if f['name'].lower() not in have]
                for i, f in enumerate(sorted(e['files'], key=lambda f: f['name'].lower())):
                    f['rank'] = i
        elif x < .87:
            k, t = r.choice([('SENDLIST', 'FULL'), ('SENDQUERY', 'QUERY'), ('SENDUNLINKED', 'UNLINKED'), ('SENDHELP', 'HELP'), ('SENDINFO', 'INFO')])
            ni = r.choice([0, -1] + list(range(1, len(c['nodes']) + 1)))
            e = {'op': 'notify', 'type': t, 'node': ni, 'exit': 0,
                 'args': [k, 'ALL' if ni == 0 else '3:7/7' if ni < 0 else conf.s4s(c['nodes'][ni - 1]['a'])]}
        elif x < .95:
            t = r.choice([a['tag'] for a in c['areas']] + ['NO.SUCH'])
            e = {'op': 'remove', 'tag': t, 'exit': 0, 'args': ['REMOVE', t.swapcase()]}
        else:
            e = rescan_step(g, c)
        day += r.choice([0, 0, 1, 3, 9])
        e['day'] = day
        steps.append(e)
    sc['steps'] = steps
    return sc


def rescan_step(g, c, likely=False):
    r = g.r
    t = r.choice([a['tag'] for a in c['areas']] + ['NO.SUCH'])
    ni = r.choice([-1] + list(range(1, len(c['nodes']) + 1)))
    good = [a for a in c['areas'] if a['type'] == 'ECHOMAIL' and a['base'] and a['nodes']]
    if likely and good and g.chance(.9):
        a = r.choice(good)
        t, ni = a['tag'], r.choice(a['nodes'])['i']
    mx = r.choice([0, 0, 1, 2, 5]) if not likely else r.choice([0, 1, 2, 3, 4])
    return {'op': 'rescan', 'tag': t, 'node': ni, 'max': mx, 'exit': 0,
            'args': ['RESCAN', t, 'RESCANNODE', conf.s4s(c['nodes'][ni - 1]['a']) if ni > 0 else '3:7/7'] + (['RESCANMAX', str(mx)] if mx or g.chance(.5) else [])}


# --------------------------------------------------------- local messages
def local_text(g, echo):
    """kludges (without terminators), text"""
    r = g.r
    k = []
    if g.chance(.95 if g.thread else .7):
        k.append('MSGID: ' + (r.choice(g.mids) if g.mids and g.chance(.1) else g.newid()))
    if g.chance(.9 if g.thread else .5):
        k.append('REPLY: ' + (r.choice(g.mids) if g.mids and g.chance(.8) else g.msgid()))
    if g.chance(.4):
        k.append('PID: ' + r.choice(['GoldED 1', 'tool \xe9', 'P' * 120]))
    if g.chance(.2):
        k.append('CHRS: LATIN-1 2')
    if g.chance(.25):
        k.append('FLAGS: ' + ' '.join(r.sample(['DIR', 'K/S', 'XYZ', 'imm', 'A/S', 'CFM', 'UNK', 'TFS', 'KFS', 'FPU', 'q'], r.randint(1, 5))))
    r.shuffle(k)
    body = [l.rstrip('\r\n') + '\r' for l in g.body(.04)]
    if g.chance(.12):
        body = []
    if echo and g.chance(.7):
        body += ['--- ed\r', ' * Origin: ' + r.choice(['here (1:10/1)', 'x (2:20/5.6)', 'no address']) + '\r']
    if body and g.chance(.15):
        body[-1] = body[-1][:-1] or 'end'
    return k, ''.join(body)


def local_post(g, c, tag, sc):
    """a message written by an editor, for either kind of base"""
    r = g.r
    a = next(x for x in c['areas'] if x['tag'] == tag)
    echo = a['type'] != 'NETMAIL'
    k, text = local_text(g, echo)
    akas = [x['a'] for x in c['akas']]
    pool = akas + [n['a'] for n in c['nodes']]
    o = list(r.choice(akas)) if g.chance(.85) else g.addr((1, 2))
    d = list(r.choice(pool)) if g.chance(.8) else g.addr((1, 2, 3))
    fa = not echo and g.chance(.15)
    subj = g.subj('l')
    if fa:
        i = g.uid()
        f = {'name': 'att/file%d.zip' % i, 'id': 'd%d' % i, 'data': 'attached %d' % i}
        if g.chance(.85):
            sc['disk'].append(f)
        subj = f['name']
    local, sent = g.chance(.85), g.chance(.08)
    date = g.date()
    frm, to = r.choice(NAMES[:7]), r.choice(NAMES)
    if not echo and g.chance(.12):
        to = r.choice(c['afnames'] or ['areafix'])
        if g.chance(.7):
            d = list(r.choice(akas))
    if not echo and g.chance(.1):
        frm = r.choice(c['afnames'] or ['areafix'])
    kl = list(k)
    if not echo:
        z = []
        if o[0] != d[0] or g.chance(.3):
            z.append('INTL %d:%d/%d %d:%d/%d' % tuple(d[:3] + o[:3]))
        if o[3]:
            z.append('FMPT %d' % o[3])
        if d[3]:
            z.append('TOPT %d' % d[3])
        kl = z + kl if g.chance(.8) else kl + z
    if not echo and text.endswith('\r') and g.chance(.12):
        # forwarded by hand: it has been here before
        text += '\x01Via %s @20010101.000000 CrashMail II/Linux 1.0\r' % conf.s4s(r.choice(akas))
    attr = (0x100 if local else 0) | (8 if sent else 0) | (0x10 if fa else 0)
    for b, p in ((1, .5), (2, .15), (0x200, .15), (0x80, .25), (0x800, .05), (0x1000, .15), (0x4000, .1), (0x2000, .1), (4, .1)):
        if g.chance(p) and (not echo or b not in (2, 0x200)):
            attr |= b
    m = {'from': frm, 'to': to, 'subj': subj, 'date': date, 'attr': attr, 'cost': r.choice([0, 0, 9]),
         'orig': [r.choice([0, o[0]])] + o[1:3] + [r.choice([0, o[3]])] if not echo else r.choice([conf.NULL4, o]),
         'dest': [r.choice([0, d[0]])] + d[1:3] + [r.choice([0, d[3]])] if not echo else conf.NULL4,
         'text': ''.join('\x01' + x + '\r' for x in kl) + text, 'keep': '%d,%d,%d' % (r.randint(0, 3), r.choice([0, 2, 3, 5, 9]), r.choice([0, 2, 3, 4, 6]))}
    ja = (1 if local else 0) | (0x10 if sent else 0) | (0x1000000 if echo else 0x2000000)
    for b, p in ((4, .4), (8, .1), (0x20, .25), (0x40, .1), (0x80, .12), (0x100, .12), (0x200, .08), (0x400, .1), (0x4000, .05), (0x8000, .05), (0x10000, .1), (0x20000, .05), (0x400000, .05)):
        if g.chance(p) and (not echo or b not in (0x80, 0x100)):
            ja |= b
    fl = []
    if fa:
        fl.append({'id': 9, 'd': subj})
        if g.chance(.1):
            fl.append({'id': 9, 'd': 'second.file'})
        ja |= 0x2000 if g.chance(.7) else 0
    for x in k:
        n, v = x.split(': ', 1)
        fl.append({'id': {'MSGID': 4, 'REPLY': 5, 'PID': 7, 'FLAGS': 2003}.get(n, 2000), 'd': v if n in ('MSGID', 'REPLY', 'PID', 'FLAGS') else x})
    if echo and g.chance(.25):
        sb = [g.sbline(r.choice([2, 5, 9])) for _ in range(r.choice([1, 1, 2]))]
        pa = [g.pathline() for _ in range(r.choice([0, 1, 1, 2]))]
        fl += [{'id': 2001, 'd': l[9:-1]} for l in sb] + [{'id': 2002, 'd': l[7:-1]} for l in pa]
        if m['text'].endswith('\r'):
            m['text'] += ''.join(sb + pa)
    jm = {'from': frm, 'to': to, 'subj': subj if not (fa and g.chance(.5)) else 'see file', 'date': date, 'attr': ja, 'cost': r.choice([0, 0, 5]),
          'oaddr': r.choice([conf.s4s(o), conf.s4s(o), conf.s4(o), conf.s4s(o) + '@fidonet']) if not echo or g.chance(.7) else '',
          'daddr': '' if echo else r.choice([conf.s4s(d), conf.s4s(d), conf.s4(d) + '@fido']), 'fl': fl,
          'rawtext': text + r.choice(['', '', '', '\0', '\0\0\0']), 'keep': '%d,%d,%d,%d' % (r.randint(0, 2), r.choice([0, 77777, 1930000000, 1930700000 - 86400 * r.randint(0, 40)]), r.choice([0xffffffff, 12345]), 0)}
    if g.chance(.2):
        jm['last'] = True
    return {'do': 'post', 'tag': tag, 'msg': m, 'jam': jm}


def scan_config(g):
    r = g.r
    c = echo_config(g)
    if len(c['nodes']) > 20:
        return scan_config(g)
    akas = c['akas']
    for a in c['areas']:
        if a['base']:
            a['base'] = r.choice(['MSG', 'JAM'])
    if g.chance(.3):
        a = area('NET2', 'NETMAIL', r.randint(1, len(akas)), base=r.choice(['MSG', 'JAM']))
        c['areas'].insert(r.randint(1, 2), a)
    for a in c['areas']:
        a['group'] = r.choice(['', 'A', 'B']) if a['type'] == 'ECHOMAIL' else a['group']
    for f, p in (('ALLOWKILLSENT', .5), ('NOEXPORTNETMAIL', .1), ('MSG_HIGHWATER', .5), ('MSG_WRITEBACK', .4), ('JAM_HIGHWATER', .5), ('JAM_LINK', .6),
                 ('JAM_QUICKLINK', .3), ('ADDTID', .5), ('FORCEINTL', .4), ('NODIRECTATTACH', .3), ('ALLOWRESCAN', 1), ('IMPORTEMPTYNETMAIL', .3), ('ANSWERRECEIPT', .2),
                 ('NOROUTE', .05), ('IMPORTAREAFIX', .3), ('ANSWERAUDIT', .3), ('BOUNCEPOINTS', .4), ('BOUNCEHEADERONLY', .3)):
        c['f'][f] = g.chance(p)
    c['afnames'] = ['areafix']
    c['jammaxopen'] = r.choice([0, 1, 1, 2, 5])
    c['loopmode'] = r.choice(['IGNORE', 'LOG', 'LOGBAD'])
    c['routes'] = r.choice([[route('*:*/*.*', '*:*/*.0', 1)], [route('1:*/*.*', '1:10/1', r.randint(1, len(akas))), route('*:*/*.*', '*:*/*.*', 1)], [route('1:*/*.*', '*:*/*.*', 1)]])
    return c


def thread_scenario(g, id):
    return scan_scenario(g, id, True)


def scan_step(g, c):
    r = g.r
    tags = [a['tag'] for a in c['areas']]
    x = r.random()
    e = {'op': 'scan', 'exit': 0, 'how': 'ALL'}
    if x < .25:
        e.update(how='AREA', tag=r.choice(tags + ['NO.SUCH']))
        if g.chance(.3):
            e['tag'] = e['tag'].swapcase()
    elif x < .4:
        e.update(how='LIST', lines=[r.choice(tags + ['NO.SUCH', '', tags[-1].swapcase() + '  ']) for _ in range(r.randint(0, 5))])
    elif x < .5:
        e.update(how='DOTJAM', lines=[r.choice([a['path'] or 'no/path' for a in c['areas'] if a['type'] != 'DEFAULT'] + ['no/such']) + r.choice(['', ' 12', ' ']) for _ in range(r.randint(0, 5))])
    return e


def rescan_scenario(g, id):
    return scan_scenario(g, id, rescan=True)


def pack_steps(g, sc):
    """the beginning of the bases is deleted and packed away: numbers no longer begin with 1"""
    r = g.r
    tags = [a['tag'] for a in sc['cfg']['areas'] if a['base'] == 'JAM' and a['type'] in ('ECHOMAIL', 'NETMAIL', 'LOCAL')]
    if tags:
        ed = [{'do': 'del', 'tag': r.choice(tags), 'pick': 0, 'gone': False} for _ in range(r.randint(1, 4))]
        sc['steps'].insert(r.randint(1, len(sc['steps']) - 1), {'op': 'maint', 'exit': 0, 'maint': False, 'pack': True, 'pat': '', 'args': ['PACK'], 'edits0': ed})


def scan_scenario(g, id, thread=False, rescan=False):
    r = g.r
    g.mids = []
    g.thread = thread or g.chance(.15)

    def newid():
        s = g.msgid()
        g.mids.append(r.choice([s, s, s, s.swapcase()]))
        return s
    g.newid = newid
    c = scan_config(g)
    if thread:
        c['f']['JAM_LINK'] = g.chance(.9)
        for a in c['areas']:
            if a['base'] and g.chance(.9):
                a['base'] = 'JAM'
    sc = {'id': id, 'cfg': c, 'nl': NONL, 'disk': [], 'tz': tz(g)}
    if g.chance(.3):
        addrs = [x['a'] for x in c['akas']] + [n['a'] for n in c['nodes']] + [g.addr((1, 2)) for _ in range(4)]
        sc['nl'] = {'type': 'CMNL', 'lists': [{'zone': 0, 'lines': nodelist_lines(g, (1, 2), addrs)}]}
        c['bounce'] = [r.choice(PATS) for _ in range(r.choice([1, 2]))]
    known, steps = [], []
    tags = [a['tag'] for a in c['areas'] if a['base'] and a['type'] in ('ECHOMAIL', 'NETMAIL', 'LOCAL')]
    if g.thread or rescan:
        tags = r.sample(tags, min(len(tags), 2))
    for k in range(r.randint(2, 5)):
        x = r.random()
        if rescan and k and g.chance(.7):
            e = rescan_step(g, c, True)
        elif x < .5 or k == 1:
            e = scan_step(g, c)
        elif x < .7:
            e = echo_toss(g, c, known, nmsg=r.randint(1, 6 if g.thread else 3), newareas=g.chance(.3))
            for f in e['files']:
                for m in f['pkt']['msgs']:
                    # answers and answered messages
                    for i, l in enumerate(m['lines']):
                        if l.startswith('\x01MSGID: '):
                            g.mids.append(l[8:-1])
                        if l.startswith('\x01REPLY: ') and g.mids and g.chance(.8):
                            m['lines'][i] = '\x01REPLY: ' + r.choice(g.mids) + '\r'
                    if g.thread and g.mids and g.chance(.7) and not any('\x01REPLY' in l for l in m['lines']):
                        m['lines'].insert(1, '\x01REPLY: ' + r.choice(g.mids) + '\r')
                    if g.chance(.15):
                        m['lines'].insert(1, '\x01FLAGS: DIR foo K/S BAR\r')
        elif x < .82:
            e = netmail_toss(g, c)
        else:
            e = rescan_step(g, c)
        ed = []
        for _ in range((r.choice([0, 1, 2, 3]) if k else r.randint(1, 4)) * (3 if g.thread or rescan and not k else 1)):
            y = r.random()
            t = r.choice(tags)
            if y < (.85 if not rescan or not k else .5):
                ed.append(local_post(g, c, t, sc))
            elif y < .97:
                ed.append({'do': 'del', 'tag': t, 'pick': r.randint(0, 9), 'gone': not c['f']['JAM_LINK'] and g.chance(.5)})
            else:
                ed.append({'do': 'hw', 'tag': t})
        e['edits0'] = ed
        steps.append(e)
    sc['steps'] = steps
    if thread and len(steps) > 2 and g.chance(.4):
        pack_steps(g, sc)
    return sc


def maint_scenario(g, id):
    r = g.r
    sc = scan_scenario(g, id, g.chance(.35))
    c = sc['cfg']
    for a in c['areas']:
        a['keepnum'] = r.choice([0, 0, 1, 1, 2, 3, 4, 8])
        a['keepdays'] = r.choice([0, 0, 0, 1, 2, 5, 30, 4000])
        if a['type'] == 'DEFAULT' or not a['base']:
            a['keepnum'], a['keepdays'] = r.choice([0, 1]), r.choice([0, 1, 2])
    tags = [a['tag'] for a in c['areas'] if a['base'] and a['type'] != 'DEFAULT']
    edit = [t for t in tags if next(a for a in c['areas'] if a['tag'] == t)['type'] in ('ECHOMAIL', 'NETMAIL', 'LOCAL')]
    steps = sc['steps']
    for _ in range(r.randint(1, 3)):
        maint, pack = r.choice([(1, 1), (1, 1), (1, 0), (0, 1), (0, 1), (0, 0)] if g.chance(.8) else [(1, 1)])
        t = r.choice(tags)
        pat = '' if g.chance(.6) else r.choice([t, t.swapcase(), t[:1] + '*', t[:2] + '*', '?' * len(t), 'NO.SUCH', t[:-1] + '?', t + '*', t + '?', '*'])
        args = (['MAINT'] if maint else []) + (['PACK'] if pack else []) + (['PATTERN', pat] if pat else []) + (['VERBOSE'] if g.chance(.3) else [])
        r.shuffle(args) if not pat else None
        e = {'op': 'maint', 'exit': 0, 'maint': bool(maint), 'pack': bool(pack), 'pat': pat, 'args': args}
        ed = []
        for _ in range(r.choice([0, 0, 1, 2, 4, 6])):
            tt = r.choice(edit)
            if g.chance(.6):
                ed.append(local_post(g, c, tt, sc))
                if g.chance(.05):
                    ed[-1]['jam']['to'] = 'a long name ' * r.choice([8, 9, 12, 20])
            else:
                ed.append({'do': 'del', 'tag': tt, 'pick': r.randint(0, 9), 'gone': not c['f']['JAM_LINK'] and g.chance(.5)})
        for tt in tags:
            if g.chance(.6):
                ed.append({'do': 'age', 'tag': tt, 'days': [r.choice([99999, 0, 1, 2, 3, 5, 6, 29, 30, 31, 400, -1, -3, -90]) for _ in range(r.randint(1, 9))],
                           'lr': ''.join(chr(r.randint(0, 255)) for _ in range(16 * r.choice([0, 1, 2])))})
        e['edits0'] = ed
        steps.insert(r.randint(1, len(steps)), e)
    if g.chance(.7):
        steps.append({'op': 'scan', 'exit': 0, 'how': 'ALL', 'edits0': [local_post(g, c, r.choice(edit), sc) for _ in range(r.choice([0, 1, 2]))]})
    return sc


# ------------------------------------------------------------------- filters
BOOLV = ['FILEATTACH', 'TOLOCALAKA', 'FROMLOCALAKA', 'TOLOCALPOINT', 'FROMLOCALPOINT', 'EXISTSCFG_FROMADDR', 'EXISTSCFG_FROMBOSS',
         'EXISTSCFG_TOADDR', 'EXISTSCFG_TOBOSS']
NLV = ['EXISTSNL_FROMADDR', 'EXISTSNL_FROMBOSS', 'EXISTSNL_TOADDR', 'EXISTSNL_TOBOSS']


def swapsome(g, s):
    return ''.join(x.swapcase() if x < '\x7f' else x for x in s) if g.chance(.2) else s


def fstr(g, s):
    return '"%s"' % s if g.chance(.5) or not s or not all(x.isalnum() or x in '*?._' for x in s) else s


def substr(g, s, n=14):
    s = ''.join(x for x in s if x not in '\r\n"\\\x00\x01')
    if not s:
        return 'x'
    i = g.r.randrange(len(s))
    return s[i:i + g.r.randint(1, n)]


def filter_atom(g, c, msgs, nl):
    r = g.r
    x = r.random()
    m = r.choice(msgs)
    if x < .25:
        v = r.choice(['FROMNAME', 'TONAME', 'SUBJECT'])
        s = {'FROMNAME': m['from'], 'TONAME': m['to'], 'SUBJECT': m['subj']}[v]
        s = ''.join(y for y in s if y not in '"\\')
        y = r.random()
        if y < .3:
            p = '=' + fstr(g, swapsome(g, s))
        elif y < .6:
            k = r.randint(0, len(s))
            s = s[:k] + '*' + r.choice(['', '', 'zz'])
            if k and g.chance(.4):
                j = r.randrange(k)
                s = s[:j] + '?' + s[j + 1:]
            p = '=' + fstr(g, swapsome(g, s))
        else:
            p = '|' + fstr(g, swapsome(g, substr(g, s, 6)))
        return swapsome(g, v) + p
    if x < .35:
        return r.choice(['TYPE=NETMAIL', 'TYPE=ECHOMAIL', 'type=netm*', 'TYPE|mail', 'AREA=ECHO*', 'AREA|o', 'AREA=""', 'AREA=echo?one',
                         'SOURCE=TOSSED', 'SOURCE=CRASHMAIL', 'SOURCE=EXPORTED', 'SOURCE|sh', 'TYPE|"OM"'])
    if x < .5:
        pool = [k['a'] for k in c['akas']] + [n['a'] for n in c['nodes']]
        if g.chance(.4):
            p = conf.s4s(r.choice(pool))
        else:
            p = r.choice([y for y in PATS if nl or y[:3] not in ('REG', 'HUB')])
        return r.choice(['FROMADDR', 'TOADDR']) + '=' + ('"%s"' % p if ' ' in p or g.chance(.4) else p)
    if x < .65:
        v = r.choice(BOOLV + (NLV if nl else []))
        return swapsome(g, v) + r.choice(['', '', '=TRUE', '=FALSE', '=true', '="FALSE"'])
    ls = [l for l in m['lines'] if l.strip('\r\n')]
    l = r.choice(ls) if ls else 'x'
    if g.chance(.15):
        p = r.choice(['tag', 'TID: Crash', 'Remapped to', 'Bounced', 'MSGID', 'AREA', 'a a', 'mma', 'INTL', 'bounced:', 'SEEN-BY'])
    else:
        p = substr(g, l, r.choice([2, 5, 14, 60]))
    return r.choice(['TEXT', 'TEXT', 'KLUDGES', 'text']) + '|' + fstr(g, swapsome(g, p))


def filter_expr(g, c, msgs, nl, depth=0):
    r = g.r
    n = r.choice([1, 1, 1, 2, 2, 3])
    L = []
    for i in range(n):
        if depth < 2 and g.chance(.25):
            t = '(' + r.choice(['', '', ' ']) + filter_expr(g, c, msgs, nl, depth + 1) + r.choice(['', '', ' ']) + ')'
        else:
            t = filter_atom(g, c, msgs, nl)
        if g.chance(.3):
            t = r.choice(['NOT ', 'not ', 'Not ']) + t
        L.append(t)
        if i < n - 1:
            L.append(r.choice(['AND', 'OR', 'and', 'or', 'And']))
    return r.choice([' ', ' ', ' ', '  ']).join(L)


def filter_cmd(g, c, nl, locs):
    r = g.r
    k = r.choice(['KILL', 'TWIT', 'COPY', 'COPY', 'WRITEBAD', 'WRITELOG', 'WRITELOG', 'BOUNCEMSG', 'BOUNCEHEADER', 'REMAPMSG', 'REMAPMSG', 'EXECUTE'] + ['MASQUERADE'] * int(getattr(g, 'masq', 2)))
    d = {'cmd': k, 'arg': '', 'pat': ''}
    if k == 'COPY':
        d['arg'] = swapsome(g, r.choice(locs))
    elif k == 'WRITEBAD':
        d['arg'] = r.choice(['Not wanted', 'Warning: 100%', 'x' * 150])
    elif k == 'WRITELOG':
        d['arg'] = 'FLT!' + r.choice(['%f (%o) to %t (%d)', '%s in %a', 'From: %f Subj: %s Area: %a %x', '100%% %z %', '%S%F%T%O%D%X%m%r%R', '%s%s%s%s%s%s%s done', 'plain'])
    elif k in ('BOUNCEMSG', 'BOUNCEHEADER'):
        d['arg'] = r.choice(['No such %d here', 'Your message %s to %t was refused by %a', '%o', 'reason'])
    elif k in ('REMAPMSG', 'MASQUERADE'):
        d['arg'] = r.choice(['*', '*', 'New Name', 'areafix', 'N' * 35, 'L' * 40])
        d['pat'] = r.choice([x for x in DPATS if nl or x not in ('REGION', 'HUB')] + [conf.s4s(k['a']) for k in c['akas']])
    elif k == 'EXECUTE':
        d['pat'] = r.choice(['0', '10', '5', '1'])
        d['arg'] = 'exit ' + d['pat']
    return d


def filter_scenario(g, id, **kw):
    r = g.r
    s = netmail_scenario(g, id)
    c = s['cfg']
    nl = s['nl']['type'] != ''
    akas, nodes = c['akas'], c['nodes']
    for i in range(r.randint(1, 2)):
        c['areas'].append(area(['ECHO.ONE', 'Echo_Two'][i], 'ECHOMAIL', r.randint(1, len(akas)), base='' if g.chance(.15) else 'MSG', nodes=mklinks(g, len(nodes), .8)))
    locs = ['LOC', 'Copies.2']
    for l in locs:
        c['areas'].append(area(l, 'LOCAL', 1))
    c['f']['IMPORTSEENBY'] = g.chance(.4)
    c['f']['IMPORTAREAFIX'] = g.chance(.4)
    known = []
    for e in s['steps']:
        if g.chance(.7):
            e['files'] = g.files([f['pkt'] for f in e['files'] + echo_toss(g, c, known, newareas=False)['files']])
    msgs = [m for e in s['steps'] for f in e['files'] for m in f['pkt']['msgs']]
    for m in msgs:
        # a netmail that begins so when its control lines are gone would be taken for echomail
        m['lines'] = m['lines'][:1] + [l.replace('AREA:', 'Area:') for l in m['lines'][1:]]
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        while True:
            x = filter_expr(g, c, msgs, nl)
            if len(x) < 350:
                break
        c['filters'].append({'expr': x, 'cmds': [filter_cmd(g, c, nl, locs) for _ in range(r.choice([1, 1, 1, 2, 3]))]})
    return s


# --------------------------------------------------------- lists of areas
DESCS = ['', 'Plain description', 'He said "hi" to (them)', "it's", 'back\\slash', 'D' * 79, '8-bit \xe5\xe4\xf6', '; no comment', ' blanks  inside ']


def exp_scenario(g, id, **kw):
    """area lists for other programs, of configurations as written and as changed by runs"""
    r = g.r
    if g.chance(.5):
        s = aa_scenario(g, id)
    else:
        s = af_scenario(g, id) if g.chance(.6) else {'id': id, 'cfg': echo_config(g), 'nl': NONL, 'steps': []}
    c = s['cfg']
    s['steps'] = s['steps'][:2]
    if not s['steps'] or g.chance(.5):
        s['steps'].insert(0, {'op': 'toss', 'files': [], 'nosec': False, 'exit': 0, 'aux': []})
    c['sysop'] = r.choice([c['sysop'], 'Sys "Op" Name', 'S' * 34])
    have = {a['tag'].lower() for a in c['areas']}
    for i, t in enumerate(['LOCAL.ONE', 'local_jam']):
        if g.chance(.6):
            c['areas'].insert(r.randint(0, len(c['areas'])), area(t, 'LOCAL', r.randint(1, len(c['akas'])), base=['MSG', 'JAM'][i]))
    for a in c['areas']:
        if a['type'] in ('BAD', 'DEFAULT') and g.chance(.3):
            a['tag'] = r.choice([a['tag'].lower(), a['tag'].capitalize()])
        if g.chance(.7) and (a['type'] != 'DEFAULT'):
            a['desc'] = r.choice(DESCS)
            a['group'] = r.choice(['', 'A', 'B', 'C', 'Z'])
        if a['type'] == 'ECHOMAIL' and g.chance(.1):
            a['f']['UNCONFIRMED'] = True
    for e in s['steps']:
        e['export'] = {'fmt': r.choice(['AREASBBS', 'AREASBBS', 'FORWARD', 'FORWARDNODESC', 'GOLDED', 'TIMED']), 'group': r.choice(['', '', 'A', 'ab', 'ZC', 'q']), 'up': g.chance(.5)}
    return s


# ------------------------------------------------------------------ listing of the outbound
def lo_scenario(g, id):
    r = g.r
    steps = []
    for _ in range(r.choice([1, 2, 3])):
        nets, nodes = r.sample([1, 10, 100, 104, 200, 203, 1000, 5020, 65535], 3), r.sample([0, 1, 2, 12, 20, 100, 204, 999, 1000, 40000], 4)
        tops = r.choice([['ob'], ['ob', 'ob2'], ['ob', 'ob2', '.'], ['.', 'ob']])
        others = [{'path': 'files/' + n, 'size': r.choice([0, 1, 500, 10000, 10001, 123456, 10000000, 10000001, 25 << 20])}
                  for n in ['a.zip', 'Some_Long.Name.Of-File', 'x' * 60 + '.lha', 'B.MO0'] if g.chance(.8)]
        dirs, files, seen = ['files'], [], set()

        def name(a, b):
            n = '%04x%04x' % (a, b)
            return r.choice([n, n, n, n.upper()])

        def case(x):
            return r.choice([x, x, x.upper(), x.capitalize()])
        for t in tops:
            if t != '.':
                dirs.append(t)
            pnts = []
            for i in range(r.choice([0, 0, 1, 2])):
                d = name(r.choice(nets), r.choice(nodes)) + case('.pnt')
                if d.lower() not in seen:
                    seen.add(d.lower())
                    pnts.append(d)
                    dirs.append(d if t == '.' else t + '/' + d)
            many = r.choice(['.req', '.flo', '.out']) if g.chance(.1) else ''
            for i in range(r.randint(20, 30) if many else r.choice([0, 1, 3, 5, 8])):
                d = r.choice(pnts + ['', '']) if pnts else ''
                n = name(0, r.choice([1, 2, 12, 300, 65535])) if d else name(r.choice(nets), i if many else r.choice(nodes))
                n += case(many or r.choice(['.flo', '.flo', '.clo', '.dlo', '.hlo', '.out', '.out', '.cut', '.dut', '.hut', '.req', '.req', '.bsy', '.lo', '.pnx', '.flox']))
                if g.chance(.04):
                    n = r.choice(['README', 'flo', 'x' + n, n[1:], 'backup' + n[-4:]])
                if (t, d, n.lower()) in seen:
                    continue
                seen.add((t, d, n.lower()))
                L, x = [], n[-4:].lower()
                if x == '.req':
                    L = [r.choice(['FILES', 'NODELIST.Z12 !secret', 'a*.* +1234', 'x' * 100, 'README.TXT   ']) for i in range(r.choice([0, 1, 2, 5]))]
                elif x in ('.flo', '.clo', '.dlo', '.hlo'):
                    L = [('flow', r.choice(['#', '^', '-', '', '']), r.random()) for i in range(r.choice([0, 1, 2, 4]))]
                mt = r.choice([1930640400 - 5, 946684799, 1000000000, 1709164800, 1930640400 - 60 * r.randint(0, 600000)])
                files.append({'top': t, 'dir': d, 'name': n, 'size': r.choice([0, 60, 1234, 9999, 10000, 10001, 300000, 12 << 20]), 'lines': L, 'mtime': mt,
                              'date': time.strftime('%d-%b-%y %H:%M', time.gmtime(mt))})
        local = [f['name'] for f in files]
        for f in files:
            ref = [o['path'] for o in others] * 2 + ['files/none', 'none.zip', 'no/such/dir/x'] + local
            f['lines'] = [(l[1] + ref[int(l[2] * len(ref))] if isinstance(l, tuple) else l) + r.choice(['', '', '', ' ', '\t ']) for l in f['lines']]
            f['lines'] = [y for l in f['lines'] for y in ([l] if g.chance(.9) else [l, r.choice(['', '  '])])]
            x = f['name'][-4:].lower()
            if x in ('.req', '.flo', '.clo', '.dlo', '.hlo'):
                eol = r.choice(['\n', '\n', '\r\n'])
                f['data'] = eol.join(f['lines']) + (eol if g.chance(.7) else '')
                f['size'] = len(f['data'])
            else:
                f['data'] = ''
        disk = [{'path': '/'.join(x for x in (f['top'].strip('.'), f['dir'], f['name']) if x), 'size': f['size']} for f in files] + others
        env = {'dir': r.choice(['', tops[0], 'ob']) if 'ob' in tops else '', 'zone': r.choice(['', '', '1', '39'])}
        arg = {'dir': r.choice(tops), 'zone': r.choice(['', '2', '3', '110']), 'pat': ''}
        if arg['dir'] == '.' or env['dir'] and g.chance(.5):
            arg['dir'] = '' if arg['dir'] != '.' or env['dir'] == '' else '.'
        if not arg['dir'] and not env['dir'] and '.' not in tops:
            arg['dir'] = tops[0]
        if g.chance(.6):
            arg['pat'] = rnd_pat(g, [1, 2, 3, 39, 110] + [int(arg['zone'] or env['zone'] or 2)] * 12, nets, nodes)
            if ' ' in arg['pat']:
                arg['pat'] = r.choice(['*', '2:*', '*:*/*.*', '*:%d/*' % nets[0]])
        verbose = g.chance(.5)
        if arg['dir'] and arg['zone'] and g.chance(.5):
            args = [arg['dir'], arg['zone']] + ([arg['pat']] if arg['pat'] else []) + (['verbose'] if verbose else [])
        else:
            args = [[k_, v] for k_, v in (('DIRECTORY', arg['dir']), ('zone', arg['zone']), ('Pattern', arg['pat'])) if v] + ([['VERBOSE']] if verbose else [])
            r.shuffle(args)
            args = [x for a in args for x in a]
        steps.append({'op': 'list', 'exit': 0, 'dirs': dirs, 'files': files, 'others': others, 'disk': disk, 'arg': arg, 'env': env, 'args': args, 'verbose': verbose})
    return {'id': id, 'kind': 'lo', 'steps': steps}


# ------------------------------------------------------------------ patterns
def pcomp(g, pool):
    r = g.r
    v = str(r.choice(pool))
    return r.choice(['*', '*', v, v, v, v[:-1] + '?', v[:-1] + '*', '?' * len(v), v + '*', v[0] + '*', '?' * r.randint(1, 3), v + '?'])


def rnd_pat(g, zones, nets, nodes):
    r = g.r
    z, n, f, p = pcomp(g, zones), pcomp(g, nets), pcomp(g, nodes), pcomp(g, [0, 1, 2, 12])
    c = r.random()
    if c < .4:
        return '%s:%s/%s.%s' % (z, n, f, p)
    if c < .6:
        return '%s:%s/%s' % (z, n, f)
    if c < .67:
        return '%s/%s%s' % (n, f, r.choice(['', '.' + p]))
    if c < .7:
        return '%s:%s' % (z, n)
    if c < .72:
        return r.choice(['*', f, f + '.' + p])
    return {0: 'ZONE %s' % z, 1: 'REGION %s:%s' % (z, pcomp(g, [50, 51, 52, 53])), 2: 'NET %s:%s' % (z, n), 3: 'HUB %s:%s/%s' % (z, n, f), 4: 'NODE %s:%s/%s' % (z, n, f)}[r.randint(0, 4)]


def rnd_dpat(g, zones, nets, nodes):
    r = g.r
    if g.chance(.3):
        return spell(g, r.choice(['ZONE', 'REGION', 'NET', 'HUB', 'NODE']))

    def k(pool):
        return '*' if g.chance(.55) else str(r.choice(pool))
    z, n, f, p = k(zones), k(nets), k(nodes), k([0, 1, 2])
    return r.choice(['%s:%s/%s.%s' % (z, n, f, p), '%s:%s/%s' % (z, n, f), '*:*/*.*', '%s/%s' % (n, f)])


def spell(g, p):
    """keyword patterns in any case"""
    w = p.split(' ')
    return ' '.join([g.r.choice([w[0], w[0].lower(), w[0].capitalize()])] + w[1:])


def pat_scenario(g, id):
    r = g.r
    c = netmail_config(g, loopmode='IGNORE')
    zones = sorted({x['a'][0] for x in c['akas'] + c['nodes']} | {r.choice([1, 2, 11, 12])})
    nets = sorted({x['a'][1] for x in c['akas'] + c['nodes']} | {r.choice([1, 10, 100, 101, 2000])})
    nodes = sorted({x['a'][2] for x in c['akas'] + c['nodes']} | {r.choice([0, 1, 10, 15, 100, 150]) for _ in range(2)})

    def P():
        return spell(g, rnd_pat(g, zones, nets, nodes))
    c['routes'] = [route(P(), rnd_dpat(g, zones, nets, nodes), r.randint(1, len(c['akas']))) for _ in range(r.randint(3, 9))]
    if g.chance(.3):
        c['routes'].append(route('*:*/*.*', rnd_dpat(g, zones, nets, nodes), 1))
    c['changes'] = [change(r.sample(['NORMAL', 'CRASH', 'DIRECT', 'HOLD'], r.randint(1, 4)), P(), r.choice(['NORMAL', 'CRASH', 'DIRECT', 'HOLD'])) for _ in range(r.randint(0, 4))]
    c['bounce'] = [P() for _ in range(r.choice([0, 0, 1, 2]))]
    c['fattach'] = [P() for _ in range(r.randint(0, 3))]
    for n in c['nodes']:
        if g.chance(.3):
            n['pri'] = r.choice(['CRASH', 'DIRECT', 'HOLD'])
    addrs = [x['a'] for x in c['akas'] + c['nodes']]
    pool = []
    for _ in range(14):
        pool.append([r.choice(zones), r.choice(nets), r.choice(nodes), r.choice([0, 0, 0, 1, 2, 12])])
    usenl = g.chance(.7)
    nl = NONL
    if usenl:
        z = sorted(set(zones))
        nl = {'type': 'CMNL', 'lists': [{'zone': 0, 'lines': nodelist_lines(g, z, addrs + pool[:10])}]}
    else:
        for l in (c['bounce'], c['fattach']):
            l[:] = [x for x in l if x[:3].upper() not in ('REG', 'HUB')]
        c['changes'] = [x for x in c['changes'] if x['pat'][:3].upper() not in ('REG', 'HUB')]
        c['routes'] = [x for x in c['routes'] if x['pat'][:3].upper() not in ('REG', 'HUB') and x['dest'].upper() not in ('REGION', 'HUB')]
        c['bounce'] = []
    steps = []
    for _ in range(r.choice([1, 1, 2])):
        g.run += 1
        aux, pkts = [], []
        for _ in range(r.choice([1, 2])):
            if c['nodes'] and g.chance(.7):
                n = r.choice(c['nodes'])
                o, pw = n['a'], n['pw']
            else:
                o, pw = g.addr((1, 2)), ''
            d = r.choice(c['akas'])['a']
            msgs = []
            for _ in range(r.randint(3, 7)):
                dest = r.choice(pool) if g.chance(.85) else r.choice(addrs)
                orig = list(r.choice(pool + addrs))
                k = ['\x01INTL %d:%d/%d %d:%d/%d\r' % tuple(dest[:3] + orig[:3])]
                if orig[3]:
                    k.append('\x01FMPT %d\r' % orig[3])
                if dest[3]:
                    k.append('\x01TOPT %d\r' % dest[3])
                attr = 0
                for b, p in ((1, .5), (2, .15), (0x10, .3), (0x200, .1), (0x100, .1), (0x1000, .1), (0x4000, .1)):
                    if g.chance(p):
                        attr |= b
                subj = g.subj('p')
                if attr & 0x10:
                    subj = 'att%d_%d.zip' % (g.run, r.randint(1, 5))
                    if not any(x['name'] == subj for x in aux):
                        i = g.uid()
                        aux.append({'name': subj, 'id': 'x%d' % i, 'data': 'file data %d' % i})
                msgs.append(g.msg(k + ['text\r'], orig[1:3], dest[1:3], attr=attr, subj=subj))
            pkts.append(g.pkt(list(o), list(d), pw, msgs))
        steps.append({'op': 'toss', 'files': g.files(pkts), 'aux': aux, 'nosec': False, 'exit': 0})
    return {'id': id, 'cfg': c, 'nl': nl, 'steps': steps}


# ---------------------------------------------------------- message writer
def write_step(g, c, aux, run):
    r = g.r
    akas = [x['a'] for x in c['akas']]
    pool = akas + [n['a'] for n in c['nodes']]
    echo = [a['tag'] for a in c['areas'] if a['type'] == 'ECHOMAIL']

    def adr(p):
        a = list(r.choice(p)) if g.chance(.85) else g.addr((1, 2))
        s = conf.s4(a) if a[3] or g.chance(.5) else conf.s4s(a)
        x = r.random()
        if x < .04:
            s = '%d/%d' % (a[1], a[2])
        elif x < .06:
            s = r.choice(['', 'x', '1:2', '1:2/3.4.5', '1:2/3x', '1:2/3@domain', ':', '70000:1/2', '1:2/', 'All', '1:1:1/1', '-1:2/3', ' 1:2/3'])
        return s
    isecho = echo and g.chance(.5)
    n = None
    A = {}
    if isecho:
        A['AREA'] = r.choice(echo) if g.chance(.9) else r.choice(['NEW.TAG', 'x' * 90, '', 'BAD', 'LOC', 'TWO WORDS'])
        n = r.choice(c['nodes']) if c['nodes'] else None
    elif c['nodes'] and g.chance(.6):
        n = r.choice(c['nodes'])
    if g.chance(.95):
        A['FROMADDR'] = adr([n['a']] * 3 + pool if n else pool)
    if g.chance(.9):
        A['TOADDR'] = adr(akas * 2 + pool)
    if n and g.chance(.7):
        A['PKTFROMADDR'] = conf.s4(n['a'])
    elif g.chance(.1):
        A['PKTFROMADDR'] = adr(pool)
    if g.chance(.4):
        A['PKTTOADDR'] = adr(akas)
    if n and n['pw'] and g.chance(.9):
        A['PASSWORD'] = n['pw'] if g.chance(.9) else r.choice([n['pw'] + 'XYZ', 'WRONG', ''])
    elif g.chance(.1):
        A['PASSWORD'] = r.choice(['P', 'PASSWORD', 'LONGPASSWORD', '\xe5\xe4\xf6'])
    for k, lim in (('FROMNAME', 36), ('TONAME', 36), ('SUBJECT', 72), ('ORIGIN', 80)):
        if g.chance(.75):
            A[k] = r.choice(NAMES + ['%d%% of %s %n', 'Sm\xf6rg\xe5s', 'from', 'TEXT', '']) if g.chance(.7) else 'n' * (lim + r.choice([-2, -1, 0, 1, 40]))
    if 'SUBJECT' in A and A['SUBJECT'] and g.chance(.6):
        A['SUBJECT'] = g.subj('w')
    if g.chance(.15):
        A['FILEATTACH'] = None
        if not isecho:
            names = ['wat%d_%d.zip' % (run, r.randint(1, 4)) for _ in range(r.randint(1, 2))]
            for x in names:
                if g.chance(.7) and not any(y['name'] == x for y in aux):
                    i = g.uid()
                    aux.append({'name': x, 'id': 'x%d' % i, 'data': 'file data %d' % i})
            A['SUBJECT'] = r.choice([' ', ',', ', ']).join(names)
    if g.chance(.2):
        A['NOMSGID'] = None
    texts = []
    if g.chance(.85):
        A['TEXT'] = 't.txt'
        eol = r.choice(['\n', '\r\n', '\r', None])
        ls = []
        for _ in range(r.choice([0, 1, 2, 3, 6, 12] if g.chance(.95) else [50])):
            l = g.textline().replace('\r', '').replace('\n', '')
            x = r.random()
            if x < .15:
                l = 'x' * r.choice([96, 97, 98, 99, 100, 101, 195, 196, 197, 198, 199, 200, 400])
            elif x < .2:
                l = r.choice(['', '', '\x01FLAGS DIR', 'AREA:OTHER', '---', ' * Origin: mine (9:9/9)', 'Z' * 90 + '\0' + 'Y' * 20, '\0', 'a\0b\0\0c', 'tab\there', 'x\r\ny', '\n\r'])
            ls.append(l + (eol if eol else r.choice(['\n', '\r\n', '\r'])))
        t = ''.join(ls)
        if ls and g.chance(.3):
            t = t.rstrip('\r\n')
        texts.append({'name': 't.txt', 'data': t})
        if g.chance(.03):
            A['TEXT'] = r.choice(['nosuch.txt', '', 'nodir/t.txt'])
    A['DIR'] = r.choice(['in', 'in', 'in', 'in/'])
    x = r.random()
    if x < .03:
        A['DIR'] = r.choice(['nodir', 'prefs', 'in/prefs/x', 'q' * 190, 'q' * 400])
    elif x < .05:
        del A['DIR']
    items = list(A.items())
    r.shuffle(items)
    argv = []
    for k, v in items:
        argv += [k if g.chance(.8) else k.lower() if g.chance(.5) else k.title()] + ([v] if v is not None else [])
    plain = list(argv)
    x = r.random()
    if x < .02:
        argv.insert(r.randint(0, len(argv)), r.choice(['BOGUS', 'SETTINGS', 'FROM', '']))
    elif x < .04:
        argv.append(r.choice(['SUBJECT', 'TEXT', 'AREA', 'DIR']))
    elif x < .06:
        argv += ['SUBJECT', 'given twice']
    elif x < .07:
        argv.insert(0, r.choice(['?', '-h', '--help', 'help']))
    x = r.random()
    # not a second failure where the first one is cleaned up
    once = argv == plain and A.get('TEXT') in (None, 't.txt')
    return {'op': 'write', 'argv': argv, 'texts': texts, 'dirs': ['in', 'in/'], 'par': r.choice([2, 3, 5, 8]) if x < .08 else 1,
            'fault': r.choice([r.randint(1, 20), r.randint(1, 60), r.randint(20, 600)]) if .1 < x < .2 and once else 0, 'collide': r.choice([1, 2, 3, 7]) if .2 < x < .3 or x < .03 else 0, 'exit': 0}


def write_scenario(g, id):
    r = g.r
    c = echo_config(g) if g.chance(.5) else netmail_config(g)
    steps, aux = [], []
    c['bounce'] = []
    for l in (c['fattach'],):
        l[:] = [x for x in l if x[:3] not in ('REG', 'HUB')]
    c['changes'] = [x for x in c['changes'] if x['pat'][:3] not in ('REG', 'HUB')]
    c['routes'] = [x for x in c['routes'] if x['pat'][:3] not in ('REG', 'HUB') and x['dest'] not in ('REGION', 'HUB')]
    for i in range(r.choice([1, 2])):
        aux = []
        for _ in range(r.randint(1, 3)):
            steps.append(write_step(g, c, aux, i))
        steps.append({'op': 'toss', 'files': [], 'aux': aux, 'nosec': False, 'exit': 0})
    return {'id': id, 'cfg': c, 'nl': NONL, 'steps': steps}


# ------------------------------------------------------- faults and what follows
def fault_scenario(g, id):
    """a short history; the faults are in its last run"""
    r = g.r
    kind = r.choice(['echo', 'echo', 'net', 'out', 'out', 'scan', 'scan', 'scan'])
    while True:
        sc = {'echo': echo_scenario, 'net': netmail_scenario, 'out': out_scenario, 'scan': scan_scenario}[kind](g, id)
        if len(sc['cfg']['nodes']) > 10:
            continue
        st = sc['steps'][:3]
        if kind == 'scan':
            st = [e for e in st if e['op'] in ('scan', 'toss')]
        # the last run is one that does something
        while st and st[-1]['op'] == 'scan' and st[-1]['how'] != 'ALL':
            st.pop()
        if kind == 'scan' and not any(x['do'] == 'post' for e in st for x in e.get('edits0', [])):
            continue
        if st:
            break
    sc['steps'] = st
    st[-1]['busy'] = []
    c = sc['cfg']
    c['dupesize'] = 200      # what is not a duplicate any more is another matter
    for e in st:
        for f in e.get('files', []):
            for m in f['pkt']['msgs']:
                if any(m['to'].lower() == a.lower() for a in c['afnames']):
                    m['to'] = 'Nobody'
        for x in e.get('edits0', []):
            # AreaFix answers another time in another way
            if x['do'] == 'post':
                for k in ('msg', 'jam'):
                    if x[k]['to'].lower() in [a.lower() for a in c['afnames']]:
                        x[k]['to'] = 'Nobody'
    return sc
