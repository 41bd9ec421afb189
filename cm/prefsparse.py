"""Read a prefs file back into the abstract configuration (areas and nodes)."""
from . import conf
import copy


def words(l):
    """split a prefs line as the program does: quotes, backslash escapes"""
    res, i, n = [], 0, len(l)
    while True:
        while i < n and l[i] in ' \t':
            i += 1
        if i >= n:
            return res
        s = ''
        quoted = False
        if l[i] == '"':
            quoted = True
            i += 1
        while i < n:
            c = l[i]
            if c == '\\' and i + 1 < n:
                s += l[i + 1]
                i += 2
                continue
            if quoted and c == '"':
                i += 1
                break
            if not quoted and c in ' \t':
                break
            s += c
            i += 1
        res.append(s)


def p4(s, tpl=None):
    z, n, f, p = 0, 0, 0, 0
    t = tpl or [0, 0, 0, 0]
    rest = s
    if ':' in rest:
        z, rest = rest.split(':', 1)
        z = int(z)
    else:
        z = t[0]
    if '/' in rest:
        n, rest = rest.split('/', 1)
        n = int(n)
    else:
        n = t[1]
    if '.' in rest:
        f, p = rest.split('.', 1)
        p = int(p)
        f = int(f) if f else t[2]
    else:
        f = rest
    return [int(z), int(n), int(f), int(p)]


def same(a, b):
    return a[1:] == b[1:] and (a[0] == b[0] or a[0] == 0 or b[0] == 0)


def parse(text, cfg):
    nodes, areas = [], []
    akas = [a['a'] for a in cfg['akas']]
    cur = None
    curn = None

    def nidx(a):
        for i, n in enumerate(nodes):
            if same(a, n['a']):
                return i + 1
        return 0
    for line in text.split('\n'):
        w = words(line.rstrip('\r'))
        if not w or w[0].startswith(';'):
            continue
        k = w[0].upper()
        if k == 'NODE':
            curn = conf.node(p4(w[1]), w[3], w[2].upper())
            for f in w[4:]:
                f = f.upper()
                if f in ('CRASH', 'DIRECT', 'HOLD'):
                    curn['pri'] = f
                else:
                    curn['f'][f] = True
            nodes.append(curn)
        elif k == 'REMOTESYSOP':
            curn['sysop'] = w[1]
        elif k == 'PKTFROM':
            curn['pktfrom'] = p4(w[1])
        elif k == 'DEFAULTGROUP':
            curn['defgroup'] = w[1][:1]
        elif k == 'AREAFIXINFO':
            v = (w[1:] + ['', '', '', ''])[:4]
            curn['afpw'], curn['groups'], curn['rogroups'], curn['addgroups'] = v
        elif k == 'REMOTEAF':
            curn['rafname'], curn['rafpw'] = w[1], w[2]
            curn['f']['AFNEEDSPLUS'] = 'NEEDSPLUS' in [x.upper() for x in w[3:]]
        elif k in ('AREA', 'NETMAIL', 'LOCALAREA'):
            tag = w[1]
            a = p4(w[2])
            ai = [i + 1 for i, x in enumerate(akas) if same(x, a)]
            t = 'NETMAIL' if k == 'NETMAIL' else 'LOCAL' if k == 'LOCALAREA' else 'BAD' if tag.upper() == 'BAD' else \
                'DEFAULT' if tag.upper() == 'DEFAULT' or tag.upper().startswith('DEFAULT_') else 'ECHOMAIL'
            cur = conf.area(tag, t, ai[0] if ai else 0, w[3].upper() if len(w) > 3 else '', w[4] if len(w) > 4 else '')
            areas.append(cur)
        elif k in conf.AREAFLAGS:
            cur['f'][k] = True
        elif k == 'EXPORT':
            tpl = [0, 0, 0, 0]
            for x in w[1:]:
                fl = ''
                while x and x[0] in '!@%':
                    fl = x[0]
                    x = x[1:]
                a = p4(x, tpl)
                tpl = a[:3] + [0]
                cur['nodes'].append(conf.link(nidx(a), fl == '!', fl == '@', fl == '%'))
        elif k == 'IMPORT':
            cur['imports'] += [p4(x) for x in w[1:]]
        elif k == 'BANNED':
            cur['banned'] += [nidx(p4(x)) for x in w[1:]]
        elif k == 'DESCRIPTION':
            cur['desc'] = w[1]
        elif k == 'GROUP':
            cur['group'] = w[1][:1]
        elif k == 'KEEPNUM':
            cur['keepnum'] = int(w[1])
        elif k == 'KEEPDAYS':
            cur['keepdays'] = int(w[1])
    return {'nodes': nodes, 'areas': areas}


def lex(text):
    """non-empty lines with the section they belong to"""
    res, area, node, nodes = [], '', 0, []
    for line in text.split('\n'):
        w = words(line.rstrip('\r'))
        if not w:
            continue
        k = w[0].upper()
        if k in ('AREA', 'NETMAIL', 'LOCALAREA') and len(w) > 1:
            area = w[1]
        elif k == 'NODE' and len(w) > 1:
            a = p4(w[1])
            if a not in nodes:
                nodes.append(a)
            node = nodes.index(a) + 1
        res.append({'t': line, 'kw': k, 'area': area, 'node': node})
    return res
