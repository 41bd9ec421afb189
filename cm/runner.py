"""Execute scenarios with the real programs in scratch directories and project what is on disk."""
import os, re, shutil, struct, subprocess, tempfile, time, zipfile, calendar, io, traceback
from concurrent.futures import ThreadPoolExecutor
from . import conf, fido, jam

UID = 65534
T0 = calendar.timegm((2031, 3, 7, 9, 0, 0))
L1 = 'latin-1'
PRI = {'o': 'NORMAL', 'c': 'CRASH', 'd': 'DIRECT', 'h': 'HOLD', 'f': 'NORMAL'}
ARCRE = re.compile(r'^[0-9a-fA-F]{8}\.(mo|tu|we|th|fr|sa|su)[0-9a-zA-Z]$', re.I)


class HarnessError(Exception):
    pass


def chown_tree(p):
    os.lchown(p, UID, UID)
    for d, ds, fs in os.walk(p):
        for x in ds + fs:
            os.lchown(os.path.join(d, x), UID, UID)


class World:
    def __init__(self, binp, root, sc, prefs_lines=None):
        self.bin, self.root, self.sc = binp, root, sc
        self.cfg = sc['cfg']
        self.k = 0
        self.now = T0
        self.wins = []
        os.makedirs(root)
        for d in ('in', 'bso/out', 'tmp', 'new', 'pk', 'a', 'att', 'other'):
            os.makedirs(self.p(d))
        lines = sc.get('prefs') or conf.prefs(self.cfg, sc['nl']['type'])
        sc.setdefault('disk', [])
        self.ptext = ('\n'.join(lines) + '\n').replace('"in"', '"%s"' % self.p('in'))
        self.write('prefs', self.ptext)
        for i, l in enumerate(self.cfg['arealists']):
            self.write('al%d.txt' % (i + 1), l['text'] if 'text' in l else
                       ''.join('%s %s\n' % (e['tag'], e['desc']) for e in l['lines']))
        for f in sc.get('files', []):
            os.makedirs(os.path.dirname(self.p(f['path'])), exist_ok=True)
            self.write(f['path'], f['data'])
        self.ids = {}
        self.areas = self.cfg['areas']
        for f in sc.get('disk', []):
            self.ids[f['data'].encode(L1)] = f['id']
            self.write(f['name'], f['data'])
        nl = sc['nl']
        if nl['lists'] or nl['type']:
            os.makedirs(self.p('nl'))
            self.write('nl/cmnodelist.prefs', nl.get('prefs') or ''.join('list%d.txt %s\n' % (i, l['zone'] or '') for i, l in enumerate(nl['lists'])))
            for i, l in enumerate(nl['lists']):
                self.write('nl/' + l.get('name', 'list%d.txt' % i), ''.join(x + l.get('eol', '\r\n') for x in l['lines']))
            for f in nl.get('extra', []):
                self.write('nl/' + f['name'], f['data'], f['mtime'])
            chown_tree(root)
            r = self.run('crashlist', ['nl'])
            if r[0] != 0:
                raise HarnessError('crashlist failed: %r' % (r,))
        chown_tree(root)

    def p(self, *a):
        return os.path.join(self.root, *a)

    def write(self, name, data, mtime=None):
        if isinstance(data, str):
            data = data.encode(L1)
        with open(self.p(name), 'wb') as f:
            f.write(data)
        os.chown(self.p(name), UID, UID)
        if mtime is not None:
            os.utime(self.p(name), (mtime, mtime))

    def read(self, name):
        try:
            with open(self.p(name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def run(self, prog, args, env=None, timeout=15):
        e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'TZ': self.sc.get('tz') or 'UTC', 'LC_ALL': 'C', 'HOME': self.root,
             'LD_PRELOAD': os.path.join(self.bin, 'shim.so'), 'CM_TIME': str(self.now + 3600 * int((self.sc.get('tz') or 'UTC')[3:] or 0))}
        e.update(env or {})
        t = time.monotonic()
        try:
            r = subprocess.run([os.path.join(self.bin, prog)] + [a.encode(L1) for a in args], cwd=self.root, env=e, user=UID, group=UID,
                               extra_groups=[], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
            rc, out = r.returncode, r.stdout.decode(L1)
        except subprocess.TimeoutExpired as ex:
            rc, out = 'timeout', (ex.stdout or b'').decode(L1)
        self.win = (self.now, self.now + int(time.monotonic() - t) + 2)
        self.wins.append(self.win)
        return rc, out

    # ------------------------------------------------------------ projection
    def norm(self, s):
        if '2031' in s or ' 31  ' in s:
            for x in [x for w in self.wins for x in range(w[0], w[1] + 1)]:
                s = s.replace(time.strftime('@%Y%m%d.%H%M%S', time.gmtime(x)), '@YYYYMMDD.HHMMSS')
                s = s.replace(time.strftime('%d %b %y  %H:%M:%S', time.gmtime(x)), '@DATETIME@@@@@@@@@@')
        return s

    def proj_pkt(self, data, dest, where, typ, pri, zone, src):
        r = fido.parse_pkt(data)
        if zone is None:
            dest = [r['hdest'][0]] + dest[1:]
        msgs = []
        for m in r['msgs']:
            lines = fido.split_lines(self.norm(m['text']))
            area = ''
            if lines and lines[0].startswith('AREA:'):
                area = lines[0][5:].rstrip('\r\n')
                if not lines[0].endswith('\r'):
                    r['wf'] = False
                lines = lines[1:]
            msgs.append({'o2': m['o2'], 'd2': m['d2'], 'attr': m['attr'], 'cost': m['cost'], 'date': self.norm(m['date']),
                         'to': m['to'], 'from': m['from'], 'subj': m['subj'], 'area': area, 'lines': lines})
        return {'dest': dest, 'where': where, 'type': typ, 'pri': pri, 'orig': r['orig'], 'hdest': r['hdest'],
                'pw': r['pw'], 'wf': r['wf'], 'size': r['size'], 'src': src, 'msgs': msgs}

    def bso_files(self):
        """(dirname, zone or None, net, node, point, extension, path)"""
        res = []
        z0 = self.cfg['akas'][0]['a'][0]
        for d in sorted(os.listdir(self.p('bso'))):
            if not os.path.isdir(self.p('bso', d)):
                res.append((d, None, 0, 0, 0, '?', self.p('bso', d)))
                continue
            zone = z0 if d == 'out' else int(d[4:], 16) if re.match(r'^out\.[0-9a-f]+$', d) else self.sc.get('domzone', {}).get(d)
            for dd, _, fs in sorted(os.walk(self.p('bso', d))):
                rel = os.path.relpath(dd, self.p('bso', d))
                for f in sorted(fs):
                    m = re.match(r'^([0-9a-f]{4})([0-9a-f]{4})\.(\w+)$', f)
                    mp = re.match(r'^([0-9a-f]{8})\.(\w+)$', f)
                    pd = re.match(r'^([0-9a-f]{4})([0-9a-f]{4})\.pnt$', rel)
                    path = os.path.join(dd, f)
                    if rel == '.' and m:
                        res.append((d, zone, int(m[1], 16), int(m[2], 16), 0, m[3], path))
                    elif pd and mp:
                        res.append((d, zone, int(pd[1], 16), int(pd[2], 16), int(mp[1], 16), mp[2], path))
                    else:
                        res.append((d, zone, 0, 0, 0, '?', path))
        return res

    def outbound(self, drain=True):
        out, flow, stray, arcs = [], [], [], []
        used = []
        for d, zone, net, nod, pnt, ext, path in self.bso_files():
            dest = [zone or 0, net, nod, pnt]
            with open(path, 'rb') as fh:
                data = fh.read()
            if re.match(r'^[ocdh]ut$', ext):
                out.append(self.proj_pkt(data, dest, d, PRI[ext[0]], PRI[ext[0]], zone, 'OUT'))
                used.append(path)
            elif re.match(r'^[fcdh]lo$', ext):
                used.append(path)
                for line in data.decode(L1).split('\n'):
                    crlf = line.endswith('\r')
                    line = line.rstrip('\r')
                    if not line:
                        continue
                    mode = line[0] if line[0] in '#^~-' else ''
                    name = line[len(mode):]
                    full = self.p(name)
                    base = os.path.basename(name)
                    e = {'dest': dest, 'where': d, 'pri': PRI[ext[0]], 'mode': mode, 'name': name, 'crlf': crlf,
                         'exists': os.path.exists(full), 'size': os.path.getsize(full) if os.path.isfile(full) else -1}
                    pkts = []
                    if name.startswith('pk/') and ARCRE.match(base) and e['exists']:
                        e['kind'] = 'ARC'
                        try:
                            with zipfile.ZipFile(full) as zf:
                                e['exists'] = zf.testzip() is None
                                cum, cd = [], 0
                                infos = sorted(zf.infolist(), key=lambda x: x.header_offset)
                                for i, zi in enumerate(infos):
                                    cd += 46 + len(zi.filename) + len(zi.extra) + len(zi.comment)
                                    nxt = infos[i + 1].header_offset if i + 1 < len(infos) else zf.start_dir
                                    # zip's central extra fields are shorter than the local ones; sizes are exact for the last state
                                    cum.append(nxt + cd + 22)
                                arcs.append({'dest': dest, 'name': base, 'cum': cum})
                                for n in sorted(zf.namelist()):
                                    pkts.append((n, zf.read(n)))
                        except zipfile.BadZipFile:
                            if e['size'] != 0:
                                e['exists'] = False
                        used.append(full)
                    elif name.startswith('pk/') and base.endswith('.pkt') and e['exists']:
                        e['kind'] = 'PKT'
                        pkts.append((base, open(full, 'rb').read()))
                        used.append(full)
                    else:
                        e['kind'] = 'FILE'
                        if name.startswith(self.root + '/'):
                            e['name'] = name = name[len(self.root) + 1:]
                        e['id'] = self.ids.get(self.read(name), '?') if e['exists'] else ''
                        if name.startswith('pk/') and e['exists']:
                            used.append(full)
                    for n, b in pkts:
                        pk = self.proj_pkt(b, dest, d, 'ECHOMAIL', PRI[ext[0]], zone, e['kind'])
                        if zone is None and pk['hdest'][0]:
                            e['dest'] = pk['dest']
                        pk['fname'] = n
                        out.append(pk)
                    flow.append(e)
            else:
                stray.append(os.path.relpath(path, self.root))
        ren = {}
        if drain:
            for u in used:
                if os.path.exists(u):
                    if drain == 'trunc' and ARCRE.match(os.path.basename(u)):
                        open(u, 'wb').close()
                    else:
                        os.unlink(u)
        left = sorted(stray + ['new/' + x for x in os.listdir(self.p('new'))] +
                      ['pk/' + x for x in os.listdir(self.p('pk')) if x != 'cmindex' and (not ARCRE.match(x) or os.path.getsize(self.p('pk', x)) > 0 and drain) and (drain or 'pk/' + x not in [os.path.relpath(u, self.root) for u in used])] +
                      ['tmp/' + x for x in os.listdir(self.p('tmp'))])
        # packets of one destination in order of creation
        out.sort(key=lambda p: p.get('fname', ''))
        return out, flow, left, arcs

    def proj_msg(self, num, m, typ):
        lines = fido.split_lines(self.norm(m['text']))
        if typ == 'BAD':
            echo = bool(lines) and lines[0].startswith('AREA:')
        else:
            echo = typ != 'NETMAIL'
        return {'num': num, 'from': m['from'], 'to': m['to'], 'subj': m['subj'], 'date': self.norm(m['date']),
                'attr': m['attr'], 'cost': m['cost'], 'rto': m['rto'], 'nr': m['nextreply'], 'orig': m['orig'], 'dest': m['dest'],
                'echo': echo, 'area': '', 'lines': lines, 'term': m['term'],
                'keep': '%d' % m['timesread']}

    def base(self, path, kind, typ):
        if kind == 'JAM':
            r = jam.read(self.p(path))
            msgs = jam.project(r, self.norm)
            return {'msgs': msgs, 'hw': r['hw'], 'wf': r['wf'], 'why': r['why']}
        msgs, hw = [], 0
        d = self.p(path)
        bad = []
        if os.path.isdir(d):
            nums = []
            for f in os.listdir(d):
                mm = re.match(r'^(\d+)\.msg$', f)
                if mm:
                    nums.append(int(mm[1]))
                else:
                    bad.append(f)
            for n in sorted(nums):
                m = fido.read_msg(self.read('%s/%d.msg' % (path, n)))
                if m is None:
                    bad.append('%d.msg' % n)
                elif n == 1 and m['subj'].startswith('HighWater'):
                    hw = m['rto']
                else:
                    msgs.append(self.proj_msg(n, m, typ))
        return {'msgs': msgs, 'hw': hw, 'wf': not bad and all(m['term'] for m in msgs),
                'why': ';'.join(bad + ['%d not ended' % m['num'] for m in msgs if not m['term']])}

    def dupes(self):
        d = self.read('dupes')
        if not d or d[:4] != b'CDU2':
            return [] if d is None else (['?', '?'] if d else [])
        res, pos = [], 4
        while pos + 2 <= len(d):
            n = d[pos] + 256 * d[pos + 1]
            x = d[pos + 6:pos + 2 + n].split(b'\0')
            res.append([x[0].decode(L1), x[1].decode(L1) if len(x) > 1 else '?'])
            pos += 2 + n
        if pos != len(d):
            res.append(['?', '?'])
        return res

    def stats(self):
        d = self.read('stats')
        if not d or d[:4] != b'CST3':
            return {'day': 0, 'areas': [], 'nodes': []}
        day, na = struct.unpack_from('<II', d, 4)
        pos, areas, nodes = 12, [], []
        fa = '<80s4HcxxxI8HI4xqq'
        # native layout of the struct
        fa = '@80s4Hcb I8HI qq'.replace(' ', '')
        sa = struct.calcsize(fa)
        for i in range(na):
            v = struct.unpack_from(fa, d, pos)
            pos += sa
            areas.append({'tag': fido.cstr(v[0]), 'aka': list(v[1:5]), 'group': fido.cstr(v[5]), 'total': v[7],
                          'days': list(v[8:16]), 'dupes': v[16], 'first': v[17] // 86400, 'last': v[18] // 86400})
        nn, = struct.unpack_from('<I', d, pos)
        pos += 4
        fn = '@4H9Iq'
        sn = struct.calcsize(fn)
        for i in range(nn):
            v = struct.unpack_from(fn, d, pos)
            pos += sn
            nodes.append({'a': list(v[0:4]), 'gotn': v[4], 'gotnb': v[5], 'sentn': v[6], 'sentnb': v[7], 'gote': v[8],
                          'goteb': v[9], 'sente': v[10], 'senteb': v[11], 'dupes': v[12], 'first': v[13] // 86400})
        return {'day': day, 'areas': areas, 'nodes': nodes}

    def export(self, q):
        """an area list for another program"""
        rc, txt = self.run('crashexport', ['prefs', 'areas.lst', q['fmt'] if q['up'] else q['fmt'].lower()] + (['GROUP', q['group']] if q['group'] else []))
        L = (self.read('areas.lst') or b'').decode(L1).split('\n')
        if len(L) < 4 or L[0][:1] != ';' or L[1][:1] != ';' or L[2] or L[-1]:
            return {'exit': rc, 'lines': ['?'] + L}
        os.unlink(self.p('areas.lst'))
        # an address may be written with or without point 0
        return {'exit': rc, 'lines': [re.sub(r'(-P| )(\d+:\d+/\d+)\.0( -J| \(Loc\)| \(Loc Pvt\)|)$', r'\1\2\3', l) if q['fmt'] in ('GOLDED', 'TIMED') else l for l in L[3:-1]]}

    def report(self, q):
        """what crashstats prints"""
        a = ['stats'] + (['SORT', q['sort']] if q['sort'] != 'a' or q['last7'] else [])
        a += [k.upper() for k in ('last7', 'noareas', 'nonodes') if q[k]] + (['GROUP', q['group']] if q['group'] else [])
        rc, txt = self.run('crashstats', a)
        r = {'exit': rc, 'from': '', 'to': '', 'areas': [], 'total': [], 'nodes': [], 'heads': []}
        kw = {'Sent netmails': 'sentn', 'Received netmails': 'gotn', 'Sent echomails': 'sente', 'Received echomails': 'gote'}
        D = r'(<Never>|\d+-[A-Z][a-z][a-z]-\d+)'
        part = ''
        for l in txt.split('\n'):
            m = re.match('Statistics from (\\S+) to (\\S+)$', l)
            if m:
                r['from'], r['to'] = m.groups()
            elif re.match('Area  ', l):
                part = 'a'
                m = re.match(r'Area +((?:\d\d +){7})Total', l)
                if m:
                    r['heads'] = [int(x) for x in m.group(1).split()]
            elif l == 'Nodes statistics':
                part = 'n'
            elif not l.strip('= '):
                continue
            elif part == 'a':
                m = re.match(r'(.*?) +' + D + ' +' + D + r' +(-?\d+) +(-?\d+) +(-?\d+)$', l)
                w = re.match(r'(.*?)((?: +\d+){7}) : +(\d+)$', l)
                t = re.match(r'Totally in all (\d+) areas +(-?\d+) +(-?\d+) +(-?\d+)$', l)
                u = re.match(r'Totally in all (\d+) areas((?: +\d+){7}) : +(\d+)$', l)
                if t:
                    r['total'].append({'n': int(t.group(1)), 'msgs': int(t.group(2)), 'avg': int(t.group(3)), 'dupes': int(t.group(4))})
                elif u:
                    r['total'].append({'n': int(u.group(1)), 'days': [int(x) for x in u.group(2).split()], 'total': int(u.group(3))})
                elif m:
                    r['areas'].append({'tag': m.group(1), 'first': m.group(2), 'last': m.group(3), 'msgs': int(m.group(4)), 'avg': int(m.group(5)), 'dupes': int(m.group(6))})
                elif w:
                    r['areas'].append({'tag': w.group(1), 'days': [int(x) for x in w.group(2).split()], 'total': int(w.group(3))})
                else:
                    r['areas'].append({'tag': '?' + l})
            elif part == 'n':
                m = re.match(r'(\d+:\d+/\d+\.\d+) +Statistics since: (.*)$', l)
                n = re.match(r' +([A-Z][a-z ]+): (\d+)/(.*)$', l)
                d = re.match(r' +Dupes: (\d+)$', l)
                if m:
                    r['nodes'].append({'a': m.group(1), 'since': m.group(2)})
                elif n and r['nodes'] and n.group(1) in kw:
                    r['nodes'][-1][kw[n.group(1)]] = int(n.group(2))
                    r['nodes'][-1][kw[n.group(1)] + 'b'] = n.group(3)
                elif d and r['nodes']:
                    r['nodes'][-1]['dupes'] = int(d.group(1))
                else:
                    r['nodes'].append({'a': '?' + l})
        return r

    def inb(self):
        res = []
        for d, pre in (('in', ''), ('other', 'other/')):
            for n in sorted(os.listdir(self.p(d))):
                if n.startswith('.'):
                    continue
                res.append({'name': pre + n, 'id': self.ids.get(self.read(d + '/' + n), '?')})
        return res

    ids = {}
    loglen = 0

    def observe(self, rc, drain=True):
        out, flow, left, arcs = self.outbound(drain)
        from . import prefsparse
        text = self.read('prefs').decode(L1)
        pc = prefsparse.parse(text, self.cfg)
        pt = {'changed': text != self.ptext, 'bak': (self.read('prefs.bak') or b'').decode(L1) == self.ptext, 'old': [], 'new': []}
        if pt['changed']:
            pt['old'], pt['new'] = prefsparse.lex(self.ptext), prefsparse.lex(text)
        self.ptext = text
        bases = []
        self.areas = pc['areas']
        for a in pc['areas']:
            if a['base'] and a['type'] != 'DEFAULT':
                b = self.base(a['path'], a['base'], a['type'])
                b['tag'] = a['tag']
                bases.append(b)
        flow2 = [dict(e) for e in flow]
        # what filters logged in this run
        log = (self.read('crashmail.log') or b'').decode(L1)
        new, self.loglen = log[self.loglen:], len(log)
        flog = [self.norm(l[l.index('FLT!') + 4:]) for l in new.split('\n') if 'FLT!' in l]
        return {'exit': rc, 'out': out, 'flow': flow2, 'left': left, 'bases': bases, 'inb': self.inb(),
                'dupes': self.dupes(), 'stats': self.stats(), 'cfg': pc, 'ptext': pt, 'arcs': arcs, 'log': flog}

    # ---------------------------------------------------------------- events
    def pktdata(self, f):
        p = f['pkt']
        return p['raw'].encode(L1) if p['raw'] else fido.pkt_bytes(p)

    def put_inbound(self, files):
        for f in files:
            dir = f['dir'].rstrip('/') or 'in'
            if f.get('kind') == 'ARC':
                bio = io.BytesIO()
                with zipfile.ZipFile(bio, 'w', zipfile.ZIP_DEFLATED) as zf:
                    for g in f['members']:
                        zf.writestr(zipfile.ZipInfo(g['name'], time.gmtime(T0 - 86400 * 30 + g['mtime'] * 2)[:6]), self.pktdata(g))
                        self.ids[self.pktdata(g)] = g['id']
                data = bio.getvalue()
                if f['state'] == 'empty':
                    data = b''
                elif f['state'] == 'bad':
                    data = f['mangle'].encode(L1) + f['id'].encode(L1)
            else:
                data = self.pktdata(f)
            self.ids[data] = f['id']
            self.write(dir + '/' + f['name'], data, T0 - 86400 * 20 + f['mtime'])

    def begin(self, e):
        """everything that comes before the program is run; -> the busy flags set"""
        self.k += 1
        self.now = T0 + 3600 * self.k + 86400 * e.get('day', 0)
        e['drained'] = self.drained
        self.drained = bool(e.get('drain', True))
        e['today'] = self.now // 86400
        e['wday'] = time.gmtime(self.now).tm_wday % 7 + 1 if time.gmtime(self.now).tm_wday < 6 else 0
        e.setdefault('busy', [])
        e['edits'] = [y for y in (self.edit(dict(x)) for x in e.get('edits0', [])) if y]
        bsy = [self.busyname(a) for a in e['busy']]
        for b in bsy:
            os.makedirs(os.path.dirname(b), exist_ok=True)
            os.chown(os.path.dirname(b), UID, UID)
            open(b, 'w').close()
            os.chown(b, UID, UID)
            os.chown(os.path.dirname(os.path.dirname(b)), UID, UID)
        if e['op'] == 'toss':
            self.put_inbound(e['files'])
            for f in e.setdefault('aux', []):
                self.ids[f['data'].encode(L1)] = f['id']
                self.write('in/' + f['name'], f['data'])
        if e['op'] == 'scan' and e['how'] in ('LIST', 'DOTJAM'):
            self.write('scan.txt', ''.join(l + '\n' for l in e['lines']))
        return bsy

    def go(self, e, env=None):
        if e['op'] == 'toss':
            return self.run('crashmail', ['SETTINGS', 'prefs'] + [self.p(x) if x.startswith('other') else x for x in e.get('how', ['TOSS'])] + (['NOSECURITY'] if e['nosec'] else []), env)
        if e['op'] == 'scan':
            args = {'ALL': ['SCAN'], 'AREA': ['SCANAREA', e.get('tag', '')], 'LIST': ['SCANLIST', 'scan.txt'], 'DOTJAM': ['SCANDOTJAM', 'scan.txt']}[e['how']]
            return self.run('crashmail', ['SETTINGS', 'prefs'] + args, env)
        if e['op'] in ('notify', 'remove', 'rescan'):
            return self.run('crashmail', ['SETTINGS', 'prefs'] + e['args'], env)
        if e['op'] == 'cmd':
            return self.run(e['prog'], e['args'], env)
        return getattr(self, 'op_' + e['op'])(e)

    def step(self, e):
        bsy = self.begin(e)
        rc, txt = self.go(e)
        self.lasttxt = txt
        o = self.observe(rc, e.get('drain', True))
        if e['op'] == 'maint':
            o['post'] = self.stored()
        if e['op'] == 'write':
            o['wr'] = self.wr
        if 'report' in e:
            o['rep'] = self.report(e['report'])
        if 'export' in e:
            o['exp'] = self.export(e['export'])
        for b in bsy:
            if os.path.exists(b):
                os.unlink(b)
        return o

    drained = True

    def edit(self, x):
        """what an editor does to a message base between runs"""
        a = next((a for a in self.areas if a['tag'] == x['tag'] and a['base'] and a['type'] != 'DEFAULT'), None)
        if a is None:
            return None
        path, isjam = a['path'], a['base'] == 'JAM'
        os.makedirs(os.path.dirname(self.p(path)), exist_ok=True)
        if not isjam:
            os.makedirs(self.p(path), exist_ok=True)
            os.chown(self.p(path), UID, UID)
        write = lambda n, d: self.write(os.path.relpath(n, self.root), d)
        if x['do'] == 'hw':
            f = self.p(path + '.cmhw') if isjam else self.p(path, '1.msg')
            if os.path.exists(f):
                os.unlink(f)
            return x
        b = self.base(path, a['base'], a['type'])
        if x['do'] == 'del':
            have = [m['num'] for m in b['msgs'] if not m.get('del')]
            if not have:
                return None
            x['num'] = have[x['pick'] % len(have)]
            if isjam:
                jam.delete(self.p(path), x['num'], x.get('gone'), write)
            else:
                os.unlink(self.p(path, '%d.msg' % x['num']))
            return x
        if x['do'] == 'age':
            # the messages are stored on other days
            if isjam:
                jam.redate(self.p(path), [self.now - d * 86400 if d != 99999 else None for d in x['days']], x['lr'].encode(L1), write)
            else:
                for i, m in enumerate(b['msgs']):
                    d = x['days'][i % len(x['days'])]
                    if d != 99999 and m['num'] > 1:
                        t = self.now - d * 86400
                        os.utime(self.p(path, '%d.msg' % m['num']), (t, t))
            return None
        if isjam:
            r = dict(x['jam'])
            num = jam.post(self.p(path), r, write)
            text = r.pop('rawtext')
            r.pop('last', None)
            r.update(num=num, text=text.split('\0')[0], rto=0, r1=0, rn=0)
            r['del'] = False
        else:
            r = dict(x['msg'])
            num = max([m['num'] for m in b['msgs']] + [1]) + 1
            text = r.pop('text')
            tr, nr, rt = (int(y) for y in r['keep'].split(','))
            self.write('%s/%d.msg' % (path, num), fido.write_msg(dict(r, text=text, timesread=tr, nextreply=nr, rto=rt)))
            L = [l + '\r' for l in text.split('\r')]
            L[-1] = L[-1][:-1]
            net = next(a for a in self.areas if a['tag'] == x['tag'])['type'] == 'NETMAIL'
            sb, pa = ([l for l in L if l.startswith(p) and not net] for p in ('SEEN-BY:', '\x01PATH:'))
            r.update(num=num, body=''.join(l for l in L if l not in sb + pa), sbl=sb, pathl=pa, rto=rt, nr=nr, keep='%d' % tr)
        return {'do': 'post', 'tag': x['tag'], 'rec': r}

    def stored(self):
        """what the specification does not keep of stored messages"""
        res = []
        for a in self.areas:
            if not a['base'] or a['type'] == 'DEFAULT':
                continue
            ms, lr = [], ''
            if a['base'] == 'JAM':
                for h in jam.read(self.p(a['path']))['raw']:
                    if h and not h['deleted']:
                        ms.append({'num': h['num'], 'day': h['received'] // 86400 or h['processed'] // 86400 or h['written'] // 86400,
                                   'raw': '%d %d %d' % (h['received'], h['processed'], h['written'])})
                lr = (self.read(a['path'] + '.jlr') or b'').hex()
            elif os.path.isdir(self.p(a['path'])):
                for f in os.listdir(self.p(a['path'])):
                    mm = re.match(r'^(\d+)\.msg$', f)
                    if mm and int(mm[1]) > 1:
                        t = int(os.stat(self.p(a['path'], f)).st_mtime)
                        ms.append({'num': int(mm[1]), 'day': t // 86400, 'raw': str(t)})
            res.append({'tag': a['tag'], 'msgs': sorted(ms, key=lambda m: m['num']), 'lr': lr})
        return res

    def op_maint(self, e):
        e['pre'] = self.stored()
        return self.run('crashmaint', ['SETTINGS', 'prefs'] + e['args'])

    def op_write(self, e):
        for t in e['texts']:
            self.write(t['name'], t['data'])
        old = {}
        for s in range(e.get('collide', 0)):
            for t in range(self.now, self.now + 4):
                n = '%08x.pkt' % (((t << 8) + s) & 0xffffffff)
                old[n] = b'old ' + n.encode()
                self.write('in/' + n, old[n])
        before = set(os.listdir(self.p('in')))
        env = {'CM_OPN': str(e['fault']), 'CM_OPMODE': 'fail'} if e['fault'] else None
        if e['par'] > 1:
            with ThreadPoolExecutor(e['par']) as ex:
                rs = list(ex.map(lambda i: self.run('crashwrite', e['argv'], env), range(e['par'])))
            rc, txt = max(rs, key=lambda x: str(x[0]))
        else:
            rc, txt = self.run('crashwrite', e['argv'], env)
        e['names'] = sorted(set(os.listdir(self.p('in'))) - before)
        e['mtime'], e['wids'] = 100 + self.k, []
        self.wr = []
        for i, n in enumerate(e['names']):
            d = self.read('in/' + n)
            e['wids'].append(self.ids.setdefault(d, 'w%d.%d' % (self.k, i)))
            self.wr.append({'name': n, 'raw': self.norm(d.decode(L1))})
            t = T0 - 86400 * 20 + e['mtime']
            os.utime(self.p('in', n), (t, t))
        for n, d in old.items():
            if self.read('in/' + n) != d:
                self.wr.append({'name': 'overwritten ' + n, 'raw': ''})
            if os.path.exists(self.p('in', n)):
                os.unlink(self.p('in', n))
        return rc, txt

    def busyname(self, a):
        """the busy flag of a system (where the specification says it is)"""
        d = 'out' if a[0] == self.cfg['akas'][0]['a'][0] else 'out.%03x' % a[0]
        d = self.sc.get('dirs', {}).get(conf.s4(a), d)
        b = self.p('bso', d, '%04x%04x' % (a[1], a[2]))
        return b + '.pnt/%08x.bsy' % a[3] if a[3] else b + '.bsy'


class NlWorld(World):
    """nodelists only"""
    def __init__(self, binp, root, sc):
        self.bin, self.root, self.sc, self.now, self.wins = binp, root, sc, T0, []
        os.makedirs(self.p('nl'))
        chown_tree(root)

    def step(self, e):
        if e['op'] == 'index':
            for f in os.listdir(self.p('nl')):
                if not f.startswith('cmnodelist.index'):
                    os.unlink(self.p('nl', f))
            for f in e['files']:
                self.write('nl/' + f['name'], f['data'], f['mtime'])
            self.write('nl/cmnodelist.prefs', ''.join(x['text'] for x in e['conf']))
            rc, self.lasttxt = self.run('crashlist', ['nl'])
            return {'exit': rc}
        res = []
        for a in e['addrs']:
            rc, out = self.run('crashgetnode', [conf.s4(a) if e['full'] else conf.s4s(a), 'nl'])
            self.lasttxt = out
            if rc == 'timeout' or (isinstance(rc, int) and rc < 0):
                return {'exit': rc, 'answers': []}
            l = out.split('\n')
            res.append({'found': rc == 0, 'at': '\n'.join(l[:2]) + '\n' if rc == 0 else '', 'info': '\n'.join(l[2:]) if rc == 0 else out})
        return {'exit': 0, 'answers': res}


class LoWorld(World):
    """outbound directories to be listed"""
    def __init__(self, binp, root, sc):
        self.bin, self.root, self.sc, self.now, self.wins = binp, root, sc, T0, []
        os.makedirs(root)
        chown_tree(root)

    def run(self, prog, args, env=None, timeout=15):
        """with room for a few open files only"""
        old = self.bin
        self.bin = '/bin'
        try:
            return World.run(self, 'sh', ['-c', 'ulimit -n 16; exec "$0" "$@"', os.path.join(old, prog)] + args, dict(env or {}, LD_PRELOAD=''), timeout)
        finally:
            self.bin = old

    def step(self, e):
        for n in os.listdir(self.root):
            shutil.rmtree(self.p(n)) if os.path.isdir(self.p(n)) else os.unlink(self.p(n))
        for d in e['dirs']:
            os.makedirs(self.p(d))
        for f in e['files']:
            n = '/'.join(x for x in (f['top'], f['dir'], f['name']) if x)
            self.write(n, f['data'])
            os.truncate(self.p(n), f['size'])
            os.utime(self.p(n), (f['mtime'], f['mtime']))
        for f in e['others']:
            self.write(f['path'], '')
            os.truncate(self.p(f['path']), f['size'])
        chown_tree(self.root)
        env = {k: v for k, v in (('CMOUTBOUND', e['env']['dir']), ('CMOUTBOUNDZONE', e['env']['zone'])) if v}
        def tree():
            return [(d, sorted(ds), sorted((n, os.stat(d + '/' + n).st_mtime_ns, os.stat(d + '/' + n).st_size) for n in ns)) for d, ds, ns in sorted(os.walk(self.root))]
        old = tree()
        rc, out = self.run('crashlistout', e['args'], env)
        self.lasttxt = out
        L = out.split('\n')[4:]
        while L and not L[-1]:
            L.pop()
        rows = []
        for l in L[:-1]:
            if l.startswith(' ') and rows:
                rows[-1].append(l)
            elif l:
                rows.append([l])
        return {'exit': rc, 'rows': rows, 'end': L[-1] if L else '', 'kept': tree() == old}


HUNG = [0]


def run_scenario(binp, tmp, sc, keep=False):
    root = os.path.join(tmp, 's%s' % sc['id'])
    sc.pop('proj', None)
    if HUNG[0] > 8:
        sc['skipped'] = True
        return sc
    i = 0
    try:
        w = {'nl': NlWorld, 'lo': LoWorld}.get(sc.get('kind'), World)(binp, root, sc)
        for i, e in enumerate(sc['steps']):
            e['obs'] = w.step(e)
            if e['obs']['exit'] != e.get('exit'):
                e['obs']['txt'] = w.lasttxt[-400:]
            if e['obs']['exit'] == 'timeout':
                HUNG[0] += 1
                raise HarnessError('the program did not end: ' + w.lasttxt[-300:])
    except Exception:
        sc['proj'] = {'step': i + 1, 'text': traceback.format_exc()[-1500:]}
    if not keep:
        shutil.rmtree(root, ignore_errors=True)
    return sc


def run_all(binp, tmp, scs, workers=8):
    HUNG[0] = 0
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(lambda s: run_scenario(binp, tmp, s), scs))
    scs[:] = [s for s in scs if not s.pop('skipped', False)]
    return scs
