"""Self-contained helpers of the demonstrations: packets, message files, a scratch world."""
import os, re, shutil, struct, subprocess, sys, tempfile
BIN = os.path.join(os.getcwd(), 'bin')
L1 = 'latin-1'


def pkt(orig, dest, msgs, pw=''):
    h = bytearray(58)
    def put(o, n):
        h[o:o + 2] = struct.pack('<H', n & 0xffff)
    for o, n in ((0, orig[2]), (2, dest[2]), (4, 2001), (6, 2), (8, 3), (18, 2), (20, orig[1]), (22, dest[1]), (34, orig[0]), (36, dest[0]),
                 (40, 0x100), (44, 1), (46, orig[0]), (48, dest[0]), (50, orig[3]), (52, dest[3])):
        put(o, n)
    h[26:34] = pw.encode(L1)[:8].ljust(8, b'\0')
    return bytes(h) + b''.join(msgs) + b'\0\0'


def msg(text, subj='subj', fr='From Me', to='To You', o=(10, 2), d=(10, 1), attr=0, date='01 Mar 01  12:00:00', cost=0):
    return struct.pack('<7H', 2, o[1], d[1], o[0], d[0], attr, cost) + b''.join(x.encode(L1) + b'\0' for x in (date, to, fr, subj, text))


def readpkt(data):
    g = lambda o: data[o] + 256 * data[o + 1]
    r = {'orig': (g(46), g(20), g(0), g(50)), 'dest': (g(48), g(22), g(2), g(52)), 'pw': data[26:34].split(b'\0')[0].decode(L1), 'msgs': [], 'ok': False}
    p = 58
    while p + 2 <= len(data):
        if g(p) == 0:
            r['ok'] = p + 2 == len(data)
            break
        m = {'o': (g(p + 6), g(p + 2)), 'd': (g(p + 8), g(p + 4)), 'attr': g(p + 10), 'cost': g(p + 12)}
        p += 14
        for f in ('date', 'to', 'from', 'subj', 'text'):
            e = data.index(b'\0', p)
            m[f] = data[p:e].decode(L1)
            p = e + 1
        r['msgs'].append(m)
    return r


def readmsg(data):
    v = struct.unpack('<36s36s72s20s13H', data[:190])
    c = lambda b: b.split(b'\0')[0].decode(L1)
    return {'from': c(v[0]), 'to': c(v[1]), 'subj': c(v[2]), 'date': c(v[3]), 'attr': v[15], 'cost': v[7], 'replyto': v[14],
            'orig': (v[11], v[8], v[6], v[13]), 'dest': (v[10], v[9], v[5], v[12]), 'text': data[190:].split(b'\0')[0].decode(L1)}


def mkmsg(text, subj='subj', fr='From Me', to='To You', attr=0x100, date='01 Mar 01  12:00:00', orig=(0, 0, 0, 0), dest=(0, 0, 0, 0), replyto=0):
    e = lambda s: s.encode(L1)
    return struct.pack('<36s36s72s20s13H', e(fr), e(to), e(subj), e(date), 0, dest[2], orig[2], 0, orig[1], dest[1], dest[0], orig[0],
                       dest[3], orig[3], replyto, attr, 0) + e(text) + b'\0'


HEAD = '''SYSOP "Test Sysop"
LOGFILE "log"
LOGLEVEL 6
DUPEFILE "dupes" %(dupes)s
DUPEMODE BAD
LOOPMODE IGNORE
DEFAULTZONE 1
INBOUND "%(root)s/in"
OUTBOUND "bso/out"
TEMPDIR "tmp"
CREATEPKTDIR "new"
PACKETDIR "pk"
STATSFILE "stats"
PACKER "ZIP" "zip -q -j %%a %%f" "unzip -qq -j -o %%a" "PK"
AREAFIXNAME "areafix"
'''


class World:
    def __init__(self, prefs, dupes=200):
        self.root = tempfile.mkdtemp(prefix='demo')
        for d in ('in', 'bso/out', 'tmp', 'new', 'pk', 'a'):
            os.makedirs(os.path.join(self.root, d))
        self.write('prefs', HEAD % {'dupes': dupes, 'root': self.root} + prefs)

    def p(self, n):
        return os.path.join(self.root, n)

    def write(self, n, data):
        os.makedirs(os.path.dirname(self.p(n)), exist_ok=True)
        with open(self.p(n), 'wb') as f:
            f.write(data.encode(L1) if isinstance(data, str) else data)

    def read(self, n):
        return open(self.p(n), 'rb').read() if os.path.exists(self.p(n)) else None

    def run(self, *args, prog='crashmail', env=None, timeout=60):
        a = ['SETTINGS', 'prefs'] + list(args) if prog == 'crashmail' else list(args)
        r = subprocess.run([os.path.join(BIN, prog)] + a, cwd=self.root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, TZ='UTC', **(env or {})))
        self.out = r.stdout.decode(L1)
        return r.returncode

    def toss(self, *pkts, names=None, args=()):
        for i, d in enumerate(pkts):
            self.write('in/%s' % (names[i] if names else '%08x.pkt' % (i + 1)), d)
            os.utime(self.p('in/%s' % (names[i] if names else '%08x.pkt' % (i + 1))), (1000000 + i, 1000000 + i))
        return self.run('TOSS', *args)

    def base(self, path):
        """{number: message} of a *.MSG area"""
        d = self.p(path)
        if not os.path.isdir(d):
            return {}
        return {int(f[:-4]): readmsg(open(os.path.join(d, f), 'rb').read()) for f in os.listdir(d) if re.match(r'^\d+\.msg$', f)}

    def outpkts(self):
        """[(relative file, packet)] of everything unpacked in the outbound"""
        res = []
        for d, _, fs in os.walk(self.p('bso')):
            for f in fs:
                full = os.path.join(d, f)
                if re.match(r'.*\.[ocdh]ut$', f):
                    res.append((os.path.relpath(full, self.p('bso')), readpkt(open(full, 'rb').read())))
                elif re.match(r'.*\.[fcdh]lo$', f):
                    for l in open(full).read().split('\n'):
                        l = l.strip()
                        if l.endswith('.pkt'):
                            res.append((os.path.relpath(full, self.p('bso')), readpkt(open(self.p(l[1:]), 'rb').read())))
        return res

    def outmsgs(self):
        return [(f, p, m) for f, p in self.outpkts() for m in p['msgs']]


def main(fn):
    ws = []
    def world(*a, **k):
        w = World(*a, **k)
        ws.append(w)
        return w
    try:
        fn(world)
        print('ok')
        rc = 0
    except AssertionError as e:
        import traceback
        traceback.print_exc()
        rc = 1
    finally:
        for w in ws:
            shutil.rmtree(w.root, ignore_errors=True)
    sys.exit(rc)
