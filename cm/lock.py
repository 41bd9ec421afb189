"""Schedules of several instances on one configuration.

The instances are real processes that stop before every file operation (shim, CM_SCHED); this driver decides
who goes on.  What happens is recorded as a sequence of events and checked by TLC against spec/CMLock.tla."""
import hashlib, json, os, random, re, select, shutil, signal, socket, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import gen, runner, tlc

OWNED = {'l.excl', 'l.work', 'l.late', 'l.progress', 'l.released', 'l.status', 'l.giveup', 'eval'}


class Inst:
    def __init__(self, w, prog, args, env):
        self.a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'TZ': 'UTC', 'LC_ALL': 'C', 'HOME': w.root, 'CM_SCHED': str(b.fileno()),
             'LD_PRELOAD': os.path.join(w.bin, 'shim.so'), 'CM_TIME': str(w.now)}
        e.update(env)
        self.p = subprocess.Popen([os.path.join(w.bin, prog)] + args, cwd=w.root, env=e, user=runner.UID, group=runner.UID, extra_groups=[],
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=[b.fileno()])
        b.close()
        self.pending, self.rc = None, None
        self.recv()

    def recv(self):
        self.a.settimeout(20)
        try:
            d = self.a.recv(1000)
        except socket.timeout:
            d = b''
            self.p.kill()
        except ConnectionResetError:
            d = b''
        if d:
            what, _, name = d.decode('latin-1').partition(' ')
            self.pending = (what, name)
        else:
            self.pending = None
            try:
                self.rc = self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.rc = self.p.wait()

    def kind(self):
        what, name = self.pending
        return 'sleep' if what == 'sleep' else 'lock' if name.endswith('.busy') else 'other' if what == 'stat' else 'work'

    def go(self, c):
        self.a.send(c.encode())
        self.recv()

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.a.close()


class Run:
    def __init__(self, binp, root, sc):
        self.sc = sc
        wsc = gen.__dict__[sc['gen']](gen.Gen(sc['wseed']), 1)
        wsc['steps'] = wsc['steps'][:1]
        self.w = w = runner.World(binp, root, wsc)
        e = wsc['steps'][0]
        w.k, w.now = 1, runner.T0 + 3600
        for x in e.get('edits0', []):
            w.edit(dict(x))
        if e['op'] == 'toss':
            w.put_inbound(e['files'])
            for f in e.get('aux', []):
                w.write('in/' + f['name'], f['data'])
        if sc.get('break') == 'config':
            w.write('prefs', w.ptext + 'NOSUCHKEYWORD\n')
        elif sc.get('break') == 'check':
            w.write('prefs', w.ptext.replace('"%s"' % w.p('in'), '"%s"' % w.p('nosuch')))
        elif sc.get('break') == 'missing':
            os.unlink(w.p('prefs'))
        self.busy = w.p('prefs.busy')
        for pr in sc['procs']:
            pr['intr'], pr['sure'] = False, pr['sure0']
        self.sleeps = {}
        self.inst, self.ev, self.snap, self.since = {}, [], {}, {}

    def b(self):
        return os.path.exists(self.busy)

    def event(self, p, k, b0, b1, rc=0):
        e = {'p': p, 'k': k, 'b0': b0, 'b1': b1, 'rc': rc}
        if not self.ev or self.ev[-1] != e or k == 'exit':
            self.ev.append(e)

    def snapshot(self):
        r = {}
        for d, _, fs in os.walk(self.w.root):
            for f in fs:
                p = os.path.join(d, f)
                if f != 'crashmail.log' and p != self.busy:
                    with open(p, 'rb') as fh:
                        r[p] = hashlib.md5(fh.read()).hexdigest()
        return r

    def get(self, p):
        if p not in self.inst:
            pr = self.sc['procs'][p - 1]
            b0 = self.b()
            self.inst[p] = Inst(self.w, 'crashmail', pr['args'], pr.get('env', {}))
            self.event(p, 'other', b0, self.b())
            self.ended(p)
        return self.inst[p]

    def ended(self, p):
        i = self.inst[p]
        if i.pending is None:
            b = self.b()
            if i.killed:
                return
            if p in self.snap and self.snap[p] is not None and self.snap[p] != self.snapshot():
                self.event(p, 'late', b, b)
            self.event(p, 'exit', b, b, i.rc)

    def one(self, p, c='g'):
        """-> FALSE if it has ended"""
        i = self.get(p)
        if i.pending is None:
            return False
        for q in self.snap:
            if q != p:
                self.snap[q] = None
        k, b0 = i.kind(), self.b()
        pr = self.sc['procs'][p - 1]
        if c in 'ik':
            pr['sure'] = False
            pr['intr'] |= c == 'i' and k == 'sleep'
        if c == 'k':
            i.killed = True
            i.go(c)
            self.event(p, 'kill', b0, self.b())
            return False
        if c == 'f' and i.pending[0] == 'remove' and k == 'lock':
            c = 'g'     # if the lock cannot be removed it stays
        i.go(c)
        b1 = self.b()
        self.event(p, k, b0, b1)
        if b0 and not b1:
            self.snap[p] = self.snapshot()
        self.ended(p)
        return i.pending is not None

    def macro(self, p, a):
        if isinstance(a, int):
            for _ in range(a):
                if not self.one(p):
                    break
        elif a in 'fik':
            if a != 'i' or self.get(p).pending is not None:
                self.one(p, a)
        elif a in 'wse':
            # w: the work up to the next operation of another kind; s: until it sleeps; e: to the end
            for n in range(20000):
                i = self.get(p)
                if i.pending is None:
                    break
                if a == 'w' and n and i.kind() != 'work' or a == 's' and i.kind() == 'sleep':
                    break
                if a == 'e' and i.kind() == 'sleep':
                    if self.sleeps.get(p, 0) > 3 + 3 * len(self.sc['procs']):
                        b = self.b()
                        self.event(p, 'stuck', b, b)
                        break
                    self.sleeps[p] = self.sleeps.get(p, 0) + 1
                self.one(p)

    def run(self):
        try:
            for p, a in self.sc['sched']:
                self.macro(p, a)
            if self.sc.get('finish'):
                finish_all(self, self.sc['finish'])
        finally:
            for i in self.inst.values():
                i.close()
        self.sc['ev'] = self.ev


Inst.killed = False


def run_one(binp, tmp, sc):
    root = os.path.join(tmp, 'l%s' % sc['id'])
    try:
        Run(binp, root, sc).run()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return sc


def count_ops(binp, tmp, sc):
    """operations of the first instance alone"""
    root = os.path.join(tmp, 'count')
    r = Run(binp, root, sc)
    n = 0
    try:
        while r.one(1):
            n += 1
    finally:
        for i in r.inst.values():
            i.close()
        shutil.rmtree(root, ignore_errors=True)
    return n


WORLDS = [('af_scenario', ['TOSS']), ('echo_scenario', ['TOSS']), ('scan_scenario', ['SCAN']), ('netmail_scenario', ['TOSS']), ('out_scenario', ['TOSS'])]


def proc(cmd='RUN', args=(), name='prefs', sure=True, env=None):
    r = {'cmd': cmd, 'args': (['SETTINGS', name] if name else []) + list(args), 'sure0': sure}
    if env:
        r['env'] = env
    return r


def tlc_schedules(ctx):
    d = tempfile.mkdtemp(dir=ctx.tmp)
    r = tlc.run(d, 'MC_LockGen', cfg=os.path.join(tlc.SPEC, 'MC_LockGen.cfg'))
    shutil.rmtree(d)
    if not r['ok']:
        raise tlc.TlcError('MC_LockGen: ' + r['out'][-1500:])
    return sorted(set(tuple(int(x) for x in re.findall(r'\d+', m)) for m in re.findall(r'SCHED <<(.*?)>>', r['out'])))


def from_model(r, s, cut):
    """a schedule of MC_Lock as a schedule of real instances"""
    sched, works, killed = [], {}, []
    for x in s:
        p = x % 10
        if x > 20:
            sched.append([p, 'k'])
            killed = [3 - p]
        elif x > 10:
            sched.append([p, 'i'])
        else:
            sched.append([p, 1])
            works[p] = works.get(p, 0) + 1
            if works[p] >= 2:
                # it may be at work by now: a stretch of it
                sched.append([p, 'x%d' % cut])
    return sched, killed


def schedules(ctx, r, n):
    """scenarios, deterministic for a seed"""
    res = []

    def add(world, procs, sched, **kw):
        g, a = world
        res.append(dict(kw, id=len(res) + 1, gen=g, wseed='%d-lock-%s' % (ctx.seed, kw.get('ws', 0)), procs=procs, sched=sched))

    wl = [(w, s) for s in range(1 if ctx.tier == 'quick' else 8) for w in WORLDS]
    # how a run can end, and that the next one gets the lock
    names = ['prefs', './prefs', '././././prefs', './' * 48 + 'prefs', './' * 70 + 'prefs', './' * 140 + 'prefs']
    for w, s in wl[:5]:
        for nm in names:
            add(w, [proc(args=w[1], name=nm), proc(args=w[1])], [[1, 'e'], [2, 'e']], ws=s)
        add(w, [proc(args=w[1], name=None, env={'CMCONFIGFILE': 'prefs'}), proc(args=w[1])], [[1, 4], [2, 's'], [1, 'e'], [2, 'e']], ws=s)
        add(w, [proc(args=w[1], name='./' * 160 + 'prefs', sure=False), proc(args=w[1])], [[1, 'e'], [2, 'e']], ws=s)
        add(w, [proc(args=w[1], name='nosuchdir/prefs', sure=False), proc(args=w[1])], [[1, 'e'], [2, 'e']], ws=s)
        for br in ('config', 'check', 'missing'):
            add(w, [proc(args=w[1], sure=False), proc(args=w[1], sure=False)], [[1, 2], [2, 's'], [1, 'e'], [2, 'e']], ws=s, **{'break': br})
        for args in (['TOSSFILE', 'nosuch.pkt'], ['TOSSDIR', 'nosuch'], ['SCANAREA', 'NO.SUCH'], ['SCANLIST', 'nosuch'], ['RESCAN', 'NO.SUCH'],
                     ['SENDLIST', '9:9/9'], ['REMOVE', 'NO.SUCH'], []):
            add(w, [proc(args=args), proc(args=w[1])], [[1, 'e'], [2, 'e']], ws=s)
        for args in (['VERSION'], ['NOSUCHARG'], ['SCANAREA']):
            add(w, [proc('NONE', args, sure=False), proc(args=w[1])], [[2, 5], [1, 'e'], [2, 'e']], ws=s)
        add(w, [proc('LOCK', ['LOCK']), proc(args=w[1]), proc('UNLOCK', ['UNLOCK'], sure=False), proc(args=w[1], sure=False)],
            [[1, 'e'], [2, 's'], [4, 's'], [2, 1], [4, 'i'], [4, 'e'], [2, 3], [3, 'e'], [2, 'e']], ws=s)
        add(w, [proc(args=w[1]), proc('LOCK', ['LOCK']), proc(args=w[1], sure=False), proc('UNLOCK', ['UNLOCK'], sure=False)],
            [[1, 9], [2, 's'], [1, 'e'], [2, 'e'], [3, 's'], [3, 'i'], [3, 'e'], [4, 'e']], ws=s)
        add(w, [proc('LOCK', ['LOCK']), proc('LOCK', ['LOCK'], sure=False), proc('UNLOCK', ['UNLOCK'], sure=False), proc(args=w[1])],
            [[1, 'e'], [2, 's'], [2, 'i'], [2, 'e'], [3, 'e'], [4, 'e']], ws=s)
    # every operation of a run: fails; the run is interrupted; another instance starts there; it is killed there
    for w, s in wl:
        base = dict(id=0, gen=w[0], wseed='%d-lock-%s' % (ctx.seed, s), procs=[proc(args=w[1])], sched=[])
        m = count_ops(ctx.bin, ctx.tmp, base)
        pts = list(range(m + 1))
        quota = max(6, int(n * .3 / len(wl) / 4))
        for kind in 'fiok':
            for k in pts if len(pts) <= quota else sorted(set(pts[:5] + pts[-4:] + r.sample(pts, quota))):
                if kind == 'o':
                    add(w, [proc(args=w[1]), proc(args=w[1])], [[1, k], [2, 's'], [1, r.choice([0, 1, 2, 3, 10])], [2, r.choice([1, 2, 3, 4])], [1, 'e'], [2, 'e']], ws=s)
                elif kind == 'k':
                    add(w, [proc(args=w[1], sure=False), proc(args=w[1]), proc('UNLOCK', ['UNLOCK'], sure=False)], [[1, k], [1, 'k'], [2, 's'], [2, 2], [3, 'e'], [2, 'e']], ws=s)
                else:
                    add(w, [proc(args=w[1], sure=False), proc(args=w[1])], [[1, k], [1, kind], [1, 'e'], [2, 'e']], ws=s)
    # behaviours of MC_Lock
    ms = tlc_schedules(ctx)
    for s in r.sample(ms, min(len(ms), int(n * .18))):
        w, ws = r.choice(wl)
        sched, killed = from_model(r, s, r.choice([1, 3, 30, 1000]))
        procs = [proc(args=w[1], sure=True) for p in (1, 2)]
        procs.append(proc('UNLOCK', ['UNLOCK'], sure=False))
        sched = [[p, 'w' if a == 'x1000' else int(a[1:]) if isinstance(a, str) and a[0] == 'x' else a] for p, a in sched]
        # a killed instance leaves its lock behind
        tail = [[p, 's'] for p in killed if p] + [[3, 'e']] if killed else []
        add(w, procs, sched + tail, ws=ws, finish=[1, 2])
    # anything, two to four instances
    while len(res) < n:
        w, ws = r.choice(wl)
        k = r.choice([2, 2, 3, 4])
        sched = []
        for _ in range(r.randint(3, 40)):
            sched.append([r.randint(1, k), r.choice([1, 1, 1, 1, 2, 3, 5, 20, 50, 's', 'w'])])
        fin = list(range(1, k + 1))
        r.shuffle(fin)
        add(w, [proc(args=w[1]) for _ in range(k)], sched, ws=ws, finish=fin)
    return res


def finish_all(run, order):
    """everybody runs to the end, in turns"""
    for _ in range(4 * len(order)):
        for p in order:
            i = run.get(p)
            for n in range(20000):
                if i.pending is None:
                    break
                s = i.kind() == 'sleep'
                run.one(p)
                if s and run.get(p).pending is not None and run.get(p).kind() != 'work':
                    # it had its try
                    run.one(p)
                    if i.pending is not None and i.kind() == 'sleep':
                        break
        if all(run.get(p).pending is None for p in order):
            return
    for p in order:
        if run.get(p).pending is not None:
            b = run.b()
            run.event(p, 'stuck', b, b)


def strip(sc):
    return {k: v for k, v in sc.items() if k not in ('ev',)}


def part(ctx, p):
    from check import judge, report        # the driver
    n = p['n'][0 if ctx.tier == 'quick' else 1]
    r = random.Random('lock%d' % ctx.seed)
    scs = schedules(ctx, r, n)
    total = ev = 0
    kinds = {}
    for c in range(0, len(scs), 400):
        if ctx.viol or ctx.elapsed() > (700 if ctx.tier == 'thorough' else 450):
            break
        part = scs[c:c + 400]
        with ThreadPoolExecutor(12) as ex:
            list(ex.map(lambda s: run_one(ctx.bin, ctx.tmp, s), part))
        hits = judge(ctx, part, OWNED, 'CMLockTrace')
        total += len(part)
        ev += sum(len(s['ev']) for s in part)
        for s in part:
            for e in s['ev']:
                kinds[e['k']] = kinds.get(e['k'], 0) + 1
        for sc, step, fs in hits[:4]:
            s2 = strip(sc)
            run_one(ctx.bin, ctx.tmp, s2)
            h = judge(ctx, [s2], OWNED, 'CMLockTrace')
            if not h:
                print('note: schedule %s differed once and not again; ignored' % sc['id'], flush=True)
                continue
            report(ctx, p['name'], h[0][0], h[0][1], h[0][2])
        if len(ctx.cov['samples']) < 3:
            for s in part[-2:]:
                ctx.cov['samples'].append({'part': p['name'], 'id': s['id'], 'procs': [x['cmd'] for x in s['procs']], 'sched': s['sched'][:20]})
        for s in part:
            s.pop('ev', None)
    ctx.cov['traces_validated_against_impl'] += total
    ctx.cov['parts'].append({'name': p['name'], 'kind': 'schedules of real instances', 'scenarios': total, 'events': ev, 'event_kinds': kinds,
                             'facets': sorted(OWNED), 'module': 'CMLockTrace'})


def replay(ctx, sc):
    from check import judge
    s = strip(sc)
    run_one(ctx.bin, ctx.tmp, s)
    return [(st, sorted(fs)) for _, st, fs in judge(ctx, [s], OWNED, 'CMLockTrace')]
