"""JAM message base reader (projection) and writer of locally posted messages."""
import re, calendar, os, struct, time, zlib

L1 = 'latin-1'
HDR = '<4sHHIIIIIIIIIIIIIIIII'   # 76 bytes
HF = ['sig', 'rev', 'rsvd', 'sublen', 'timesread', 'msgidcrc', 'replycrc', 'replyto', 'reply1st', 'replynext',
      'written', 'received', 'processed', 'msgnum', 'attr', 'attr2', 'txtoff', 'txtlen', 'pwcrc', 'cost']


def crc(s):
    """JAM crc32: of the lower case string, not inverted at the end"""
    return zlib.crc32(s.lower().encode(L1)) ^ 0xffffffff


def slurp(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def crcs(have, name, text):
    return {crc(have[0])} if have else {0xffffffff} | {crc(x.strip()) for x in re.findall(r'(?:^|\r)@%s: ([^\r]*)' % name, text)}


def read(path):
    """-> dict(exists, wf, active, basenum, modc, msgs[...], deleted[...], lr)"""
    jhr, jdx, jdt, jlr = (slurp(path + e) for e in ('.jhr', '.jdx', '.jdt', '.jlr'))
    r = {'msgs': [], 'raw': [], 'wf': True, 'hw': 0, 'active': 0, 'basenum': 1, 'why': ''}
    if jhr is None:
        return r

    def bad(w):
        r['wf'] = False
        r['why'] += w + ';'
    if jdx is None or jdt is None or len(jhr) < 1024 or jhr[:4] != b'JAM\0':
        bad('files')
        return r
    r['created'], r['modc'], r['active'], r['pwcrc'], r['basenum'] = struct.unpack_from('<5I', jhr, 4)
    if len(jdx) % 8:
        bad('jdx size')
    seen = []
    nact = 0
    for i in range(len(jdx) // 8):
        uc, off = struct.unpack_from('<II', jdx, 8 * i)
        if off == 0xffffffff:
            r['raw'].append(None)
            continue
        if off < 1024 or off + 76 > len(jhr):
            bad('jdx %d offset' % i)
            continue
        h = dict(zip(HF, struct.unpack_from(HDR, jhr, off)))
        if h['sig'] != b'JAM\0' or off + 76 + h['sublen'] > len(jhr):
            bad('header %d' % i)
            continue
        seen.append((off, off + 76 + h['sublen']))
        if h['msgnum'] != r['basenum'] + i:
            bad('msgnum %d' % i)
        subs, pos, end = [], off + 76, off + 76 + h['sublen']
        while pos < end:
            if pos + 8 > end:
                bad('subfield %d' % i)
                break
            lo, hi, n = struct.unpack_from('<HHI', jhr, pos)
            if pos + 8 + n > end:
                bad('subfield %d' % i)
                break
            subs.append([lo, jhr[pos + 8:pos + 8 + n].decode(L1)])
            pos += 8 + n
        if h['txtoff'] + h['txtlen'] > len(jdt):
            bad('text %d' % i)
        h['text'] = jdt[h['txtoff']:h['txtoff'] + h['txtlen']].decode(L1)
        h['subs'] = subs
        h['num'] = h['msgnum']
        h['deleted'] = bool(h['attr'] & 0x80000000)
        h['usercrc'] = uc
        to = [d for l, d in subs if l == 3]
        if to and not h['deleted'] and uc != crc(to[0]):
            bad('usercrc %d' % i)
        mid = [d for l, d in subs if l == 4]
        rep = [d for l, d in subs if l == 5]
        # a netmail kept in the bad area has its control lines in the text ("@MSGID: ...")
        if h['msgidcrc'] not in crcs(mid, 'MSGID', h['text']) or h['replycrc'] not in crcs(rep, 'REPLY', h['text']):
            bad('idcrc %d' % i)
        if not h['deleted']:
            nact += 1
        r['raw'].append(h)
    if nact != r['active']:
        bad('active %d %d' % (nact, r['active']))
    seen.sort()
    if any(seen[i][1] > seen[i + 1][0] for i in range(len(seen) - 1)):
        bad('overlap')
    h = slurp(path + '.cmhw')
    r['hw'] = struct.unpack('<I', h)[0] if h is not None and len(h) == 4 else 0
    if h is not None and len(h) != 4:
        bad('cmhw')
    r['lr'] = []
    if jlr:
        for i in range(len(jlr) // 16):
            r['lr'].append(list(struct.unpack_from('<4I', jlr, 16 * i)))
    return r


def project(r, norm):
    """messages as the specification has them"""
    res = []
    for i, h in enumerate(r['raw']):
        if h is None:
            res.append({'num': r['basenum'] + i, 'from': '', 'to': '', 'subj': '', 'date': '', 'attr': 0, 'cost': 0, 'oaddr': '', 'daddr': '', 'fl': [],
                        'text': '', 'del': True, 'rto': 0, 'r1': 0, 'rn': 0, 'gone': True, 'keep': ''})
            continue
        first = lambda k: next((d for l, d in h['subs'] if l == k), '')
        res.append({'num': h['num'], 'from': first(2), 'to': first(3), 'subj': first(6),
                    'date': norm(time.strftime('%d %b %y  %H:%M:%S', time.gmtime(h['written']))),
                    'attr': h['attr'] & 0x7fffffff, 'cost': h['cost'] & 0x7fffffff, 'oaddr': first(0), 'daddr': first(1),
                    'fl': [{'id': l, 'd': norm(d)} for l, d in h['subs'] if l not in (0, 1, 2, 3, 6)],
                    'text': norm(h['text'].split('\0')[0]), 'del': h['deleted'], 'rto': h['replyto'], 'r1': h['reply1st'], 'rn': h['replynext'], 'gone': False,
                    'keep': '%d,%d,%d,%d' % (h['timesread'], h['received'], h['pwcrc'], h['attr2'])})
    return res


def post(path, m, write):
    """add a message as an editor does; -> its number"""
    jhr, jdx, jdt = (slurp(path + e) for e in ('.jhr', '.jdx', '.jdt'))
    if jhr is None:
        jhr = bytearray(struct.pack('<4s5I', b'JAM\0', 1900000000, 0, 0, 0xffffffff, 1) + b'\0' * 1000)
        jdx = jdt = b''
        write(path + '.jlr', b'')
    jhr = bytearray(jhr)
    created, modc, active, pw, basenum = struct.unpack_from('<5I', jhr, 4)
    num = basenum + len(jdx) // 8
    subs = [(0, m['oaddr'])] if m['oaddr'] else []
    subs += [(1, m['daddr'])] if m['daddr'] else []
    subs += [(i, m[k]) for i, k in ((2, 'from'), (3, 'to'), (6, 'subj')) if m[k]]
    if m.get('last'):
        subs = [(f['id'], f['d']) for f in m['fl']] + subs
    else:
        subs += [(f['id'], f['d']) for f in m['fl']]
    sp = b''.join(struct.pack('<HHI', i, 0, len(d)) + d.encode(L1) for i, d in subs)
    first = lambda k: next((d for l, d in subs if l == k), None)
    c = lambda s: 0xffffffff if s is None else crc(s)
    tr, rc, pwc, a2 = (int(x) for x in m['keep'].split(','))
    written = calendar.timegm(time.strptime(m['date'], '%d %b %y  %H:%M:%S'))
    text = m['rawtext'].encode(L1)
    h = struct.pack(HDR, b'JAM\0', 1, 0, len(sp), tr, c(first(4)), c(first(5)), 0, 0, 0, written, rc, 0, num, m['attr'], a2, len(jdt), len(text), pwc, m['cost'])
    off = len(jhr)
    struct.pack_into('<5I', jhr, 4, created, modc + 1, active + 1, pw, basenum)
    write(path + '.jhr', bytes(jhr) + h + sp)
    write(path + '.jdx', jdx + struct.pack('<II', c(m['to']) if m['to'] else 0xffffffff, off))
    write(path + '.jdt', jdt + text)
    return num


def delete(path, num, gone, write):
    jhr, jdx = bytearray(slurp(path + '.jhr')), bytearray(slurp(path + '.jdx'))
    created, modc, active, pw, basenum = struct.unpack_from('<5I', jhr, 4)
    i = 8 * (num - basenum)
    off, = struct.unpack_from('<I', jdx, i + 4)
    a, = struct.unpack_from('<I', jhr, off + 52)
    struct.pack_into('<I', jhr, off + 52, a | 0x80000000)
    struct.pack_into('<5I', jhr, 4, created, modc + 1, active - 1, pw, basenum)
    write(path + '.jhr', bytes(jhr))
    if gone:
        struct.pack_into('<II', jdx, i, 0xffffffff, 0xffffffff)
        write(path + '.jdx', bytes(jdx))


def redate(path, dates, lr, write):
    jhr, jdx = slurp(path + '.jhr'), slurp(path + '.jdx')
    if jhr is None:
        return
    jhr = bytearray(jhr)
    for i in range(len(jdx) // 8):
        off, = struct.unpack_from('<I', jdx, 8 * i + 4)
        d = dates[i % len(dates)]
        if off != 0xffffffff and d is not None:
            struct.pack_into('<I', jhr, off + 44, d)
    write(path + '.jhr', bytes(jhr))
    write(path + '.jlr', lr)
