"""FidoNet file formats: packets, *.MSG files (concretisation and projection only)."""
import struct, re

L1 = 'latin-1'


def w(n):
    return struct.pack('<H', n & 0xffff)


def pkt_header(orig, dest, pw='', **kw):
    """58-byte type-2+ header; kw overrides raw words by offset name."""
    h = bytearray(58)

    def put(off, n):
        h[off:off + 2] = w(n)
    put(0, orig[2]); put(2, dest[2])
    put(4, 2001); put(6, 2); put(8, 3); put(10, 4); put(12, 5); put(14, 6)
    put(16, 0); put(18, 2)
    put(20, orig[1]); put(22, dest[1])
    h[24] = 0xfe; h[25] = 1
    h[26:34] = pw.encode(L1)[:8].ljust(8, b'\0')
    put(34, orig[0]); put(36, dest[0])
    put(38, 0); put(40, 0x0100); put(44, 1)
    put(46, orig[0]); put(48, dest[0]); put(50, orig[3]); put(52, dest[3])
    for off, n in kw.get('words', {}).items():
        put(int(off), n)
    return bytes(h)


def msg_bytes(m):
    b = w(2) + w(m['o2'][1]) + w(m['d2'][1]) + w(m['o2'][0]) + w(m['d2'][0]) + w(m['attr']) + w(m['cost'])
    for s in (m['date'], m['to'], m['from'], m['subj']):
        b += s.encode(L1) + b'\0'
    return b + ''.join(m['lines']).encode(L1) + b'\0'


def pkt_bytes(p):
    return bytes(p['hdr']) + b''.join(msg_bytes(m) for m in p['msgs']) + b'\0\0'


def split_lines(s):
    """split after each CR or LF (latin-1 str)"""
    return re.findall(r'[^\r\n]*[\r\n]|[^\r\n]+', s)


def parse_pkt(data):
    """-> dict(orig, hdest, pw, msgs, wf)   wf: complete and properly terminated"""
    r = {'orig': [0, 0, 0, 0], 'hdest': [0, 0, 0, 0], 'pw': '', 'msgs': [], 'wf': True, 'size': len(data)}
    if len(data) < 60:
        r['wf'] = False
        return r
    g = lambda o: data[o] + 256 * data[o + 1]
    r['orig'] = [g(46), g(20), g(0), g(50)]
    r['hdest'] = [g(48), g(22), g(2), g(52)]
    r['pw'] = data[26:34].split(b'\0')[0].decode(L1)
    # all the redundant header fields have to agree
    if g(18) != 2 or g(34) != g(46) or g(36) != g(48) or g(16) != 0 or \
       not (data[40] == data[45] and data[41] == data[44] and g(44) == 1):
        r['wf'] = False
    pos = 58
    while True:
        if pos + 2 > len(data):
            r['wf'] = False
            break
        t = g(pos)
        if t == 0:
            if pos + 2 != len(data):
                r['wf'] = False
            break
        if t != 2 or pos + 14 > len(data):
            r['wf'] = False
            break
        m = {'o2': [g(pos + 6), g(pos + 2)], 'd2': [g(pos + 8), g(pos + 4)], 'attr': g(pos + 10), 'cost': g(pos + 12)}
        pos += 14
        ok = True
        for f, mx in (('date', 20), ('to', 36), ('from', 36), ('subj', 72), ('text', None)):
            e = data.find(b'\0', pos)
            if e < 0 or (mx and e - pos >= mx):
                ok = False
                break
            m[f] = data[pos:e].decode(L1)
            pos = e + 1
        if not ok:
            r['wf'] = False
            break
        r['msgs'].append(m)
    return r


MSGFMT = '<36s36s72s20s13H'
MSGFIELDS = ['timesread', 'destnode', 'orignode', 'cost', 'orignet', 'destnet', 'destzone', 'origzone',
             'destpoint', 'origpoint', 'replyto', 'attr', 'nextreply']


def cstr(b):
    return b.split(b'\0')[0].decode(L1)


def read_msg(data):
    n = struct.calcsize(MSGFMT)
    if len(data) < n:
        return None
    v = struct.unpack(MSGFMT, data[:n])
    d = dict(zip(MSGFIELDS, v[4:]))
    text = data[n:]
    term = text.endswith(b'\0') and text.count(b'\0') == 1
    return {'from': cstr(v[0]), 'to': cstr(v[1]), 'subj': cstr(v[2]), 'date': cstr(v[3]),
            'attr': d['attr'], 'cost': d['cost'], 'rto': d['replyto'], 'nextreply': d['nextreply'], 'timesread': d['timesread'],
            'orig': [d['origzone'], d['orignet'], d['orignode'], d['origpoint']],
            'dest': [d['destzone'], d['destnet'], d['destnode'], d['destpoint']],
            'text': text.split(b'\0')[0].decode(L1), 'term': term}


def write_msg(m):
    o, d = m.get('orig', [0, 0, 0, 0]), m.get('dest', [0, 0, 0, 0])
    return struct.pack(MSGFMT, m['from'].encode(L1), m['to'].encode(L1), m['subj'].encode(L1), m['date'].encode(L1),
                       m.get('timesread', 0), d[2], o[2], m.get('cost', 0), o[1], d[1], d[0], o[0], d[3], o[3],
                       m.get('rto', 0), m['attr'], m.get('nextreply', 0)) + m['text'].encode(L1) + b'\0'
