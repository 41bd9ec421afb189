"""Configuration: defaults of the abstract records and the prefs text they stand for."""
import zlib

CFGFLAGS = ['CHECKSEENBY', 'CHECKPKTDEST', 'STRIPRE', 'FORCEINTL', 'NOROUTE', 'PATH3D', 'IMPORTSEENBY',
            'IMPORTEMPTYNETMAIL', 'BOUNCEPOINTS', 'ANSWERRECEIPT', 'ANSWERAUDIT', 'NODIRECTATTACH', 'IMPORTAREAFIX',
            'AREAFIXREMOVE', 'WEEKDAYNAMING', 'ADDTID', 'ALLOWRESCAN', 'FORWARDPASSTHRU', 'BOUNCEHEADERONLY',
            'REMOVEWHENFEED', 'INCLUDEFORWARD', 'ALLOWKILLSENT', 'FLOWCRLF', 'NOEXPORTNETMAIL',
            'MSG_HIGHWATER', 'MSG_WRITEBACK', 'JAM_HIGHWATER', 'JAM_LINK', 'JAM_QUICKLINK']
NODEFLAGS = ['AUTOADD', 'PASSIVE', 'TINYSEENBY', 'NOSEENBY', 'FORWARDREQ', 'NOTIFY', 'PACKNETMAIL', 'SENDAREAFIX',
             'SENDTEXT', 'NONETMAILPASSWORD']
AREAFLAGS = ['UNCONFIRMED', 'MANDATORY', 'DEFREADONLY', 'IGNOREDUPES', 'IGNORESEENBY']
NULL4 = [0, 0, 0, 0]


def s4(a):
    return '%d:%d/%d.%d' % tuple(a)


def s4s(a):
    return '%d:%d/%d' % tuple(a[:3]) + ('.%d' % a[3] if a[3] else '')


def aka(a, domain='', add=(), rem=()):
    return {'a': list(a), 'domain': domain, 'add': [list(x) for x in add], 'rem': list(rem)}


def node(a, pw='', packer='', **kw):
    d = {'a': list(a), 'pw': pw, 'packer': packer, 'afpw': '', 'groups': '', 'rogroups': '', 'addgroups': '',
         'defgroup': '', 'sysop': '', 'pri': 'NORMAL', 'pktfrom': NULL4, 'rafname': '', 'rafpw': '',
         'f': {k: False for k in NODEFLAGS + ['AFNEEDSPLUS']}}
    for k in kw.pop('flags', ()):
        d['f'][k] = True
    d.update(kw)
    return d


def area(tag, type='ECHOMAIL', aka=1, base='MSG', path=None, **kw):
    d = {'tag': tag, 'desc': '', 'type': type, 'aka': aka, 'base': base, 'group': '',
         'path': ('a/' + ''.join(c if c.isalnum() else '_' for c in tag.lower()) if path is None else path) if base else '',
         'f': {k: False for k in AREAFLAGS}, 'nodes': [], 'imports': [], 'banned': [], 'keepnum': 0, 'keepdays': 0}
    for k in kw.pop('flags', ()):
        d['f'][k] = True
    d.update(kw)
    return d


def link(i, ro=False, wo=False, feed=False):
    return {'i': i, 'ro': ro, 'wo': wo, 'feed': feed}


def config(**kw):
    d = {'f': {k: False for k in CFGFLAGS}, 'sysop': 'Test Sysop', 'dupemode': 'BAD', 'dupesize': 200,
         'loopmode': 'IGNORE', 'maxpkt': 0, 'maxbundle': 0, 'defzone': 1, 'afmaxlines': 0, 'akas': [], 'nodes': [], 'areas': [],
         'routes': [], 'changes': [], 'bounce': [], 'fattach': [], 'afnames': ['areafix'], 'arealists': [],
         'filters': [], 'groups': [], 'afhelp': '', 'helplines': [], 'jammaxopen': 0}
    for k in kw.pop('flags', ()):
        d['f'][k] = True
    d.update(kw)
    return d


def route(pat, dest, aka=1):
    return {'pat': pat, 'dest': dest, 'aka': aka}


def change(types, pat, pri):
    return {'types': types, 'pat': pat, 'pri': pri}


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def filter_lines(f):
    L = ['FILTER ' + f['expr']]
    for c in f['cmds']:
        l = c['cmd']
        if c['cmd'] in ('REMAPMSG', 'MASQUERADE'):
            l += ' ' + q(c['arg']) + ' ' + q(c['pat'])
        elif c['cmd'] not in ('KILL', 'TWIT'):
            l += ' ' + q(c['arg'])
        L.append(l)
    return L


def prefs(c, nodelist=''):
    """the prefs file of an abstract configuration, as a list of lines"""
    L = ['SYSOP ' + q(c['sysop']), 'LOGFILE "crashmail.log"', 'LOGLEVEL 6', 'DUPEFILE "dupes" %d' % c['dupesize'],
         'DUPEMODE ' + c['dupemode'], 'LOOPMODE ' + {'LOGBAD': 'LOG+BAD'}.get(c['loopmode'], c['loopmode']),
         'DEFAULTZONE %d' % c['defzone'], 'INBOUND "in"', 'OUTBOUND "bso/out"', 'TEMPDIR "tmp"',
         'CREATEPKTDIR "new"', 'PACKETDIR "pk"', 'STATSFILE "stats"']
    if nodelist:
        L.append('NODELIST nl ' + nodelist)
    if c['maxpkt']:
        L.append('MAXPKTSIZE %d' % c['maxpkt'])
    if c['maxbundle']:
        L.append('MAXBUNDLESIZE %d' % c['maxbundle'])
    if c['afmaxlines']:
        L.append('AREAFIXMAXLINES %d' % c['afmaxlines'])
    if c['jammaxopen']:
        L.append('JAM_MAXOPEN %d' % c['jammaxopen'])
    L.append('PACKER "ZIP" "zip -q -j %a %f" "unzip -qq -j -o %a" "PK"')
    L.append('PACKER "STO" "zip -q -0 -j %a %f" "unzip -qq -j -o %a" "QQ"')
    for g in c['groups']:
        L.append('GROUPNAME %s %s' % (g[0], q(g[1])))
    for n in c['afnames']:
        L.append('AREAFIXNAME ' + q(n))
    if c['afhelp']:
        L.append('AREAFIXHELP ' + q(c['afhelp']))
    for k in CFGFLAGS:
        if c['f'][k]:
            L.append(k)
    L.append('')
    for a in c['akas']:
        L.append('AKA ' + s4s(a['a']))
        if a['domain']:
            L.append('DOMAIN ' + q(a['domain']))
        if a['add']:
            L.append('ADDNODE ' + ' '.join('%d/%d' % tuple(x) for x in a['add']))
        if a['rem']:
            L.append('REMNODE ' + ' '.join(a['rem']))
        L.append('')
    for n in c['nodes']:
        fl = ' '.join(k for k in NODEFLAGS if n['f'][k])
        if n['pri'] != 'NORMAL':
            fl += ' ' + n['pri']
        L.append(('NODE %s %s %s %s' % (s4s(n['a']), q(n['packer']), q(n['pw']), fl)).rstrip())
        if n['sysop']:
            L.append('REMOTESYSOP ' + q(n['sysop']))
        if n['pktfrom'] != NULL4:
            L.append('PKTFROM ' + s4s(n['pktfrom']))
        if n['defgroup']:
            L.append('DEFAULTGROUP ' + n['defgroup'])
        if n['afpw'] or n['groups'] or n['rogroups'] or n['addgroups']:
            L.append('AREAFIXINFO %s %s %s %s' % tuple(q(n[k]) for k in ('afpw', 'groups', 'rogroups', 'addgroups')))
        if n['rafname']:
            L.append('REMOTEAF %s %s%s' % (q(n['rafname']), q(n['rafpw']), ' NEEDSPLUS' if n['f']['AFNEEDSPLUS'] else ''))
        L.append('')
    for r in c['routes']:
        L.append('ROUTE %s %s %s' % (q(r['pat']), q(r['dest']), s4s(c['akas'][r['aka'] - 1]['a'])))
    for r in c['changes']:
        L.append('CHANGE %s %s %s' % (','.join(r['types']) if len(r['types']) < 4 else '*', q(r['pat']), r['pri']))
    if c['bounce']:
        L.append('BOUNCE ' + ' '.join(q(x) for x in c['bounce']))
    if c['fattach']:
        L.append('FILEATTACH ' + ' '.join(q(x) for x in c['fattach']))
    for i, l in enumerate(c['arealists']):
        L.append('AREALIST %s %s%s%s%s' % (s4s(c['nodes'][l['node'] - 1]['a']), q('al%d.txt' % (i + 1)),
                                          ' FORWARD' if l['FORWARD'] else '', ' DESC' if l['DESC'] else '',
                                          ' GROUP ' + l['group'] if l['group'] else ''))
    for f in c['filters']:
        L += filter_lines(f)
    L.append('')
    for a in c['areas']:
        L += area_lines(c, a)
        L.append('')
    return L


def area_lines(c, a):
    kw = {'NETMAIL': 'NETMAIL', 'LOCAL': 'LOCALAREA'}.get(a['type'], 'AREA')
    L = ['%s %s %s' % (kw, q(a['tag']), s4s(c['akas'][a['aka'] - 1]['a'])) +
         (' %s %s' % (a['base'], q(a['path'])) if a['base'] else '')]
    for k in AREAFLAGS:
        if a['f'][k]:
            L.append(k)
    def lk(l, prev):
        x = c['nodes'][l['i'] - 1]['a']
        n = s4(x)
        # some areas have their links in the short forms: what is left out is that of the one before
        if prev and zlib.crc32(a['tag'].encode('latin-1')) % 3 == 1:
            p = c['nodes'][prev['i'] - 1]['a']
            pt = '.%d' % x[3] if x[3] else ''
            if x[:3] == p[:3] and pt:
                n = pt
            elif x[:2] == p[:2]:
                n = '%d%s' % (x[2], pt)
            elif x[0] == p[0]:
                n = '%d/%d%s' % (x[1], x[2], pt)
        return ('!' if l['ro'] else '@' if l['wo'] else '%' if l['feed'] else '') + n
    for i in range(0, len(a['nodes']), 12):
        ls = a['nodes'][i:i + 12]
        L.append('EXPORT ' + ' '.join(lk(l, ls[j - 1] if j else None) for j, l in enumerate(ls)))
    if a['imports']:
        L.append('IMPORT ' + ' '.join(s4s(x) for x in a['imports']))
    for i in a['banned']:
        L.append('BANNED ' + s4s(c['nodes'][i - 1]['a']))
    if a['desc']:
        L.append('DESCRIPTION ' + q(a['desc']))
    if a['group']:
        L.append('GROUP ' + a['group'])
    if a['keepnum']:
        L.append('KEEPNUM %d' % a['keepnum'])
    if a['keepdays']:
        L.append('KEEPDAYS %d' % a['keepdays'])
    return L
