"""Which parts (scenario families, models) decide which property, and the facets it owns."""
from . import fault, gen, local, lock, outq, site

THOROUGH_LIMIT = 700      # no new batch of scenarios after this many seconds
MC_TIMEOUT = 700
TECHNIQUE = 'TLA+ specification checked with TLC; executions of the real programs validated against it as traces'
NOTE = ('Every recorded execution of the real programs (generated configurations, mail and histories) is checked by TLC to be a behaviour '
        'of the specification in the facets this property owns; bounded by the number and size of the generated scenarios. '
        'Trusts the projection of files to JSON and TLC.')
NA = {}
ASSUME = ['the projection of files to JSON (cm/*.py) reads the formats correctly',
          'TLC and the CommunityModules operators are correct']


def make(fn, seed, i, args):
    mod = {'site': site, 'local': local, 'outq': outq}.get(fn.split('_')[0], gen)
    return getattr(mod, fn)(gen.Gen(seed), i, **args)


def T(name, gen, nq, nt, facets, **kw):
    d = {'kind': 'trace', 'name': name, 'gen': gen, 'n': (nq, nt), 'facets': facets.split()}
    d.update(kw)
    return d


def MC(module, **kw):
    d = {'kind': 'mc', 'module': module}
    d.update(kw)
    return d


def SITE(nq, facets):
    """every history of two (thorough: three) events of the worlds of MC_Site, and longer ones"""
    return T('site', 'site_scenario', nq, 4000, facets, fixed=site.fixed)


def LOCAL(nq, facets):
    """the same for the worlds of MC_Local"""
    return T('local', 'local_scenario', nq, 4000, facets, fixed=local.fixed)


def OUTQ(nq, facets):
    """the same for the worlds of MC_Out"""
    return T('outq', 'outq_scenario', nq, 4000, facets, fixed=outq.fixed)


MCSITE = MC('MC_Site', cfg=('MC_Site.cfg', 'MC_SiteDeep.cfg'), data=site.model_data)
MCLOCAL = MC('MC_Local', cfg=('MC_Local.cfg', 'MC_LocalDeep.cfg'), data=local.model_data)
MCOUT = MC('MC_Out', cfg=('MC_Out.cfg', 'MC_OutDeep.cfg'), data=outq.model_data)
CONTENT = 'e.head e.body n.head n.body b.head b.body nb.head nb.body bad.head bad.body'
RES = 'e.rcpt e.head e.body e.sb e.path e.order b.ids b.head b.body b.sb b.path b.keep hw dupe p.echo'
JAM = 'wf links b.ids b.head b.body b.sb b.path b.keep nb.ids nb.head nb.body nb.keep bad.ids bad.head bad.body bad.sb bad.path bad.keep'
PROPS = {
    'C16': {'technique': 'TLA+ models of the lock checked exhaustively with TLC (refinement, liveness); schedules of TLC and others replayed with real instances, the recorded events validated by TLC',
            'note': 'The lock algorithm is checked exhaustively for up to 4 instances; real instances are stopped before every file operation and driven through schedules (behaviours of the model, an interruption, failure, kill or second instance at sampled operations, random ones), and TLC decides whether the recorded events are a behaviour of CMLock. Bounded by the schedules driven; operations that are not file operations through libc calls are not scheduling points.',
            'parts': [MC('MC_Lock'), MC('MC_Lock', cfg='MC_LockKill.cfg'), 
                      {'kind': 'lock', 'name': 'lock', 'n': (700, 20000), 'fn': lambda ctx, p: lock.part(ctx, p), 'replay': lambda ctx, s: lock.replay(ctx, s)}]},
    'C01': {'parts': [MCSITE, T('raw', 'raw_scenario', 800, 20000, 'inb e.rcpt n.rcpt b.ids nb.ids bad.ids')]},
    'C02': {'parts': [MCSITE, SITE(60, 'e.rcpt b.ids'), T('echo', 'echo_scenario', 600, 20000, 'e.rcpt b.ids'), T('scan', 'scan_scenario', 120, 5000, 'e.rcpt b.ids')]},
    'C03': {'parts': [MCSITE, T('echo', 'echo_scenario', 600, 20000, 'e.sb e.path e.order b.sb b.path'), T('scan', 'scan_scenario', 120, 5000, 'e.sb e.path e.order b.sb b.path')]},
    'C04': {'parts': [MCSITE, SITE(60, 'dupe e.rcpt b.ids bad.ids'), T('echo', 'echo_scenario', 600, 20000, 'dupe e.rcpt b.ids bad.ids'), T('scan', 'scan_scenario', 120, 5000, 'dupe e.rcpt b.ids bad.ids')]},
    'C05': {'parts': [MCSITE, SITE(60, 'e.rcpt b.ids bad.ids'), T('echo', 'echo_scenario', 700, 20000, 'e.rcpt b.ids bad.ids bad.head bad.body bad.sb bad.path')]},
    'C07': {'parts': [T('net', 'netmail_scenario', 900, 20000, 'n.rcpt n.head n.body nb.ids nb.head nb.body bad.ids bad.head bad.body'), T('scan', 'scan_scenario', 120, 5000, 'n.rcpt n.head n.body nb.ids nb.head nb.body bad.ids bad.head bad.body'), T('af', 'af_scenario', 80, 4000, 'n.rcpt n.head n.body nb.ids nb.head nb.body bad.ids bad.head bad.body')]},
    'C08': {'parts': [T('net', 'netmail_scenario', 900, 20000, 'n.rcpt n.head n.body p.net flow bad.ids bad.body inb'), T('scan', 'scan_scenario', 120, 5000, 'n.rcpt n.head n.body p.net flow bad.ids bad.body')]},
    'C09': {'parts': [T('net', 'netmail_scenario', 900, 20000, 'n.rcpt n.head n.body nb.ids nb.head nb.body bad.ids'), T('scan', 'scan_scenario', 120, 5000, 'n.rcpt n.head n.body nb.ids nb.head nb.body bad.ids')]},
    'C06': {'parts': [T('echo', 'echo_scenario', 300, 10000, CONTENT), T('net', 'netmail_scenario', 300, 10000, CONTENT), T('af', 'af_scenario', 80, 5000, CONTENT), T('scan', 'scan_scenario', 200, 5000, CONTENT)]},
    'C10': {'parts': [MCSITE, T('af', 'af_scenario', 550, 10000, 'cfg.areas cfg.nodes n.rcpt n.head n.body e.rcpt nb.ids nb.body')]},
    'C11': {'parts': [T('af', 'af_scenario', 550, 10000, 'cfg.areas cfg.nodes cfg.text n.rcpt n.body e.rcpt nb.ids nb.body arc')]},
    'C12': {'parts': [MCOUT, OUTQ(60, 'where place flowform arc left flow e.rcpt n.rcpt p.form'), T('out', 'out_scenario', 500, 10000, 'where place flowform arc left flow e.rcpt n.rcpt p.form')]},
    'C13': {'level': 'fault_enumeration',
            'technique': 'TLA+ specification of the undisturbed run checked with TLC; every fault point is driven with the real program and TLC decides whether faulted and clean run together have the effect of one undisturbed run',
            'note': 'Sampled (quick) or all (thorough, per history) file operations of the last run of generated histories are killed at, made to fail or interrupted; TLC compares the state after the fault and after a clean run with the specification. Bounded by the histories; a kill is one between two libc calls, with unflushed buffers lost; data once written counts as on disk.',
            'parts': [{'kind': 'fault', 'name': 'fault', 'n': ((150, 16), (5000, None)), 'fn': lambda ctx, p: fault.part(ctx, p), 'replay': lambda ctx, s: fault.replay(ctx, s)}]},
    'C14': {'parts': [MCLOCAL, LOCAL(60, 'e.rcpt b.ids hw dupe'), T('scan', 'scan_scenario', 600, 10000, 'e.rcpt e.head e.body e.sb e.path n.rcpt n.head n.body b.ids b.head b.body nb.ids nb.head nb.body hw flow dupe')]},
    'C21': {'parts': [T('thread', 'thread_scenario', 400, 10000, JAM), T('scan', 'scan_scenario', 150, 5000, JAM)]},
    'C15': {'parts': [MCLOCAL, T('scan', 'scan_scenario', 120, 4000, RES), T('rescan', 'rescan_scenario', 250, 8000, RES), T('af', 'af_scenario', 350, 10000, RES)]},
    'C17': {'parts': [T('pat', 'pat_scenario', 500, 10000, 'n.rcpt n.head nb.ids bad.ids flow p.hdest p.net where'), T('filter', 'filter_scenario', 80, 4000, 'log n.rcpt nb.ids bad.ids b.ids')]},
    'C19': {'parts': [T('filter', 'filter_scenario', 500, 10000, 'log n.rcpt n.head n.body b.ids b.head b.body nb.ids nb.head nb.body bad.ids bad.head bad.body e.rcpt e.head e.body e.sb e.path b.sb b.path')]},
    'C18': {'parts': [T('nl', 'nl_scenario', 800, 20000, 'nl.found nl.where nl.line', module='CMNlTrace'), T('filter', 'filter_scenario', 60, 3000, 'log n.rcpt nb.ids bad.ids')]},
    'C20': {'parts': [MCLOCAL, LOCAL(60, JAM + ' hw carried e.rcpt'), T('maint', 'maint_scenario', 400, 10000, JAM + ' hw carried e.rcpt n.rcpt')]},
    'C22': {'parts': [MCOUT, OUTQ(60, 'stats.a stats.n'), T('out', 'out_scenario', 500, 10000, 'stats.a stats.n stats.r'), T('scan', 'scan_scenario', 120, 5000, 'stats.a stats.n')]},
    'C23': {'parts': [T('af', 'af_scenario', 400, 10000, 'cfg.areas cfg.nodes cfg.bak cfg.text'), T('echo', 'echo_scenario', 80, 5000, 'cfg.areas cfg.nodes cfg.bak cfg.text')]},
    'C24': {'parts': [T('write', 'write_scenario', 600, 20000, 'w.new w.pkt inb e.rcpt e.head e.body n.rcpt n.head n.body b.ids b.head b.body nb.ids nb.head nb.body bad.ids bad.head bad.body flow')]},
    'C25': {'parts': [MCSITE, MCOUT, T('out', 'out_scenario', 500, 10000, 'p.echo p.net p.form p.hdest e.rcpt n.rcpt')]},
    'C26': {'parts': [T('aa', 'aa_scenario', 450, 20000, 'cfg.areas cfg.nodes cfg.bak cfg.text b.ids bad.ids e.rcpt'),
                      T('echo', 'echo_scenario', 120, 10000, 'cfg.areas cfg.nodes cfg.bak cfg.text b.ids bad.ids e.rcpt')]},
    'C27': {'parts': [T('fwd', 'fwd_scenario', 250, 10000, 'cfg.areas n.rcpt n.head n.body b.ids e.rcpt left'), T('af', 'af_scenario', 350, 10000, 'cfg.areas n.rcpt n.head n.body b.ids e.rcpt left')]},
    'C28': {'parts': [T('exp', 'exp_scenario', 500, 10000, 'exp')]},
    'C29': {'parts': [T('lo', 'lo_scenario', 1500, 30000, 'lo.rows lo.total lo.order lo.kept', module='CMListTrace')]},
}
