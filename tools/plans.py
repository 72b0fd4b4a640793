"""What each check explores."""
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    'SHA-256, HMAC, AES and X25519 of the Go standard library, used by the harness to evaluate the terms of the specification',
    'TLC explores the given constants completely; outside them the behaviours are seeded random ones',
    'stores behave as documented and calls on one record are not concurrent',
]

SESSION_CFG = """SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxFuture = 5000
  MaxSkip = 2000
  MaxChains = 5
  MaxArch = 40
  LastResort = 16777215
  P = {"A", "B", "C"}
  Profiles <- TheProfiles
  First = %d
  Count = %d
  Seed = %d
  BaseDepth = %d
INVARIANTS InvBad InvDup InvBound InvAgree InvFresh Emit
CHECK_DEADLOCK FALSE
"""


def spec(name):
    return open(os.path.join(VERIF, 'spec', name)).read()


def sim(run, profiles, count, depth=44, cfg=None, first=1):
    """Random behaviours of SessionSys; the profiles are taken in turn."""
    text = '---- MODULE RunSession ----\nEXTENDS SimSession\nTheProfiles == <<%s>>\n====\n' % \
        ', '.join('"%s"' % p for p in profiles)
    out = run.tlc('sim-%d' % len(run.parts), 'RunSession', text, SESSION_CFG % (first, count, run.seed, depth))
    run.replay('session', ['-in', out] + (['-cfg', cfg] if cfg else []))
    os.remove(out)


def edges(run, one_in):
    """All calls in all states of the small system; one state in one_in is replayed."""
    out = run.tlc('edges', 'MCSession', None, spec('e1.cfg'))
    run.replay('mc', ['-in', out, '-onein', str(one_in)])
    os.remove(out)


def mc(run, cfg):
    """The properties of the design within small bounds."""
    os.remove(run.tlc('mc-' + cfg, 'MCSession', None, spec(cfg + '.cfg')))


def session_plan(profiles, n, design=None, onein=0, depth=44, big=3000):
    def f(run):
        if run.tier == 'quick':
            if design:
                mc(run, design)
            sim(run, profiles, n, depth)
            if onein:
                edges(run, onein)
        else:
            mc(run, design or 'mc1')
            sim(run, profiles, big, depth)
            sim(run, profiles, big // 6, 3 * depth, first=1000000)
            edges(run, 1)
    return f


GROUP_CFG = """SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxAhead = 2000
  MaxKept = 2000
  MaxIds = 2000
  P = {"A", "B", "C"}
  G = {"G", "H"}
  Profiles <- TheProfiles
  First = %d
  Count = %d
  Seed = %d
  BaseDepth = %d
INVARIANTS InvBad InvBound InvOwned InvErased Emit
CHECK_DEADLOCK FALSE
"""


def gsim(run, profiles, count, depth=44, cfg=None, first=1):
    """Random behaviours of GroupSys."""
    text = '---- MODULE RunGroup ----\nEXTENDS SimGroup\nTheProfiles == <<%s>>\n====\n' % \
        ', '.join('"%s"' % p for p in profiles)
    out = run.tlc('gsim-%d' % len(run.parts), 'RunGroup', text, GROUP_CFG % (first, count, run.seed, depth))
    run.replay('group', ['-in', out] + (['-cfg', cfg] if cfg else []))
    os.remove(out)


def gedges(run, one_in):
    """All calls in all states of a small group."""
    out = run.tlc('gedges', 'MCGroup', None, spec('ge1.cfg'))
    run.replay('groupmc', ['-in', out, '-onein', str(one_in)])
    os.remove(out)


def gmc(run, cfg):
    os.remove(run.tlc('gmc-' + cfg, 'MCGroup', None, spec(cfg + '.cfg')))


def group_plan(profiles, n, onein=0, depth=44, big=1500):
    def f(run):
        if run.tier == 'quick':
            gmc(run, 'g2')
            gsim(run, profiles, n, depth)
            if onein:
                gedges(run, onein)
        else:
            gmc(run, 'g1')
            gsim(run, profiles, big, depth)
            gsim(run, profiles, big // 6, 3 * depth, first=1000000)
            gedges(run, 1)
    return f


def small(run, mode, module, procs=None, onein=1, **consts):
    """A specification of inputs: all cases, each replayed (or one in so many)."""
    cfg = spec(mode + '.cfg')
    for k, v in consts.items():
        cfg, n = re.subn(r'\b%s = [^\n{]*(\{[^}]*\})?' % k, '%s = %s' % (k, v), cfg)
        assert n == 1
    out = run.tlc('%s-%d' % (mode, len(run.parts)), module, None, cfg)
    run.replay(mode, ['-in', out, '-onein', str(onein)], *([procs] if procs else []))
    os.remove(out)


def setof(xs):
    return '{' + ', '.join(map(str, xs)) + '}'


def deep(run):
    return run.tier == 'thorough'


def schedules(run):
    small(run, 'sched', 'Schedule', **(dict(MaxOps=5) if deep(run) else {}))


def both(plan, *more):
    def f(run):
        plan(run)
        for m in more:
            m(run)
    return f


def inputs(run):
    """What arrives or is loaded, with one deviation (two in the thorough runs)."""
    small(run, 'wire', 'Wire', **({} if deep(run) else dict(MaxDev=1)))


def and_inputs(plan):
    return both(plan, inputs)


def and_schedules(plan):
    return both(plan, schedules)


def c11(run):
    small(run, 'sign', 'Sign', **(dict(MaxSigned=3) if deep(run) else {}))
    sim(run, ['ident', 'otk', 'ident', 'mix'], 2000 if deep(run) else 120)
    gsim(run, ['gforge', 'gforge', 'gmix'], 1200 if deep(run) else 90)


def c15(run):
    session_plan(['mix', 'chat', 'limits', 'chains', 'mix', 'otk', 'arch', 'ident'], 260, None, 10)(run)
    small(run, 'kex', 'Kex', **(dict(MaxReload=2) if deep(run) else {}))
    small(run, 'values', 'Values')
    inputs(run)
    small(run, 'records', 'Records', MaxOps='2')
    gsim(run, ['gcrash', 'giso', 'gmix', 'grotate'], 1200 if deep(run) else 100)


def c18(run):
    small(run, 'wire', 'Wire', **(dict(MaxDev=3) if deep(run) else {}))
    small(run, 'prov', 'Prov')
    sim(run, ['forge', 'otk', 'ident', 'mix', 'arch', 'forge'], 2000 if deep(run) else 150)
    gsim(run, ['gforge', 'giso', 'gmix', 'glimits'], 1200 if deep(run) else 100)
    if deep(run):
        edges(run, 1)
        gedges(run, 1)


def c19(run):
    session_plan(['iso', 'mix', 'chat', 'iso', 'limits', 'otk'], 280, 'mc1')(run)
    gsim(run, ['gmix', 'giso', 'gcrash', 'gchat'], 1200 if deep(run) else 120)
    schedules(run)


def c27(run):
    small(run, 'kex', 'Kex', **(dict(MaxReload=2) if deep(run) else {}))


def c28(run):
    small(run, 'prov', 'Prov', **(dict(
        Lens='{' + ', '.join(str(i) for i in list(range(0, 50)) + [63, 64, 65, 255, 256, 1000, 65535, 65536]) + '}',
        BitLens='{0, 1, 15, 16, 17, 100}') if deep(run) else {}))


def c29(run):
    small(run, 'safety', 'Safety', Seed=run.seed, Count=60000 if deep(run) else 2000)


def c31(run):
    small(run, 'prim', 'Prim', **({
        'MaxText': '130', 'Blocks': '5', 'PadVals': setof(range(256)),
        'Outs': setof(list(range(131)) + [255, 256, 1000, 8159, 8160, 8161, 9000])} if deep(run) else {}))


def c17(run):
    small(run, 'addr', 'Address', 1, **({'MaxName': '5'} if deep(run) else {}))
    session_plan(['iso', 'ident', 'linked', 'mix', 'iso', 'forge', 'iso', 'linked'], 360, None, 10)(run)


def c30(run):
    small(run, 'keygen', 'Keygen', **({'SessLen': '5', 'MaxCuts': '2', 'PlainLen': '3', 'Sizes': '{0, 1, 7, 33}'} if deep(run) else {}))


def c32(run):
    """Conversations of all kinds at once, on a harness with the race detector."""
    big = deep(run)
    parts = {}
    n, depth = (1200, 60) if big else (200, 36)
    text = '---- MODULE RunSession ----\nEXTENDS SimSession\nTheProfiles == <<%s>>\n====\n' % ', '.join(
        '"%s"' % p for p in ['chat', 'mix', 'chains', 'otk', 'chat', 'ident', 'crash', 'forge'])
    parts['session'] = run.tlc('sim', 'RunSession', text, SESSION_CFG % (1, n, run.seed, depth))
    text = '---- MODULE RunGroup ----\nEXTENDS SimGroup\nTheProfiles == <<%s>>\n====\n' % ', '.join(
        '"%s"' % p for p in ['gchat', 'gmix', 'grotate', 'gforge', 'gcrash'])
    parts['group'] = run.tlc('gsim', 'RunGroup', text, GROUP_CFG % (1, n, run.seed, depth))
    for k in ['prov', 'safety', 'prim', 'kex']:
        parts[k] = run.tlc(k, k.capitalize(), None, spec(k + '.cfg'))
    cfg = spec('conc.cfg')
    if big:
        cfg = cfg.replace('N = 3', 'N = 4').replace('Calls = 2', 'Calls = 1')
    out = run.tlc('conc', 'Conc', None, cfg)
    args = ['-in', out, '-with', ','.join('%s=%s' % x for x in parts.items()), '-onein']
    run.build('yield')
    run.replay('conc', args + ['4' if big else '4'], 32)
    run.build('race')
    run.replay('conc', args + ['40' if big else '20'], 32)
    run.races('conc')


def full_records(run):
    small(run, 'records', 'Records', Inits='{"chains", "arch"}', MaxOps='2')


def full_grecords(run):
    small(run, 'grecords', 'GRecords', Inits='{"states", "keys"}', MaxOps='2')


def few_grecords(run):
    small(run, 'grecords', 'GRecords', MaxOps='2')


def c33(run):
    small(run, 'values', 'Values')
    small(run, 'records', 'Records')
    full_records(run)
    small(run, 'grecords', 'GRecords')
    full_grecords(run)
    if deep(run):
        small(run, 'records', 'Records', Inits='{"rich"}', MaxOps='4')
        small(run, 'records', 'Records', onein=6, Inits='{"chains", "arch"}')
        small(run, 'grecords', 'GRecords', MaxOps='4')


PLANS = {
    'C33': c33,
    'C32': c32,
    'C01': session_plan(['chat', 'limits', 'mix', 'chat', 'chains', 'iso', 'chat', 'crash', 'linked', 'arch'], 300, 'mc1'),
    'C02': session_plan(['replay', 'limits', 'replay', 'crash', 'replay', 'chains', 'otk', 'replay', 'arch', 'mix'], 300, None, 8),
    'C03': and_inputs(session_plan(['forge', 'ident', 'forge', 'forge', 'mix', 'linked', 'iso', 'replay'], 320, None, 8)),
    'C04': and_inputs(session_plan(['forge', 'mix', 'limits', 'forge', 'replay', 'forge', 'otk', 'ident', 'forge', 'chains'], 300, None, 8)),
    'C05': and_schedules(session_plan(['chat', 'chains', 'mix', 'otk', 'linked', 'arch', 'limits', 'ident'], 320, 'mc1')),
    'C06': session_plan(['chat', 'crash', 'chains', 'mix', 'chat', 'forge', 'limits', 'otk'], 320, 'mc1'),
    'C07': session_plan(['chat', 'chains', 'replay', 'mix', 'limits', 'arch', 'crash', 'chat'], 320, 'mc1'),
    'C08': session_plan(['chains', 'chat', 'chains', 'mix', 'forge', 'iso', 'arch', 'otk'], 320, 'mc1'),
    'C09': both(session_plan(['limits', 'turns', 'limits', 'arch', 'turns', 'limits', 'chains', 'limits'], 176, 'mc1'), full_records),
    'C10': session_plan(['otk', 'forge', 'otk', 'crash', 'replay', 'otk', 'mix', 'ident'], 320, None, 8),
    'C12': session_plan(['ident', 'mix', 'ident', 'forge', 'ident', 'otk', 'linked', 'iso'], 320, None, 8),
    'C13': session_plan(['otk', 'chat', 'mix', 'replay', 'otk', 'crash', 'iso', 'chat'], 320, 'mc1'),
    'C14': session_plan(['arch', 'mix', 'arch', 'ident', 'arch', 'otk', 'replay', 'linked'], 160, 'mc1'),
    'C15': c15,
    'C16': session_plan(['crash', 'crash', 'otk', 'crash', 'mix', 'crash'], 400, None, 6),
    'C17': c17,
    'C30': c30,
    'C20': group_plan(['gchat', 'gmix', 'glimits', 'gchat', 'grotate', 'giso', 'gchat', 'gcrash'], 240),
    'C21': group_plan(['greplay', 'grotate', 'greplay', 'gcrash', 'greplay', 'glimits', 'greplay', 'gmix'], 200, 5),
    'C22': and_inputs(group_plan(['gforge', 'gmix', 'gforge', 'giso', 'gforge', 'gforge', 'grotate', 'gforge'], 240, 5)),
    'C23': and_schedules(group_plan(['gchat', 'gmix', 'grotate', 'greplay', 'gcrash', 'gchat', 'glimits', 'gchat'], 240)),
    'C24': group_plan(['grotate', 'gmix', 'grotate', 'gids', 'grotate', 'grotate', 'greplay', 'grotate'], 200, 6),
    'C25': both(group_plan(['glimits', 'gids', 'glimits', 'glimits'], 64), full_grecords),
    'C26': both(group_plan(['gcrash', 'gforge', 'giso', 'gmix', 'gcrash', 'greplay', 'giso', 'glimits'], 220, 5), few_grecords, inputs),
    'C19': c19,
    'C11': c11,
    'C18': c18,
    'C27': c27,
    'C28': c28,
    'C29': c29,
    'C31': c31,
}

DEFAULT_NOTE = (
    'TLA+ specification checked with TLC; its behaviours replayed on the library',
    'The design is checked exhaustively within small bounds and on random behaviours with the real limits; every call of the '
    'explored behaviours is replayed on the library, and results, messages, stored keys and store writes are compared with '
    'the specification. Behaviours outside the explored ones are not covered; the crypto primitives are trusted.')
NOTES = {}
NOT_APPLICABLE = {}
