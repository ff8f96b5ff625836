"""C05: processes and analysis containers (specs/ProcTree*.tla)."""
import json
import SUAVE
import tlc, trace
from vcore import Check, guard, tier, SEED
from SUAVE.Core import Data
from SUAVE.Analyses import Process, Analysis, Vehicle as VehicleAnalyses
from treelib import proj as dproj, NIL

LOG = []


class Boom(Exception):
    pass


def family(fam):
    A = SUAVE.Analyses
    return dict(Sizing=A.Sizing.Sizing, Weights=A.Weights.Weights, Aerodynamics=A.Aerodynamics.Aerodynamics,
                Stability=A.Stability.Stability, Energy=A.Energy.Energy, Atmospheric=A.Atmospheric.Atmospheric,
                Planets=A.Planets.Planet, Noise=A.Noise.Noise, Costs=A.Costs.Costs).get(fam, Analysis)


class Bare(object):
    """An object offering just the phases given (no Analysis base class)."""


def member(n):
    """A real step: a function, a bare object or an Analysis of the family, recording its calls."""
    ident, caps = n['v'], n['caps']

    def fn(phase):
        def f(*args, **kw):
            LOG.append([ident, phase, fmt(args, kw)])
            if n['k'] == 'X':
                raise Boom(ident)
            if phase not in ('call', 'evaluate') or 'none' in caps: return None
            return 0 if 'zero' in caps else Data() if 'data' in caps else ident + ':' + fmt(args, kw)
        return f
    if caps[:1] == ['call']:
        o = fn('call')
    elif n['fam'] in ('none', 'bare'):
        o = Bare()
        for ph in caps:
            if ph not in ALL:
                continue
            setattr(o, ph, fn(ph))
        if 'call' in caps:
            class Callable(Bare):
                __call__ = staticmethod(fn('call'))
            o2 = Callable(); o2.__dict__.update(o.__dict__); o = o2
    else:
        base = family(n['fam'])
        ns = {ph: (lambda ph: lambda self, *a, **k: fn(ph)(*a, **k) if ph in caps else None)(ph)
              for ph in ('compile', 'initialize', 'evaluate', 'finalize')}
        o = type('Rec' + n['fam'], (base,), ns)()
    NODE[id(o)] = n
    KEEP.append(o)
    return o


NODE, KEEP = {}, []


def fmt(args, kw):
    return '|'.join([str(a) for a in args] + ['%s=%s' % kv for kv in sorted(kw.items())])


def build(n):
    if n['k'] == 'N':
        return None
    if n['k'] in 'MX':
        return member(n)
    o = dict(P=Process, C=Analysis.Container, V=VehicleAnalyses)[n['k']]()
    for k, v in n['kv']:
        o[k] = build(v)
    return o


def kv(o):
    return dict.items(o) if isinstance(o, dict) and isinstance(o, Data) else o.items()


def box(k, kvs):
    return dict(k=k, v='', kv=kvs, caps=[], fam='')


EMPTY = dict(k='N', v='', kv=[], caps=[], fam='')


def proj(o):
    if o is None:
        return EMPTY
    if id(o) in NODE:
        return NODE[id(o)]
    k = 'P' if isinstance(o, Process) else 'V' if isinstance(o, VehicleAnalyses) else 'C'
    return box(k, [[key, proj(v)] for key, v in kv(o)])


def at(o, p):
    for k in p:
        o = o[k]
    return o


def resproj(r):
    if isinstance(r, Data):
        return dict(k='D', v='', kv=[[k, resproj(v)] for k, v in dict.items(r)])
    return dict(k='L', v='' if r is None else str(r), kv=[])


def step(root, e):
    e = dict(e)
    del LOG[:]
    ok, res = True, NIL
    try:
        n = at(root, e['p'])
        if e['op'] == 'set':
            n[e['key']] = build(e['val'])
        elif e['op'] == 'del':
            if hash(e['key']) % 2:
                del n[e['key']]
            else:
                delattr(n, e['key'])
        elif e['op'] == 'append':
            o = build(e['val'])
            if isinstance(n, Process):
                o.tag = e['key']
                n.append(o)
            else:
                n.append(o)
        elif e['op'] == 'run':
            args = tuple(e['args']); kw = e['kw']
            call = getattr(n, e['phase'])
            if e['phase'] == 'evaluate' and e.get('via') == 'call':
                call = n
            r = call(*args, **kw)
            res = resproj(r) if e['phase'] == 'evaluate' else NIL
    except Exception as x:
        ok = False
    e.update(ok=ok, res=res, log=[list(x) for x in LOG], post=proj(root))
    return e


FAMS = ['Sizing', 'Weights', 'Aerodynamics', 'Stability', 'Energy', 'Atmospheric', 'Planets', 'Noise', 'Costs']
ALL = ['compile', 'initialize', 'evaluate', 'finalize']
ctr = [0]


def rmember(rng, inproc):
    m = rmember1(rng, inproc)
    if rng.random() < .25: m['caps'] = m['caps'] + [rng.choice(['none', 'zero', 'data'])]
    return m


def rmember1(rng, inproc):
    ctr[0] += 1
    i = 's%d' % ctr[0]
    r = rng.random()
    if r < .35 and inproc:
        return dict(k='X' if rng.random() < .06 else 'M', v=i, kv=[], caps=['call'], fam='none')
    if r < .6:
        caps = [p for p in ALL if rng.random() < .6 or p == 'evaluate'] + (['call'] if rng.random() < .3 else [])
        return dict(k='X' if rng.random() < .04 else 'M', v=i, kv=[], caps=caps, fam='bare')
    return dict(k='M', v=i, kv=[], caps=list(ALL), fam=rng.choice(FAMS))


NAMES = ['a', 'b', 'zz', 'k', 'first', 'last', 'm']


def rbox(rng, kind, depth):
    if kind == 'V':
        kvs = [[s, dict(EMPTY)] for s in ('sizing', 'weights', 'aerodynamics', 'stability', 'energy', 'atmosphere',
                                          'planet', 'noise', 'costs')]
        return box('V', kvs)
    kvs = [[k, rval(rng, kind, depth)] for k in rng.sample(NAMES, rng.randint(0, 3))]
    return box(kind, kvs)


def rval(rng, kind, depth):
    if depth and rng.random() < .4:
        return rbox(rng, 'P' if kind == 'P' or rng.random() < .2 else rng.choice('CV'), depth - 1)
    return rmember(rng, kind == 'P')


def boxes(o, pre=()):
    r = [list(pre)]
    for k, v in kv(o):
        if isinstance(v, (Process, Analysis.Container)):
            r += boxes(v, pre + (k,))
    return r


def history(rng, n):
    root = build(rbox(rng, rng.choice('PPC'), 2))
    h = [dict(op='reset', post=proj(root))]
    for _ in range(n):
        p = rng.choice(boxes(root)); node = at(root, p)
        isp, isv = isinstance(node, Process), isinstance(node, VehicleAnalyses)
        op = rng.choice(['set', 'set', 'append', 'run', 'run', 'run', 'del'])
        e = dict(op=op, p=p, key='', val=EMPTY, phase='', arg='', args=[], kw={})
        if op == 'run':
            e['phase'] = 'evaluate' if isp else rng.choice(ALL)
            e['args'] = [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]
            e['kw'] = {k: rng.randint(0, 9) for k in rng.sample(['u', 'w'], rng.randint(0, 2))}
            e['arg'] = fmt(e['args'], e['kw'])
            if rng.random() < .3:
                e['via'] = 'call'
        elif op == 'append':
            if isv:
                e['val'] = rmember(rng, False)
            elif isp:
                e['val'] = rmember(rng, True); e['key'] = rng.choice(NAMES)
            else:
                continue
        elif isv:
            continue
        elif op == 'set':
            e['key'] = rng.choice(NAMES); e['val'] = rval(rng, 'P' if isp else 'C', 1)
        else:
            ks = [k for k, _ in kv(node)]
            if not ks:
                continue
            e['key'] = rng.choice(ks)
        h.append(step(root, e))
    return h


CLASSES = [('Aerodynamics', 'Fidelity_Zero'), ('Aerodynamics', 'Supersonic_Zero'), ('Aerodynamics', 'AVL'), ('Aerodynamics', 'Vortex_Lattice'),
           ('Aerodynamics', 'AERODAS'), ('Atmospheric', 'US_Standard_1976'), ('Atmospheric', 'Constant_Temperature'),
           ('Planets', 'Planet'), ('Weights', 'Weights_Transport'), ('Weights', 'Weights_BWB'), ('Weights', 'Weights_UAV'),
           ('Weights', 'Weights_eVTOL'), ('Weights', 'Weights_General_Aviation'), ('Weights', 'Weights_Human_Powered'), ('Stability', 'Fidelity_Zero'), ('Stability', 'AVL'),
           ('Noise', 'Fidelity_One'), ('Energy', 'Energy'), ('Costs', 'Costs'), ('Costs', 'Industrial_Costs'), ('Sizing', 'Sizing'),
           ('Weights', 'Weights'), ('Aerodynamics', 'Aerodynamics'), ('Stability', 'Stability'), ('Noise', 'Noise'), ('Atmospheric', 'Atmospheric')]


def routing(rng):
    """Every analysis class the library offers, appended in random order."""
    h = []
    root = VehicleAnalyses()
    h.append(dict(op='reset', post=proj(root)))
    cl = [c for c in CLASSES if hasattr(getattr(SUAVE.Analyses, c[0]), c[1])]
    rng.shuffle(cl)
    for fam, name in cl + [('none', 'none')]:
        ctr[0] += 1
        o = getattr(getattr(SUAVE.Analyses, fam), name)() if fam != 'none' else Analysis()
        n = dict(k='M', v='s%d' % ctr[0], kv=[], caps=list(ALL), fam=fam)
        NODE[id(o)] = n; KEEP.append(o)
        ok = True
        try:
            root.append(o)
        except Exception:
            ok = False
        h.append(dict(op='append', p=[], key='', val=n, phase='', arg='', ok=ok, res=NIL, log=[], post=proj(root)))
    return h


def main():
    c = Check('C05')
    inv = ''.join('INVARIANT %s\n' % x for x in ('EachOnceInOrder', 'ResultKeys', 'Routed'))
    r = tlc.run('ProcTreeMC', 'SPECIFICATION Spec\nCONSTRAINT Bound\nVIEW View\n%sCHECK_DEADLOCK FALSE\n' % inv,
                consts=dict(D=tier(4, 5), Gen='FALSE'), workers=8)
    c.model('ProcTreeMC', r)
    gen = 'SPECIFICATION Spec\nCONSTRAINT GenBound\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n'
    r = tlc.run('ProcTreeMC', gen, consts=dict(D=3, Gen='TRUE'), workers=1)
    hists = r.json_lines('HIST')
    r = tlc.run('ProcTreeMC', gen, consts=dict(D=10, Gen='TRUE'), workers=1, simulate=tier(200, 2000), depth=11, seed=SEED)
    hists += r.json_lines('HIST')
    c.count('spec_behaviours_replayed', len(hists))
    for h in hists:
        root = build(box(h[0]['root'], []))
        for e in h:
            ev = step(root, dict(e, args=['1'], kw={}))
            bad = [k for k in ('ok', 'res', 'log', 'post') if ev[k] != e[k]]
            if bad:
                c.report('replay:%s:%s' % (e['op'], ','.join(bad)),
                         dict(kind='specification behaviour not reproduced', spec=e, real=ev))
                break
        c.traces += 1
        if len(KEEP) > 200000:
            NODE.clear(); del KEEP[:]
    NODE.clear(); del KEEP[:]
    hs = [history(c.rng, c.rng.randint(4, 20)) for _ in range(tier(400, 5000))] + [routing(c.rng) for _ in range(tier(3, 30))]
    c.sample([(e['op'], e.get('p'), e.get('phase'), e.get('log')) for e in hs[0]])
    trace.validate(c, 'ProcTreeTrace', hs)
    c.finish()


guard(main)
