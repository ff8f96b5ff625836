"""C08: optimizers - swarm, solver set-up, trust regions (specs/Swarm*, Solve*, TrustRegion*.tla)."""
import contextlib, io, itertools, sys
import numpy as np
import scipy.optimize as so
import tlc, trace
from vcore import Check, guard, tier, SEED, Scratch
import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Analyses import Process
from SUAVE.Optimization.Nexus import Nexus
from SUAVE.Optimization.Package_Setups import scipy_setup
from SUAVE.Optimization.Package_Setups.particle_swarm_optimization import particle_swarm_optimization
import SUAVE.Optimization.Package_Setups.TRMM.Trust_Region_Optimization as tro
from SUAVE.Optimization.Package_Setups.TRMM.Trust_Region import Trust_Region
import SUAVE.Optimization.Package_Setups.TRMM.TRMM_setup as trs


def num(x):
    x = float(np.asarray(x).reshape(-1)[0])
    return int(round(x)) if abs(x - round(x)) < 1e-6 * max(1, abs(x)) else 199999999


def quad(q, v):
    return q['c'] + sum(a * x * x + b * x for a, b, x in zip(q['a'], q['b'], v))


# ---------------------------------------------------------------- swarm
def swarm(rng):
    d = rng.choice([1, 2])
    lb = [float(rng.randrange(-5, 0)) for _ in range(d)]
    ub = [float(rng.randrange(1, 6)) for _ in range(d)]
    S, maxit = rng.randrange(1, 7), rng.randrange(0, 9)
    minfunc, minstep = rng.choice([0, 0, 1, 3]), rng.choice([1e-9, .05, .5])
    co = [rng.randrange(-4, 5) for _ in range(4)]
    cut = [rng.choice([-9, -2, 0, 2, 3, 9]) for _ in range(2)]
    kind = rng.choice(['f', 'list', 'none', 'vector'])
    pts = []

    def f(x):
        x = np.array(x, dtype=float)
        k = len(pts)
        fx = int(np.floor(20 * co[0] * x[0] + 7 * np.sum(x * x) + co[1] * np.sin(3 * x[-1]) * 10))
        pts.append((x.copy(), fx))
        return float(fx)

    con = [lambda x: x[0] - cut[0] + 5, lambda x: cut[1] - x[-1] + (x[0] > 0)]

    def feas(x):
        if kind == 'none': return True
        if kind == 'f': return con[0](x) >= 0
        return con[0](x) >= 0 and con[1](x) >= 0
    kw = {}
    if kind == 'f': kw['f_ieqcons'] = con[0]
    if kind == 'vector': kw['f_ieqcons'] = lambda x: [con[0](x), con[1](x)]
    if kind == 'list': kw['ieqcons'] = con
    np.random.seed(rng.randrange(10 ** 6))
    with contextlib.redirect_stdout(io.StringIO()):
        g, fg = particle_swarm_optimization(f, lb, ub, swarmsize=S, maxiter=maxit, minstep=minstep, minfunc=minfunc, **kw)
    hist = [dict(op='reset', S=S, maxit=maxit, minfunc=minfunc)]
    for k, (x, fx) in enumerate(pts):
        hist.append(dict(op='eval', f=fx, ok=bool(feas(x)), inb=bool(np.all(x >= lb) and np.all(x <= ub)),
                         near=[j + 1 for j in range(k) if np.linalg.norm(x - pts[j][0]) <= minstep]))
    ix = [k + 1 for k, (x, fx) in enumerate(pts) if np.array_equal(x, g)]
    hist.append(dict(op='end', x=ix[-1] if ix else 0, f=1000000000 if fg > 1e50 else int(fg)))
    return hist


# ---------------------------------------------------------------- problems for the solver set-ups
class Multi(object):
    """A Nexus with quadratic responses at two fidelity levels."""
    def __init__(self, p, old=False):
        n = self.n = Nexus()
        self.p = p
        n.summary.v = Data()
        P = n.optimization_problem = Data()
        rows = []
        for i, v in enumerate(p['vars']):
            un = v.get('un', 1) * Units.less
            rows.append(['x%d' % i, float(v['ini'])] + ([(float(v['lo']), float(v['hi']))] if old else [float(v['lo']), float(v['hi'])]) + [float(v['sc']), un])
            n.summary.v['x%d' % i] = 0.
        P.inputs = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                P.inputs[i, j] = x
        P.objective = np.array([['f', float(p.get('osc', 1)), 1 * Units.less]], dtype=object)
        P.constraints = np.array([['g%d' % k, c['s'], float(c['e']), float(c['sc']), c['un'] * Units.less] for k, c in enumerate(p['con'])] or np.empty((0, 5)), dtype=object)
        P.aliases = [['x%d' % i, 'summary.v.x%d' % i] for i in range(len(rows))] + [['f', 'results.f']] + [['g%d' % k, 'results.g%d' % k] for k in range(len(p['con']))]
        n.procedure = Process()
        n.procedure.run = self.run

    def run(self, nexus):
        l = nexus.fidelity_level - 1
        v = [nexus.summary.v['x%d' % i] for i in range(len(self.p['vars']))]
        nexus.results.f = quad(self.p['obj'][l], v)
        for k, c in enumerate(self.p['con']):
            nexus.results['g%d' % k] = quad(c['q'][l], v)
        return nexus


def Q(rng, n, lo=-2, hi=2, lin=3, m=1):
    return dict(a=[m * rng.randrange(lo, hi + 1) for _ in range(n)], b=[m * rng.randrange(-lin, lin + 1) for _ in range(n)], c=m * rng.randrange(-4, 5))


def cons(rng, n, count, senses='<>='):
    out = []
    for _ in range(count):
        sc, un = rng.choice([1, 2]), rng.choice([1, 2])
        q = Q(rng, n, 0, 1, 2, sc)
        q2 = dict(q, b=[b + sc * rng.choice([0, 0, 1]) for b in q['b']], c=q['c'] + sc * rng.choice([0, 1, -1]))
        out.append(dict(q=[q, q2], s=rng.choice(senses), e=sc * rng.randrange(-4, 5), sc=sc, un=un))
    return out


class Lattice(object):
    """Stands in for the numerical solvers: looks at every whole-numbered point the caller allows."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.pts, self.good, self.x, self.ini = [], [], [], []

    def search(self, fun, bounds, tests, x0):
        self.reset()
        self.ini = [num(16 * a) for a in x0] if x0 is not None else []
        best = None
        for x in itertools.product(*[range(int(np.ceil(float(a) - 1e-9)), int(np.floor(float(b) + 1e-9)) + 1) for a, b in bounds]):
            xx = np.array(x, dtype=float)
            self.pts.append(list(x))
            if all(t(xx.copy()) for t in tests):
                self.good.append(list(x))
                f = num(fun(xx.copy()))
                if best is None or f < best[0]:
                    best = (f, list(x))
        self.x = best[1] if best else []
        return best

    def fmin_slsqp(self, func, x0, eqcons=(), f_eqcons=None, ieqcons=(), f_ieqcons=None, bounds=(), **kw):
        tests = []
        if f_eqcons: tests.append(lambda x: np.all(np.abs(np.asarray(f_eqcons(x), dtype=float)) < 1e-9))
        if f_ieqcons: tests.append(lambda x: np.all(np.asarray(f_ieqcons(x), dtype=float) >= -1e-9))
        for e in eqcons: tests.append(lambda x, e=e: abs(e(x)) < 1e-9)
        for e in ieqcons: tests.append(lambda x, e=e: e(x) >= -1e-9)
        self.search(func, bounds, tests, x0)
        return np.array(self.x or x0, dtype=float)

    def differential_evolution(self, func, bounds, *a, **kw):
        tests = [lambda x, c=c: bool(np.all(np.asarray(c.fun(x)) >= np.asarray(c.lb, dtype=float) - 1e-9) and np.all(np.asarray(c.fun(x)) <= np.asarray(c.ub, dtype=float) + 1e-9))
                 for c in (kw.get('constraints') or ())]
        self.search(func, bounds, tests, None)
        return so.OptimizeResult(x=np.array(self.x), fun=0., success=bool(self.x))


def solve(rng, lat, solver):
    n = rng.choice([1, 2])
    vs = []
    for _ in range(n):
        sc = rng.choice([1, 1, 2, 4])
        vs.append(dict(lo=sc * rng.randrange(-5, 1) - rng.choice([0, 0, 1]), hi=sc * rng.randrange(1, 6) + rng.choice([0, 0, 1]), sc=sc, un=rng.choice([1, 1, 2]), ini=rng.randrange(-3, 4)))
    c = cons(rng, n, rng.choice([0, 1, 2, 3]), '<>' if solver == 'differential_evolution' else '<>=')
    q = Q(rng, n, -1, 2)
    p = dict(vars=vs, obj=[q, q], con=c)
    m = Multi(dict(p, con=[dict(k, q=[k['q'][0]] * 2) for k in c]))
    lat.reset()
    with contextlib.redirect_stdout(io.StringIO()):
        scipy_setup.SciPy_Solve(m.n, solver=solver)
    return [dict(op='reset'), dict(op='solve', p=dict(vars=vs, obj=q, con=[dict(k, q=k['q'][0]) for k in c]), solver=solver, x=lat.x, pts=lat.pts, good=lat.good, ini=lat.ini)]


# ---------------------------------------------------------------- trust regions
class Scripted(object):
    """Stands in for scipy's minimize: probes what it was given and returns a chosen point of the region."""
    def __init__(self, rng, m, tr):
        self.rng, self.m, self.tr, self.events, self.cur = rng, m, tr, [], None

    def __call__(self, fun, x0, args=(), method=None, jac=None, bounds=None, constraints=(), **kw):
        x0 = np.array(x0, dtype=float)
        if bounds is not None and hasattr(bounds, 'lb'):
            bounds = list(zip(bounds.lb, bounds.ub))
        lo, up = [num(16 * float(b[0])) for b in bounds], [num(16 * float(b[1])) for b in bounds]
        pts = [list(p) for p in itertools.product(*[range(-(-a // 16), b // 16 + 1) for a, b in zip(lo, up)])]
        if not pts or len(lo) != len(x0):
            pts = [[num(a) for a in x0]]
        probes = self.rng.sample(pts, min(3, len(pts)))
        if self.cur is None:
            e = dict(op='iter', x0=[num(a) for a in x0], size=num(16 * self.tr.size), lo=lo, up=up, ok=self.rng.random() < .7, rlo=lo, rup=up, x2=[0] * len(x0), rprobes=[])
            e['probes'] = [dict(x=p, f=num(fun(np.array(p, dtype=float), *args)),
                                g=[num(c['fun'](np.array(p, dtype=float), *c.get('args', ()))) for c in constraints]) for p in probes]
            e['x1'] = self.pick(pts, e['x0'])
            self.events.append(e)
            self.cur = None if e['ok'] else e
            x = np.array(e['x1'], dtype=float)
            return so.OptimizeResult(x=x, fun=float(np.asarray(fun(x, *args)).reshape(-1)[0]), success=e['ok'])
        e, self.cur = self.cur, None
        e.update(rlo=lo, rup=up)
        e['rprobes'] = [dict(x=p, v=num(float(fun(np.array(p, dtype=float), *args)) ** 2)) for p in probes]
        e['x2'] = self.pick(pts, e['x0'])
        x = np.array(e['x2'], dtype=float)
        return so.OptimizeResult(x=x, fun=float(fun(x, *args)), success=True)

    def pick(self, pts, x0):
        if x0 in pts and self.rng.random() < .15:
            return list(x0)
        if self.rng.random() < .6:      # prefer designs which are good at the high fidelity
            v = lambda p: [a * r['sc'] for a, r in zip(p, self.m.p['vars'])]
            return list(min(self.rng.sample(pts, min(8, len(pts))), key=lambda p: quad(self.m.p['obj'][1], v(p))))
        return list(self.rng.choice(pts))


def trust(rng, swap):
    n = rng.choice([1, 1, 2])
    osc = rng.choice([1, 1, 2])
    vs = [dict(lo=sc * rng.randrange(-6, -1), hi=sc * rng.randrange(2, 7), sc=sc, ini=sc * rng.randrange(-1, 2)) for sc in [rng.choice([1, 1, 2]) for _ in range(n)]]
    q1 = Q(rng, n, -1, 2, 3, osc)
    q2 = rng.choice([Q(rng, n, 0, 2, 4, osc), dict(q1, c=q1['c'] + osc), dict(q1, b=[b + osc for b in q1['b']])])
    p = dict(vars=vs, obj=[q1, q2], osc=osc, con=cons(rng, n, rng.choice([0, 1, 1, 2])), ct=rng.choice([25, 26, 10]), et=rng.choice([75, 76, 60]),
             cf=rng.choice([2, 4]), ef=rng.choice([2, 4]), min=rng.choice([8, 16]), size=rng.choice([16, 32, 64]), tol=rng.choice([1, 1, 3]), maxit=rng.randrange(1, 7))
    m = Multi(p, old=True)
    tr = Trust_Region()
    tr.size = p['size'] / 16.; tr.initial_size = tr.size; tr.minimum_size = p['min'] / 16.
    tr.contract_threshold = p['ct'] / 100.; tr.expand_threshold = p['et'] / 100.
    tr.contraction_factor = 1. / p['cf']; tr.expansion_factor = float(p['ef'])
    o = tro.Trust_Region_Optimization()
    o.trust_region_max_iterations = p['maxit']; o.difference_interval = 1.; o.convergence_tolerance = p['tol'] - 1e-9
    m.n.trust_region = tr
    s = Scripted(rng, m, tr)
    quiet = rng.random() < .5
    mine = io.StringIO()
    with contextlib.redirect_stdout(mine):
        swap(s)
        f, x, msg = o.optimize(m.n, print_output=not quiet)
        kept = sys.stdout is mine
    hist = [dict(op='reset', p=p)] + s.events
    hist.append(dict(op='end', x=[num(a) for a in x], f=num(f), msg=msg, size=num(16 * tr.size), out=kept))
    return hist


def main():
    c = Check('C08')
    r = tlc.run('SwarmMC', 'SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n', consts=dict(NMax=tier('3', '4')), workers=8)
    c.model('SwarmMC', r)
    r = tlc.run('TrustRegionMC', 'SPECIFICATION Spec\nINVARIANTS InBounds NoStepBack Consistent Slope Ends\nVIEW View\nCHECK_DEADLOCK FALSE\n', consts=dict(Its=tier('3', '5')), workers=8)
    c.model('TrustRegionMC', r)
    with Scratch():
        hs = [swarm(c.rng) for _ in range(tier(400, 5000))]
        c.sample(hs[0][:3])
        trace.validate(c, 'SwarmTrace', hs, what='swarm run')

        lat = Lattice()
        keep = so.fmin_slsqp, so.differential_evolution, so.minimize
        so.fmin_slsqp, so.differential_evolution = lat.fmin_slsqp, lat.differential_evolution
        for k, v in list(vars(scipy_setup).items()):        # however the set-up imported them
            if v is keep[0]: setattr(scipy_setup, k, lat.fmin_slsqp)
            if v is keep[1]: setattr(scipy_setup, k, lat.differential_evolution)
        hs = [solve(c.rng, lat, s) for _ in range(tier(150, 1500)) for s in ('SLSQP', 'differential_evolution')]
        c.sample(hs[0][1])
        trace.validate(c, 'SolveTrace', hs, what='solver set-up')

        names = [k for k, v in vars(tro).items() if v is keep[2]]

        def swap(s):
            so.minimize = s
            for k in names:
                setattr(tro, k, s)
        hs = [trust(c.rng, swap) for _ in range(tier(400, 4000))]
        so.fmin_slsqp, so.differential_evolution, so.minimize = keep
        c.sample(hs[0][1])
        trace.validate(c, 'TrustRegionTrace', hs, what='trust region run')
    c.finish()


guard(main)
