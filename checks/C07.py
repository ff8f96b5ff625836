"""C07: optimisation problems - aliases, caching, scaling, differences (specs/Nexus*.tla)."""
import contextlib, io
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, SEED
import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Analyses import Process
from SUAVE.Optimization.Nexus import Nexus


class Fail(Exception):
    pass


class Method(object):
    def __init__(self, f):
        self.f = f

    def evaluate(self, nexus):
        return self.f(nexus)


def pathstr(p):
    return '.'.join(dict(sum='summary', cfg='vehicle_configurations', res='results').get(s, s) if i == 0 else s for i, s in enumerate(p))


class World(object):
    """A real Nexus set up as the given specification state."""
    def __init__(self, s, form=0):
        n = self.n = Nexus()
        for name, kv in s['cfg']:
            self.config(name, kv)
        for k, v in s['sum']:
            n.summary[k] = float(v)
        n.results.a, n.results.b = float(s['res']['a']), float(s['res']['b'])
        n.fidelity_level = s['fid']; n.force_evaluate = s['force']; n.hard_bounded_inputs = s['hard']
        n.evaluation_count = s['cnt']
        p = n.optimization_problem = Data()
        p.inputs = np.array([[r['n'], float(r['val']), float(r['lo']), float(r['hi']), float(r['sc']), r['un'] * Units.less] for r in s['inp']], dtype=object)
        p.objective = np.array([[s['obj']['n'], float(s['obj']['sc']), s['obj']['un'] * Units.less]], dtype=object)
        rows = [[r['n'], r['s'], float(r['e']), float(r['sc']), r['un'] * Units.less] for r in s['con']]
        p.constraints = np.array(rows, dtype=object) if rows else np.empty((0, 5), dtype=object)
        p.aliases = [[a, pathstr(ps[0]) if len(ps) == 1 and not (form == 1 and a[0] == 'x') else [pathstr(q) for q in ps]] for a, ps in s['al']]
        proc = n.procedure = Process()
        if form == 2:
            proc.first = Process(); proc.first.inner = self.step_a
            proc.mid = Method(self.check); proc.last = self.step_b
        else:
            proc.first = self.step_a; proc.mid = self.check; proc.last = Method(self.step_b)
        self.s = s

    def config(self, name, kv):
        c = SUAVE.Components.Configs.Config()
        c.tag = name
        for k, v in kv:
            c[k] = float(v)
        self.n.vehicle_configurations.append(c)

    def wsum(self, leaf):
        return sum((i + 1) * float(c[leaf]) for i, c in enumerate(self.n.vehicle_configurations) if leaf in c)

    def step_a(self, nexus):
        s = nexus.summary
        nexus.results.a = 80. * (s.p + 2 * s.q * nexus.fidelity_level + self.wsum('v'))
        return nexus

    def check(self, nexus):
        if nexus.summary.p == 13:
            raise Fail('mission did not converge')
        return nexus

    def step_b(self, nexus):
        nexus.results.b = 80. * (nexus.summary.q ** 2 - self.wsum('w')) + nexus.results.a
        return nexus

    def post(self):
        n, p = self.n, self.n.optimization_problem
        return dict(cfg=[[k, [[a, num(b)] for a, b in c.items() if a in ('v', 'w', 'u')]] for k, c in n.vehicle_configurations.items()],
                    sum=[[k, num(v)] for k, v in n.summary.items()],
                    inp=[dict(n=r[0], val=num(r[1]), lo=num(r[2]), hi=num(r[3]), sc=num(r[4]), un=num(r[5])) for r in p.inputs],
                    obj=dict(n=p.objective[0][0], sc=num(p.objective[0][1]), un=num(p.objective[0][2])),
                    con=[dict(n=r[0], s=r[1], e=num(r[2]), sc=num(r[3]), un=num(r[4])) for r in p.constraints],
                    al=self.s['al'] if [a[0] for a in p.aliases] == [a[0] for a in self.s['al']] else [],
                    fid=n.fidelity_level, force=bool(n.force_evaluate), hard=bool(n.hard_bounded_inputs),
                    res=dict(a=num(n.results.a), b=num(n.results.b)), key=[], cnt=n.evaluation_count)

    def do(self, e, xf=lambda x: np.array(x, dtype=float)):
        n, op = self.n, e['op']
        x = xf(e['x']) if e['x'] else None
        ok, out, err = True, [], ''
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if op == 'obj': out = n.objective(x)
                elif op == 'ineq': out = n.inequality_constraint(x)
                elif op == 'eq': out = n.equality_constraint(x)
                elif op == 'all': out = n.all_constraints(x)
                elif op == 'eval': n.evaluate(x)
                elif op == 'table': out = n.translate(x)[1][:, 1]
                elif op == 'fd':
                    g, j = n.finite_difference(x, diff_interval=float(e['h']))
                    out = [y for i in range(len(g)) for y in [g[i]] + list(j[:, i])]
                elif op == 'input': n.optimization_problem.inputs[e['i'] - 1, 1] = float(e['h'])
                elif op == 'fidelity': n.fidelity_level = e['h']
                elif op == 'force': n.force_evaluate = e['h'] == 1
                elif op == 'hard': n.hard_bounded_inputs = e['h'] == 1
                elif op == 'poke': n.deep_set(pathstr(e['p']), float(e['h']))
                elif op == 'config': self.config(e['p'][0], [['v', e['h']], ['w', e['h']]])
        except Exception as ex:
            ok, err = False, repr(ex)[:120]
        res = dict(e, ok=ok, out=[num(1000 * float(y)) for y in out], post=self.post(), error=err)
        return res


def num(x):
    x = float(x)
    return int(round(x)) if abs(x - round(x)) < 1e-5 * max(1, abs(x)) else 1999999999


def E(op, x=(), h=0, i=0, p=()):
    return dict(op=op, x=list(x), h=h, i=i, p=list(p))


def problem(rng):
    cfg = [[k, [['v', rng.randrange(4)], ['w', rng.randrange(4)]]] for k in rng.choice([['base'], ['base', 'cruise'], ['cruise', 'base', 'climb']])]
    names = ['x1', 'x2', 'x3'][:rng.choice([1, 2, 2, 3])]
    inp = [dict(n=k, val=rng.randrange(-2, 3), lo=rng.randrange(-3, 1), hi=rng.randrange(1, 4), sc=rng.choice([1, 1, 2, 4]), un=rng.choice([1, 1, 2])) for k in names]
    targets = [['sum', 'p'], ['sum', 'q'], ['sum', 'z'], ['cfg', '*', 'v'], ['cfg', '*', 'w'], ['cfg', cfg[0][0], 'w'], ['cfg', cfg[-1][0], 'v'], ['cfg', '*', 'u']]
    al = []
    for k in names + ['x9']:
        for _ in range(rng.choice([1, 1, 1, 2] if rng.random() > .06 else [0])):
            al.append([k, [rng.choice(targets) for _ in range(rng.choice([1, 1, 2]))]])
    outs = ['J', 'g', 'h', 'k']
    for k, p in zip(outs, [['res', 'b'], ['res', 'a'], ['sum', 'q'], ['sum', 'p']]):
        if rng.random() > .04:
            al.append([k, [p] if rng.random() > .04 else [p, ['sum', 'p']]])
            if rng.random() < .1:
                al.append([k, [['sum', 'p']]])
    rng.shuffle(al)
    obj = dict(n=rng.choice(['J', 'J', 'h']), sc=rng.choice([1, 2, 4]), un=rng.choice([1, 2]))
    con = [dict(n=rng.choice(outs), s=rng.choice('<>='), e=rng.randrange(-3, 4), sc=rng.choice([1, 2, 4]), un=rng.choice([1, 2])) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    return dict(cfg=cfg, sum=[['p', 0], ['q', 0]], inp=inp, al=al, obj=obj, con=con, fid=1, force=False, hard=rng.random() < .2,
                res=dict(a=0, b=0), key=[], cnt=0)


def history(rng, n):
    s = problem(rng)
    w = World(s, rng.randrange(3))
    hist = [dict(op='reset', post=w.post())]
    assert hist[0]['post'] == s, (hist[0]['post'], s)
    m = len(s['inp'])
    # a point which makes the procedure fail, when p is one of the variables
    bad = [(i, 13 // (r['sc'] * r['un'])) for i, r in enumerate(s['inp']) if 13 % (r['sc'] * r['un']) == 0]
    xs = [[rng.randrange(-3, 4) for _ in range(m)] for _ in range(3)]
    for _ in range(n):
        x = list(rng.choice(xs))
        if bad and rng.random() < .15:
            i, v = rng.choice(bad); x[i] = v
        if rng.random() < .25:
            x = []
        op = rng.choice(['obj'] * 4 + ['ineq', 'eq', 'all', 'eval', 'table', 'fd', 'input', 'fidelity', 'force', 'hard', 'poke', 'config'])
        if op == 'fd':
            e = E(op, x or xs[0], h=rng.choice([1, 2]))
        elif op == 'input': e = E(op, h=rng.randrange(-4, 5), i=rng.randrange(m) + 1)
        elif op == 'fidelity': e = E(op, h=rng.choice([1, 2]))
        elif op in ('force', 'hard'): e = E(op, h=rng.choice([0, 0, 1]))
        elif op == 'poke': e = E(op, h=rng.randrange(5), p=rng.choice([['sum', 'p'], ['sum', 'q'], ['cfg', s['cfg'][0][0], 'v']]))
        elif op == 'config':
            nm = rng.choice(['extra1', 'extra2'])
            if nm in w.n.vehicle_configurations:
                continue
            e = E(op, h=rng.randrange(4), p=[nm])
        elif op == 'table' and not s['con']:
            continue
        else:
            e = E(op, x)
        hist.append(w.do(e, rng.choice([list, tuple, lambda v: np.array(v, dtype=float), lambda v: np.array(v, dtype=object)]) if op != 'fd' else np.array))
    return hist


def main():
    c = Check('C07')
    r = tlc.run('NexusMC', 'SPECIFICATION Spec\nINVARIANTS Coherent Bounded Placed Opposed\nCONSTRAINT Bound\nVIEW View\nCHECK_DEADLOCK FALSE\n',
                consts=dict(D=tier('4', '5'), Gen='FALSE'), workers=8)
    c.model('NexusMC', r)
    r = tlc.run('NexusMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCONSTRAINT GenBound\nCHECK_DEADLOCK FALSE\n',
                consts=dict(D=tier('7', '10'), Gen='TRUE'), workers=1, simulate=tier(60, 600), depth=tier(9, 12), seed=SEED)
    hists = r.json_lines('HIST')
    c.count('spec_behaviours_replayed', len(hists))
    for k, h in enumerate(hists):
        w = World(h[0]['pre'][0], k % 3)
        for j, e in enumerate(h):
            g = w.do({x: e[x] for x in ('op', 'x', 'h', 'i', 'p')})
            want = dict(e['post'], key=[])
            if any(a['op'] == 'force' for a in h[:j]):
                want['cnt'] = g['post']['cnt']
            bad = [x for x, a, b in (('ok', g['ok'], e['ok']), ('post', g['post'], want), ('out', g['out'], e['out'])) if a != b]
            if bad:
                c.report('replay:%s:%s' % (e['op'], ','.join(bad)), dict(step=j, ops=[[a['op'], a['x']] for a in h[:j + 1]],
                         got={x: g[x] for x in bad}, want={x: e[x] for x in bad}, error=g['error']))
                break
        c.traces += 1
    hs = [history(c.rng, tier(25, 40)) for _ in range(tier(300, 3000))]
    c.sample([{k: e[k] for k in ('op', 'x', 'out')} for e in hs[0][1:6]])
    trace.validate(c, 'NexusTrace', hs)
    c.finish()


guard(main)
