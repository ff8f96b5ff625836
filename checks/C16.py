"""C16: the atmosphere is one column of air (specs/Air*.tla)."""
import contextlib, copy, io, multiprocessing as mp, random, warnings
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, worker, SEED
import SUAVE
from SUAVE.Analyses.Atmospheric import US_Standard_1976, Constant_Temperature
from SUAVE.Methods.Missions.Segments.Common import Aerodynamics as common
from C15 import dec

BREAKS = [-2000, 0, 11000, 20000, 32000, 47000, 51000, 71000, 84852]
RE = 6371000.


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        return f()


class World(object):
    def __init__(self, rng):
        self.rng, self.h, self.a, self.kind = rng, [dict(op='reset')], {}, {}
        for k in (1, 2): self.new(k, 'us')

    def new(self, k, kind):
        self.a[k], self.kind[k] = (US_Standard_1976 if kind == 'us' else Constant_Temperature)(), kind
        self.h.append(dict(op='new', k=k, kind=kind))

    def copy(self, k, j):
        self.a[k], self.kind[k] = copy.deepcopy(self.a[j]), self.kind[j]
        self.h.append(dict(op='copy', k=k, **{'from': j}))

    def edit(self, k, f):
        a = self.a[k]
        if f == 't0': x = self.rng.choice([10., -15.]); a.breaks.temperature += x
        elif f == 'p0': x = self.rng.choice([.9, 1.2]); a.breaks.pressure *= x
        else: x = self.rng.choice([1.1, .8]); a.planet.sea_level_gravity *= x
        self.h.append(dict(op='edit', k=k, f=f, x=dec(x)))

    def heights(self, n=None):
        rng = self.rng
        def one():
            c = rng.randrange(7)
            if c == 0: h = rng.choice([0, 0] + [b + d for b in BREAKS[:-1] for d in (-5, 5)]); return h / (1. - h / RE)
            if c == 1: return rng.choice([-9000., -2500., 86500., 120000.])
            if c == 2: return float(rng.randrange(0, 12)) * 1000.
            if c == 3: return rng.uniform(-2000., 86000.)
            return rng.uniform(0., 25000.)
        return [one() for _ in range(n or rng.randrange(1, 7))]

    def row(self, z, dT, r, i):
        at = lambda x: float(np.ravel(x)[i if np.size(x) > 1 else 0])
        return dict(z=dec(z), dT=dec(dT), p=dec(at(r.pressure)), T=dec(at(r.temperature)), rho=dec(at(r.density)), a=dec(at(r.speed_of_sound)), mu=dec(at(r.dynamic_viscosity)),
                    nu=dec(at(r.kinematic_viscosity)), K=dec(at(r.thermal_conductivity)), Pr=dec(at(r.prandtl_number)))

    FIELDS = 'pressure temperature density speed_of_sound dynamic_viscosity kinematic_viscosity thermal_conductivity prandtl_number'.split()

    def air(self, k, z=None):
        rng = self.rng
        z = z or self.heights()
        n, const = len(z), self.kind[k] == 'const'
        if rng.random() < .2: z = [float(int(x)) for x in z]
        form = rng.choice(['scalar', 'list', 'flat', 'column', 'ints'] if n == 1 else ['list', 'flat', 'column'])
        if form == 'ints': z = [float(int(z[0]))]
        arg = {'scalar': lambda: z[0], 'ints': lambda: int(z[0]), 'list': lambda: list(z), 'flat': lambda: np.array(z), 'column': lambda: np.array(z)[:, None]}[form]()
        was = copy.deepcopy(arg)
        base = rng.choice([220., 288.15, 310.]) if const else rng.choice([0., 0., 10., -20.])
        many = not const and n > 1 and rng.random() < .3
        dT = [base + 5. * i for i in range(n)] if many else [base] * n
        v = (not const) and rng.random() < .3
        t = np.array(dT)[:, None] if many else base
        r = quiet(lambda: self.a[k].compute_values(arg, t, v) if v else self.a[k].compute_values(arg, t))
        shape = all(np.shape(r[f]) == (n, 1) for f in self.FIELDS)
        self.h.append(dict(op='air', k=k, v=v, kept=bool(np.array_equal(arg, was)), shape=bool(shape), rows=[self.row(z[i], dT[i], r, i) for i in range(n)] if shape or n == 1 else []))

    def segment(self, k):
        rng = self.rng
        if self.kind[k] == 'const': return
        s = SUAVE.Analyses.Mission.Segments.Cruise.Constant_Speed_Constant_Altitude()
        z = self.heights(rng.randrange(2, 6)); n = len(z)
        s.state.numerics.number_control_points = n
        s.state.expand_rows(n)
        s.temperature_deviation = dT = rng.choice([0., 0., 15., -10.])
        s.analyses = SUAVE.Analyses.Analysis.Container(); s.analyses.atmosphere = self.a[k]
        c = s.state.conditions
        c.frames.inertial.position_vector[:, 2] = -np.array(z)
        V = np.array([[rng.uniform(1., 300.), rng.choice([0., 20.]), rng.choice([0., -8., 5.])] for _ in range(n)])
        if rng.random() < .2: V[0] = 0.
        c.frames.inertial.velocity_vector = V
        was = V.copy()
        for f in (common.update_altitude, common.update_atmosphere, common.update_freestream): quiet(lambda: f(s))
        F = c.freestream
        rows = []
        for i in range(n):
            q = self.row(z[i], dT, F, i)
            q.update(V=dec(np.sqrt(np.sum(V[i]**2))), q=dec(F.dynamic_pressure[i, 0]), M=dec(F.mach_number[i, 0]), Re=dec(F.reynolds_number[i, 0]))
            rows.append(q)
        self.h.append(dict(op='segment', k=k, v=False, kept=bool(np.array_equal(V, was) and np.array_equal(F.altitude[:, 0], np.array(z))),
                           shape=all(np.shape(F[f]) == (n, 1) for f in self.FIELDS + ['velocity', 'dynamic_pressure', 'mach_number', 'reynolds_number']), rows=rows))

    def gravity(self):
        z = [abs(x) for x in self.heights()]
        E = SUAVE.Attributes.Planets.Earth()
        g = E.compute_gravity(np.array(z)) if self.rng.random() < .6 else [E.compute_gravity(x) for x in z]
        self.h.append(dict(op='gravity', rows=[dict(z=dec(x), g=dec(y)) for x, y in zip(z, g)]))


@worker
def history(seed):
    rng = random.Random(seed)
    w = World(rng)
    for _ in range(rng.randrange(4, 9)):
        k = rng.randrange(1, 3)
        op = rng.choice(['air'] * 6 + ['segment', 'segment', 'new', 'copy', 'edit', 'gravity'])
        if op == 'new': w.new(k, rng.choice(['us', 'const']))
        elif op == 'copy': w.copy(k, 3 - k)
        elif op == 'edit':
            if w.kind[k] == 'us': w.edit(k, rng.choice(['t0', 'p0', 'g']))
        elif op == 'gravity': w.gravity()
        else: getattr(w, op)(k)
    return w.h


@worker
def replay(arg):
    h, i = arg
    w = World(random.Random(SEED * 13 + i))
    for o in h:
        if o['op'] == 'edit': w.edit(o['k'], o['f'])
        else: w.air(o['k'])
    for k in (1, 2): w.air(k); w.segment(k)
    return w.h


def main():
    c = Check('C16')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Lengths Continuous Hydrostatic Clipped Warmer'.split())
    c.model('AirMC', tlc.run('AirMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(D=tier(2, 3), Emit='FALSE'), workers=8))
    beh = tlc.run('AirMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(D=3, Emit='TRUE'), workers=1).json_lines('HIST')
    beh = [list(x) for x in {tuple((o['op'], o['k'], o.get('f')) for o in b) for b in beh}]
    beh = sorted(beh, key=str)
    beh = [[dict(op=o[0], k=o[1], f=o[2]) for o in b] for b in beh]
    c.rng.shuffle(beh)
    beh = beh[:tier(120, 100000)]
    c.count('spec_behaviours_replayed', len(beh))
    with mp.Pool(8) as pool:
        hs = pool.map(replay, [(b, i) for i, b in enumerate(beh)], chunksize=4)
        hs += pool.map(history, [SEED * 5003 + i for i in range(tier(350, 8000))], chunksize=4)
    c.count('points', sum(len(e['rows']) for h in hs for e in h if 'rows' in e))
    c.sample([e['op'] for e in hs[-8]])
    trace.validate(c, 'AirTrace', hs, chunk=1500)
    c.assumptions += ['air and the earth as SUAVE has them; other gases and planets have no properties here']
    c.finish()


if __name__ == '__main__':
    guard(main)
