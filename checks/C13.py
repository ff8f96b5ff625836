"""C13: lift and drag of a vehicle are those of its parts (specs/Aero*.tla)."""
import contextlib, copy, io, multiprocessing as mp, random, warnings
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, SEED
import aerolib as L
from aerolib import Data, Units, Wings, SUAVE
from SUAVE.Methods.Missions.Segments.Common import Aerodynamics as CA

MODELS = ['zero', 'zero', 'vlm', 'super', 'super', 'line', 'stall']
POINTS = dict(zero=[(0, .15, 4.), (1000, .3, 2.), (3000, .5, -3.), (6000, .7, 6.), (9000, .78, 1.), (11000, .8, 3.), (2000, .25, 9.), (500, .1, 0.)],
              super=[(1000, .3, 2.), (5000, .7, 4.), (8000, .9, 3.), (9000, 1.02, 1.), (10000, 1.1, 2.), (12000, 1.4, 3.), (15000, 2., 2.), (16000, 2.3, -2.), (3000, .5, 8.)])
POINTS['vlm'] = POINTS['line'] = POINTS['zero']
POINTS['stall'] = [(0, .15, 4.), (1000, .3, 12.), (3000, .5, -3.), (100, .1, 30.), (100, .1, 60.), (0, .1, 100.), (500, .1, -20.), (500, .12, 0.)]
TAGS = ['main_wing', 'tail', 'fin', 'canard', 'fuselage', 'fuselage_bwb', 'boom', 'nacelle_a', 'nacelle_b']
TYPES = [1, 1, 1, 1, 2, 2, 2, 3, 3]
FRESH = dict(trim=1020, flc=1140, inc=0, spoil=0, ld=0, kv=38, osw=0, span=0, clmax=0)
SET = dict(trim=('trim_drag_correction_factor', 1e-3), flc=('fuselage_lift_correction', 1e-3), inc=('drag_coefficient_increment', 1e-6),
           spoil=('spoiler_drag_increment', 1e-6), ld=('lift_to_drag_adjustment', 1e-2), kv=('viscous_lift_dependent_drag_factor', 1e-2),
           osw=('oswald_efficiency_factor', 1e-2), span=('span_efficiency', 1e-2), clmax=('maximum_lift_coefficient', 1e-3))
CHOICE = dict(trim=[1000, 1020, 1100], flc=[1000, 1140], inc=[0, 300, 1500, -200], spoil=[0, 4000], ld=[0, 10, -5], kv=[38, 0, 50],
              osw=[0, 80, 95], span=[0, 90, 70], clmax=[0, 300, 150, 1200])


def r(x, s):
    x = float(np.ravel(x)[0]) * s
    return int(round(x)) if np.isfinite(x) and abs(x) < 2e9 else 2000000000


class World(object):
    def __init__(self, model, rng, plain=False):
        self.model, self.rng, self.pts = model, rng, POINTS[model]
        segs = [(0., 1., 20.), (.4, .7, 25.), (1., .3, 25.)]
        pick = (lambda *x: x[0]) if plain else (lambda *x: rng.choice(x))
        W = L.wing
        self.parts = [W(Wings.Main_Wing, 'main_wing', 120, pick(9., 7.5), .3, pick(20., 35.), segs=pick(None, segs), twist=pick((0., 0.), (2., -1.)), dihedral=pick(0., 5.)),
                      W(Wings.Horizontal_Tail, 'tail', pick(30, 25), 5., .4, 25., x=15., tc=.1),
                      W(Wings.Vertical_Tail, 'fin', 20, 1.8, .4, 30., sym=False, vert=True, x=15., tc=.1),
                      W(Wings.Wing, 'canard', pick(24, 16), 6., .5, 10., x=-8., segs=pick(None, segs), tc=.11),
                      L.body('fuselage', 12., 380., 38., 3.9), L.body('fuselage_bwb', 20., 300., 30., 5.), L.body('boom', 2., 60., 15., 1.6),
                      L.pod('nacelle_a', 2., 3., 18., 1), L.pod('nacelle_b', 1.5, 2.5, 12., 2)]
        if model == 'stall' or pick(False, True):
            for w in self.parts[:4]:
                if not w.areas.wetted: w.areas.wetted = 2. * w.areas.reference
        self.sref = 120
        self.v = L.vehicle(self.sref, 1 if plain else rng.choice([0, 1, 2]))
        self.v.append_component(copy.deepcopy(self.parts[0]))
        self.held = [0]                                 # kinds, in the order the specification keeps them
        self.a = L.analysis(model, self.v)
        self.zero = pick(0., -2., 3.) * Units.deg          # where a section has no lift
        if model == 'stall': self.a.settings.section_zero_lift_angle_of_attack = self.zero
        self.s = dict(FRESH, flc=1000, trim=1000, kv=0) if model == 'stall' else dict(FRESH)
        D = self.alone()
        K = [dict(t=t, pd=D[i], wet=int(round(self.wet(i) * 1000)), ar=int(round(p.aspect_ratio * 1000)) if t == 1 else 0,
                  dia=int(round(p.diameter * 1000)) if t == 3 else 0, n=len(p.origin) if t == 3 else 1, vert=bool(t == 1 and p.vertical), skip=TAGS[i] == 'fuselage_bwb')
             for i, (t, p) in enumerate(zip(TYPES, self.parts))]
        S = [int(round(p.areas.reference)) if t == 1 else 0 for t, p in zip(TYPES, self.parts)]
        self.h = [dict(op='reset'), dict(op='world', K=K, v=dict(parts=[1], S=S, sref=self.sref), s=dict(self.s),
                                         model=dict(pylons=model != 'super', esdu=model != 'super', wings=model != 'super', vlm=model != 'stall'))]

    # -------- the parts alone
    def alone(self):
        """Drag area of each part at each flight state, by itself."""
        drag = L.Super.Drag if self.model == 'super' else L.Common.Drag
        s = (self.a if self.model != 'stall' else SUAVE.Analyses.Aerodynamics.Fidelity_Zero()).settings
        res = []
        for t, p in zip(TYPES, self.parts):
            row = []
            p = copy.deepcopy(p)
            for q in self.pts:
                f = {1: L.Common.Drag.parasite_drag_wing, 2: drag.parasite_drag_fuselage, 3: drag.parasite_drag_nacelle}[t]
                cd = f(L.state([q]), s, p)
                row.append(r(cd * (p.areas.reference if t == 1 else p.areas.front_projected if t == 2 else np.pi * p.diameter**2 / 4), 1e6))
            self.wetted = getattr(self, 'wetted', {}); self.wetted[p.tag] = p.areas.wetted
            res.append(row)
        return res

    def wet(self, i):
        return self.wetted[TAGS[i]]

    def wings(self):
        return [TAGS[i] for i in self.held if TYPES[i] == 1]

    # -------- changes
    def changed(self, **e):
        self.h.append(e)
        L.start(self.model, self.a)

    def group(self, i):
        return {1: self.v.wings, 2: self.v.fuselages, 3: self.v.nacelles}[TYPES[i]]

    def add(self, i):
        self.v.append_component(copy.deepcopy(self.parts[i])); self.held.append(i)
        self.changed(op='add', k=i + 1)

    def drop(self, i):
        del self.group(i)[TAGS[i]]; self.held.remove(i)
        self.changed(op='del', k=i + 1)

    def area(self, i, S):
        self.group(i)[TAGS[i]].areas.reference = float(S)
        self.changed(op='area', k=i + 1, a=S)

    def ref(self, S):
        self.v.reference_area, self.sref = float(S), S
        self.changed(op='sref', a=S)

    def set(self, f, x):
        name, unit = SET[f]
        self.a.settings[name] = (None if f in ('osw', 'span') else np.inf) if x == 0 and f in ('osw', 'span', 'clmax') else x * unit
        self.s[f] = x
        self.h.append(dict(op='set', f=f, x=x))         # settings need no second initialisation

    # -------- evaluations
    def run(self, a, pts):
        st = L.state(pts)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            res = a(st)
        return st.conditions.aerodynamics, res

    def some(self, most=5):
        return [self.rng.randrange(len(self.pts)) for _ in range(self.rng.randrange(1, most + 1))]

    def single(self, idx):
        """Wing by wing, at each point by itself, from an analysis nobody has used before."""
        out, ws = {}, self.wings()
        for j in set(idx):
            q = [self.pts[j]]
            if self.model == 'stall':
                cl, cdi = [], []
                for t in ws:
                    v = L.vehicle(1.); w = copy.deepcopy(self.v.wings[t]); v.append_component(w); v.reference_area = w.areas.reference
                    a = L.analysis('stall', v); a.settings.section_zero_lift_angle_of_attack = self.zero
                    c, _ = self.run(a, q)
                    cl.append(r(c.lift_coefficient, 1e5)); cdi.append(r(c.drag_coefficient, 1e8))
                out[j] = (cl, cdi, [0], 0)
                continue
            v = copy.deepcopy(self.v)
            a = L.analysis(self.model, v)
            a.settings.fuselage_lift_correction = self.s['flc'] * 1e-3     # wave drag due to lift is due to that of the vehicle
            c, _ = self.run(a, q)
            cl = [r(c.lift_breakdown.inviscid_wings[t], 1e5) for t in ws]
            cdi = [r(c.drag_breakdown.induced.inviscid_wings[t], 1e8) for t in ws]
            if self.model == 'line':
                from SUAVE.Methods.Aerodynamics.Lifting_Line import lifting_line
                k = Data(); k.aerodynamics = Data(); k.aerodynamics.angle_of_attack = q[0][2] * Units.deg
                s = a.process.compute.lift.inviscid_wings.settings
                one = [lifting_line(k, s, v.wings[t]) for t in ws]
                cl, cdi = [r(x[0], 1e5) for x in one], [r(x[1], 1e8) for x in one]
            if self.model == 'super': cc = [r(c.drag_breakdown.compressible.total, 1e8)]
            else:
                cc = []
                for t in ws:
                    st = L.state(q)
                    st.conditions.aerodynamics.lift_breakdown.compressible_wings = Data()
                    st.conditions.aerodynamics.lift_breakdown.compressible_wings[t] = c.lift_breakdown.compressible_wings[t]
                    st.conditions.aerodynamics.drag_breakdown.compressible = Data()
                    w = v.wings[t]
                    L.Common.Drag.compressibility_drag_wing(st, a.settings, w)
                    cc.append(r(st.conditions.aerodynamics.drag_breakdown.compressible[t].compressibility_drag * w.areas.reference, 1e6))
            out[j] = (cl, cdi, cc, r(c.drag_breakdown.induced.inviscid, 1e8))
        return out

    def eval(self, idx=None):
        idx = idx or self.some()
        one = self.single(idx)
        c, res = self.run(self.a, [self.pts[j] for j in idx])
        whole = []
        n = len(idx)
        row = lambda x, j, s: r(np.ravel(x * np.ones((n, 1)))[j], s)
        for j in range(n):
            d = c.drag_breakdown
            w = dict(CL=row(c.lift_coefficient, j, 1e5), CD=row(c.drag_coefficient, j, 1e8),
                     same=bool(np.shape(c.lift_coefficient) == (n, 1) and np.shape(c.drag_coefficient) == (n, 1) and
                               np.array_equal(res.lift.total, c.lift_coefficient) and np.array_equal(res.drag.total, c.drag_coefficient)))
            if self.model != 'stall':
                osw = row(d.induced.oswald_efficiency_factor, j, 1e4)
                w.update(parasite=row(d.parasite.total, j, 1e8), induced=row(d.induced.total, j, 1e8), compressible=row(d.compressible.total, j, 1e8),
                         misc=row(d.miscellaneous.total, j, 1e8), untrimmed=row(d.untrimmed, j, 1e8), trimmed=row(d.trim_corrected_drag, j, 1e8),
                         viscous=row(d.induced.viscous, j, 1e8), osw=osw, osw_known=0 < osw < 100000,
                         entries=[row(d.parasite[TAGS[i]].parasite_drag_coefficient, j, 1e8) for i in self.held])
                w['same'] = w['same'] and bool(np.array_equal(d.total, c.drag_coefficient) and np.array_equal(res.drag.parasite.total, d.parasite.total))
            whole.append(w)
        self.h.append(dict(op='eval', pts=[j + 1 for j in idx], cl=[one[j][0] for j in idx], cdi=[one[j][1] for j in idx],
                           cc=[one[j][2] for j in idx], inv=[one[j][3] for j in idx], whole=whole))

    def fit(self):
        """What the surrogates give at the points they were trained on, against the vortex lattice itself."""
        d = self.rng.choice(L.ALPHA)
        Ms = list(L.SUB[1:]) + (list(L.SUP) + [.95, 1.0, 1.04] if self.model == 'super' else [])
        vl = self.a.process.compute.lift.inviscid_wings
        b = SUAVE.Analyses.Aerodynamics.Vortex_Lattice()
        b.geometry = copy.deepcopy(self.v)
        b.initialize(False, 3, 2, False, False, False, False)
        look = lambda c: [(c.lift_breakdown.total, 1e5, 25)] + [(c.drag_breakdown.induced.inviscid, 1e8, 4000)] + \
            [(c.lift_breakdown.inviscid_wings[t], 1e5, 25) for t in self.wings()] + [(c.drag_breakdown.induced.inviscid_wings[t], 1e8, 4000) for t in self.wings()]
        sur, direct, tol = [], [], []
        def at(x, m):
            st = L.state([(3000, m, d)])
            x.evaluate(st, None, x.geometry)
            return look(st.conditions.aerodynamics)
        for m in Ms:
            one = at(vl, m)
            if .9 < m < 1.1:                            # between the regimes: from the last subsonic to the first supersonic point
                lo, hi = at(b, L.SUB[-1]), at(b, L.SUP[0]); f = (m - L.SUB[-1]) / (L.SUP[0] - L.SUB[-1])
                two = [((1 - f) * x[0] + f * y[0],) + x[1:] for x, y in zip(lo, hi)]
            else: two = at(b, m)
            for x, y in zip(one, two):
                sur.append(r(x[0], x[1])); direct.append(r(y[0], y[1])); tol.append(x[2])
        self.h.append(dict(op='fit', sur=sur, direct=direct, tol=tol))

    def forces(self):
        idx = self.some()
        n = len(idx)
        seg = Data(); seg.state = L.state([self.pts[j] for j in idx]); seg.conditions = seg.state.conditions
        seg.analyses = Data(); seg.analyses.aerodynamics = self.a
        q = [self.rng.choice([0, 500, 2500, 8000, 15000]) for _ in idx]
        seg.conditions.freestream.dynamic_pressure = np.array([[float(x)] for x in q])
        one = {}
        for j in set(idx):
            c, _ = self.run(self.a, [self.pts[j]])
            one[j] = (r(c.lift_coefficient, 1e5), r(c.drag_coefficient, 1e5))
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            CA.update_aerodynamics(seg)
        c = seg.conditions
        Lf, Df = c.frames.wind.lift_force_vector, c.frames.wind.drag_force_vector
        self.h.append(dict(op='forces', q=q, CL0=[one[j][0] for j in idx], CD0=[one[j][1] for j in idx],
                           CL=[r(x, 1e5) for x in c.aerodynamics.lift_coefficient], CD=[r(x, 1e5) for x in c.aerodynamics.drag_coefficient],
                           L=[r(x, 1) for x in Lf[:, 2]], D=[r(x, 1) for x in Df[:, 0]], plane=bool(not Lf[:, :2].any() and not Df[:, 1:].any())))

    def step(self):
        rng = self.rng
        op = rng.choice(['eval'] * 5 + ['add'] * 3 + ['drop', 'area', 'sref', 'set', 'set', 'set', 'fit', 'forces', 'forces'])
        out = [i for i in range(len(TAGS)) if i not in self.held]
        if self.model == 'stall': out = [i for i in out if TYPES[i] == 1]
        if op == 'add' and out: self.add(rng.choice(out))
        elif op == 'drop' and len(self.held) > 1: self.drop(rng.choice(self.held[1:]))
        elif op == 'area':
            i = rng.choice([i for i in self.held if TYPES[i] == 1])
            self.area(i, rng.choice([20, 40, 100, 150]))
        elif op == 'sref': self.ref(rng.choice([60, 90, 120, 200]))
        elif op == 'set':
            f = rng.choice(['inc', 'clmax'] if self.model == 'stall' else sorted(CHOICE))
            self.set(f, rng.choice(CHOICE[f]))
        elif op == 'fit' and self.model in ('zero', 'super'): self.fit()
        elif op == 'forces': self.forces()
        else: self.eval()


def history(arg):
    seed, model = arg
    rng = random.Random(seed)
    w = World(model, rng)
    for _ in range(rng.randrange(8, 20)): w.step()
    w.eval(); w.forces()
    return w.h


def replay(arg):
    """A behaviour of the specification: its kinds 1..5 are a wing, a tail, a body, a blended body and a nacelle of two places."""
    hist, model = arg
    w = World(model, random.Random(SEED), plain=True)
    kinds = [0, 1, 4, 5, 8]
    for o in hist:
        if o['op'] == 'add': w.add(kinds[o['k'] - 1])
        elif o['op'] == 'del': w.drop(kinds[o['k'] - 1])
        elif o['op'] == 'area': w.area(kinds[o['k'] - 1], o['a'])
        elif o['op'] == 'sref': w.ref(o['a'])
        else: w.set(o['f'], o['x'])
    w.eval([0, 3]); w.eval([5, 1, 6]); w.forces()
    return w.h


def main():
    c = Check('C13')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Adds Order Unit Monotone Limits'.split())
    c.model('AeroMC', tlc.run('AeroMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(N=tier(4, 5), Emit='FALSE'), workers=8))
    g = tlc.run('AeroMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(N=3, Emit='TRUE'), workers=1)
    beh = g.json_lines('HIST')
    c.rng.shuffle(beh)
    beh = beh[:tier(60, 1200)]
    c.count('spec_behaviours_replayed', len(beh))
    ms = ['zero', 'vlm', 'super', 'line']
    with mp.Pool(8) as pool:
        hs = pool.map(replay, [(b, ms[i % len(ms)]) for i, b in enumerate(beh)], chunksize=2)
        hs += pool.map(history, [(SEED * 9001 + i, MODELS[i % len(MODELS)]) for i in range(tier(112, 2500))], chunksize=2)
    c.count('evaluations', sum(1 for h in hs for e in h if e['op'] in ('eval', 'fit', 'forces')))
    c.sample([e['op'] for e in hs[-1]])
    trace.validate(c, 'AeroTrace', hs, chunk=600)
    c.assumptions += ['drag of one part alone, and lift of one wing in the company of the others, at a single flight state are taken as measured; the property is how parts, points and settings combine']
    c.finish()


if __name__ == '__main__':
    guard(main)
