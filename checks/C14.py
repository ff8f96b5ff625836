"""C14: a wing has one shape, however it is described (specs/Wing*.tla)."""
import contextlib, copy, io, multiprocessing as mp, random, warnings
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, SEED
import aerolib as L
from aerolib import Data, Units, Wings, SUAVE
from SUAVE.Methods.Geometry.Two_Dimensional.Planform import wing_planform, wing_segmented_planform, fuselage_planform, populate_control_sections
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.wing_segmented_planform import segment_properties
from SUAVE.Methods.Geometry.Two_Dimensional.Planform.rescale_non_dimensional import set_origin_dimensional, set_origin_non_dimensional
from SUAVE.Methods.Geometry.Three_Dimensional import angles_to_dcms, orientation_product, orientation_transpose, \
    compute_chord_length_from_span_location, compute_span_location_from_chord_length
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.VLM import VLM
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.generate_vortex_distribution import generate_vortex_distribution

CS = Wings.Control_Surfaces


def r(x, s):
    x = float(np.ravel(x)[0]) * s
    return int(round(x)) if np.isfinite(x) and abs(x) < 2e9 else 2000000000


def st(e, c, q=0, d=0, t=120):
    return dict(e=e, c=c, q=q, d=d, t=t)


class World(object):
    """One wing, as the specification and as SUAVE have it."""

    def __init__(self, w, rng, cls=Wings.Main_Wing, le=False):
        self.w, self.rng, self.cls, self.le = copy.deepcopy(w), rng, cls, le
        self.twist = [rng.choice([0., 2.]) * Units.deg] * len(w['st'])
        self.h = [dict(op='reset'), dict(op='wing', w=w)]
        # exact values, from which the wing is built
        self.e = [s['e'] / 1e4 for s in w['st']]
        self.c = [s['c'] / 1e4 for s in w['st']]
        self.k = rng.choice([1., 1., 1., .8, .5])       # part of the root chord that the first station has

    # -------- builders
    def plain(self):
        w, g = self.w, self.cls(); g.tag = 'main_wing'
        sides, semi = (2 if w['sym'] else 1), w['semi'] / 1e4
        g.areas.reference, g.spans.projected = sides * semi * sum(self.c) / 2, sides * semi
        g.aspect_ratio, g.taper, g.thickness_to_chord = g.spans.projected**2 / g.areas.reference, self.c[1] / self.c[0], w['st'][0]['t'] / 1e3
        g.sweeps.quarter_chord, g.dihedral = np.arctan(w['st'][0]['q'] / 1e3), np.arctan(w['st'][0]['d'] / 1e3)
        g.twists.root, g.twists.tip = self.twist[0], self.twist[-1]
        g.symmetric, g.vertical, g.origin = w['sym'], w['vert'], ([[1., .5, 0.]] if w['vert'] else [[1., 0., .5]])
        wing_planform(g)
        self.by = 'plain'
        return g

    def segmented(self, own=True):
        w, g = self.w, self.cls(); g.tag = 'main_wing'
        g.spans.projected, g.chords.root = (2 if w['sym'] else 1) * w['semi'] / 1e4, self.c[0] / self.k
        g.symmetric, g.vertical, g.origin = w['sym'], w['vert'], ([[1., .5, 0.]] if w['vert'] else [[1., 0., .5]])
        g.twists.root, g.twists.tip = self.twist[0], self.twist[-1]
        for k, s in enumerate(w['st']):
            q = Wings.Segment(); q.tag = 'section_%s' % 'abcdefghij'[k]
            q.percent_span_location, q.root_chord_percent, q.twist = self.e[k], self.c[k] / self.c[0] * self.k, self.twist[k]
            q.sweeps.quarter_chord, q.dihedral_outboard, q.thickness_to_chord = np.arctan(s['q'] / 1e3), np.arctan(s['d'] / 1e3), s['t'] / 1e3
            g.append_segment(q)
        if own: g.areas.reference = 0.
        wing_segmented_planform(g, overwrite_reference=own)
        self.by = 'segments'
        return g

    def build(self):
        return self.plain() if len(self.w['st']) == 2 and self.rng.random() < .5 else self.segmented()

    # -------- descriptions
    def split(self, i, e):
        """A station more, on the straight line between its neighbours (i counts from 1)."""
        w, a, b = self.w['st'], i - 1, i
        f = (e / 1e4 - self.e[a]) / (self.e[b] - self.e[a])
        for xs in (self.e, self.c, self.twist): xs.insert(b, xs[a] + f * (xs[b] - xs[a]))
        self.e[b] = e / 1e4
        w.insert(b, dict(w[a], e=e))
        self.h.append(dict(op='split', i=i, e=e))

    def drop(self, i):
        for xs in (self.e, self.c, self.twist, self.w['st']): xs.pop(i - 1)
        self.h.append(dict(op='drop', i=i))

    def mirror(self):
        self.w['sym'] = not self.w['sym']; self.h.append(dict(op='mirror'))

    def stretch(self, k):
        self.w['semi'] *= k; self.h.append(dict(op='stretch', k=k))

    def grow(self, k):
        self.c = [k * c for c in self.c]; self.h.append(dict(op='grow', k=k))

    # -------- what is recorded
    def shape(self, g=None, own=True):
        g = g or self.build()
        self.h.append(dict(op='shape', by=self.by, own=own, root=r(g.chords.root * (self.k if self.by == 'segments' else 1.), 1e4), tip=r(g.chords.tip, 1e4), taper=r(g.taper, 1e5), mac=r(g.chords.mean_aerodynamic, 1e4), mgc=r(g.chords.mean_geometric, 1e4),
                           le=r(np.tan(g.sweeps.leading_edge), 1e5), q=r(np.tan(g.sweeps.quarter_chord), 1e5), length=r(g.total_length, 1e4), true=r(g.spans.total, 1e4),
                           tc=r(g.thickness_to_chord, 1e5), ac=[r(x, 1e4) for x in g.aerodynamic_center], S=r(g.areas.reference, 1e4), wet=r(g.areas.wetted, 1e4), AR=r(g.aspect_ratio, 1e3)))
        return g

    def panels(self, o):
        g = self.segmented()
        g.exposed_root_chord_offset = o / 1e4
        S = g.areas.reference
        segment_properties(g, update_wet_areas=True, update_ref_areas=self.rng.random() < .5)
        P = list(g.Segments.values())[:-1]
        self.h.append(dict(op='panels', by=self.by, o=o, ref=[r(p.areas.reference, 1e4) for p in P], exp=[r(p.areas.exposed, 1e4) for p in P], wet=[r(p.areas.wetted, 1e4) for p in P],
                           mac=[r(p.chords.mean_aerodynamic, 1e4) for p in P], taper=[r(p.taper, 1e5) for p in P], S=r(g.areas.reference, 1e4), W=r(g.areas.wetted, 1e4)))

    def surfaces(self, spec):
        """spec: [(type, from, to, chord fraction, deflection)]"""
        g = self.segmented()
        s = self.attach(g, spec)
        populate_control_sections(g)
        got = []
        for p, q in enumerate(list(g.Segments.values())):
            for c in q.control_surfaces.values():
                k = [x.tag for x in g.control_surfaces].index(c.tag)
                o = g.control_surfaces[c.tag]
                got.append(dict(s=k + 1, p=p, a=r(c.span_fraction_start, 1e4), b=r(c.span_fraction_end, 1e4), span=r(c.span, 1e4),
                                kept=type(c) is type(o) and all(c[f] == o[f] for f in ('hinge_fraction', 'chord_fraction', 'sign_duplicate', 'deflection', 'configuration_type', 'gain'))))
        self.h.append(dict(op='surfaces', s=s, got=got))

    def attach(self, g, spec):
        res = []
        for k, (cls, a, b, cf, de) in enumerate(spec):
            c = cls(); c.tag = 'surface_%d' % k
            c.span_fraction_start, c.span_fraction_end, c.chord_fraction, c.deflection = a / 1e4, b / 1e4, cf, de * Units.deg
            c.span, c.hinge_fraction, c.gain = (b - a) / 1e4 * self.w['semi'] / 1e4, .1 * k, 1. + k
            g.append_control_surface(c)
            res.append(dict(a=a, b=b, span=r(c.span, 1e4)))
        return res

    def chord(self):
        g = self.plain()
        ys = [0, self.w['semi'] // 4, self.w['semi'] // 2, self.w['semi']]
        c = [compute_chord_length_from_span_location(g, y / 1e4) for y in ys]
        back = [y if g.taper == 1. else r(compute_span_location_from_chord_length(g, x), 1e4) for x, y in zip(c, ys)]
        self.h.append(dict(op='chord', y=ys, c=[r(x, 1e4) for x in c], back=back))

    def flap(self):
        g = self.plain()
        a, b, cf = self.rng.choice([0, 1000, 2000]), self.rng.choice([4000, 7000, 10000]), self.rng.choice([10, 25, 30])
        f = CS.Flap(); f.tag = 'flap'
        f.span_fraction_start, f.span_fraction_end, f.chord_fraction = a / 1e4, b / 1e4, cf / 100.
        g.append_control_surface(f); g.high_lift = True
        wing_planform(g)
        f = g.control_surfaces.flap
        self.h.append(dict(op='flap', a=a, b=b, cf=cf, affected=r(g.areas.affected, 1e4), area=r(f.area, 1e4), chord=r(f.chord_dimensional, 1e4)))

    def mesh(self, cs=()):
        g = self.build()
        for q in [g] + list(g.Segments.values()):
            if q is g: q.twists.root = q.twists.tip = 0.
            else: q.twist = 0.
        self.attach(g, cs)
        v = L.vehicle(g.areas.reference); v.append_component(g)
        D = quiet(lambda: generate_vortex_distribution(v, settings(bool(cs), self.rng.choice([2, 3]), self.rng.choice([24, 30]))))
        x = np.concatenate([D.XA1, D.XB1, D.XA2, D.XB2]); y = np.concatenate([D.YA1, D.YB1, D.YA2, D.YB2]); z = np.concatenate([D.ZA1, D.ZB1, D.ZA2, D.ZB2])
        if g.vertical: y, z = z, y
        x, z = x - 1., z - .5
        # the edges of every strip: where along the span, leading edge, chord, height
        F = lambda n, at: np.ravel(D[n])[np.ravel(at)]
        le, te, strips = D.leading_edge_indices, D.trailing_edge_indices, []
        if not cs:
            for k in 'AB':
                Y, Z = ('Z', 'Y') if g.vertical else ('Y', 'Z')
                for q in zip(F('X%s1' % k, le), F('X%s2' % k, te), F('%s%s1' % (Y, k), le), F('%s%s1' % (Z, k), le)):
                    strips.append([r(abs(q[2]), 1e4), r(q[0] - 1., 1e4), r(q[1] - q[0], 1e4), r(q[3] - .5, 1e4)])
            self.rng.shuffle(strips)
        self.h.append(dict(op='mesh', by=self.by, front=r(x.min(), 1e4), aft=r(x.max(), 1e4), out=r(y.max(), 1e4), up=r(z.max(), 1e4), mirror=r(y.min(), 1e4), area=r(np.sum(D.panel_areas), 1e4), strips=strips[:20]))


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        return f()


def settings(cs=False, ncw=2, nsw=5):
    s = SUAVE.Analyses.Aerodynamics.Vortex_Lattice().settings
    s.number_spanwise_vortices, s.number_chordwise_vortices, s.discretize_control_surfaces = nsw, ncw, cs
    s.propeller_wake_model, s.use_surrogate, s.model_fuselage, s.model_nacelle = False, False, False, False
    return s


def air(v, pts, cs=False, mesh=(2, 5)):
    """pts: (Mach, alpha, beta in degrees, pitch, roll, yaw rates)"""
    s = L.state([(1000, p[0], p[1]) for p in pts])
    c = s.conditions
    col = lambda k, u=1.: np.array([[p[k] * u] for p in pts])
    c.aerodynamics.side_slip_angle = col(2, np.pi / 180.)
    c.stability = Data(dynamic=Data(pitch_rate=col(3), roll_rate=col(4), yaw_rate=col(5)))
    q = quiet(lambda: VLM(c, settings(cs, *mesh), v))
    A = np.array(q.VD.wing_areas) / v.reference_area
    S = np.sum(q.CL_wing * A, axis=1), np.sum(q.CDi_wing * A, axis=1)                 # the wings and sides one by one
    return [[r(x[i], 1e6) for x in (q.CL, q.CDi, q.CM, q.CYTOT, q.CRMTOT, q.CYMTOT) + S] for i in range(len(pts))]


SECTIONS = [(0., 1., 25.), (.4, .7, 30.), (1., .4, 25.)]


class Air(object):
    """A vehicle in the wind, of which the lattice must give the same whatever it is called."""

    def __init__(self, rng):
        self.rng = rng
        self.flat, self.fin, self.segs = rng.random() < .4, rng.random() < .6, rng.random() < .4
        self.tw, self.canard, self.cs = rng.choice([0., 1., 3.]), rng.random() < .4, rng.random() < .4
        self.cg = rng.choice([0., 9.])
        n = rng.randrange(2, 5)
        one = lambda: (rng.choice([.1, .3, .6, .3, 1.4]), rng.choice([-4., 0., 2., 5., 9.]), rng.choice([0., 0., 3., -5.]),
                       rng.choice([0., 0., .1]), rng.choice([0., 0., .2]), rng.choice([0., 0., -.1]))
        self.pts = [one() for _ in range(n)]
        self.level = not any(p[2] or p[4] or p[5] for p in self.pts)
        self.mesh = rng.choice([(1, 9), (2, 8), (1, 11)])
        self.h = [dict(op='reset')]
        self.rec('first', air(self.veh(), self.pts, self.cs, self.mesh))

    def veh(self, k=1., dx=0., dz=0., order=None, sref=120., two=False):
        def wing(cls, tag, S, AR, x, z, tw=0., dih=0., sym=True, vert=False, segs=None):
            w = L.wing(cls, tag, S * k * k, AR, .4, 25., x=(x + dx) * k, twist=(tw, tw - 1. if tw else 0.), dihedral=dih, sym=sym, vert=vert, segs=segs)
            if segs is None: wing_planform(w)
            else: wing_segmented_planform(w)
            w.origin = [[(x + dx) * k, 0., (z + dz) * k]]
            return w
        tw, dih = (0., 0.) if self.flat else (self.tw, 5.)
        segs = SECTIONS if self.segs else None
        ws = [wing(Wings.Main_Wing, 'main_wing', 120, 8., 0., 0., tw, dih, segs=segs)]
        if two and not segs:                                        # the same wing, told by its two ends
            m = ws[0]
            for y, c, t in ((0., 1., m.twists.root), (1., m.taper, m.twists.tip)):
                g = Wings.Segment(); g.tag = 'end_%d' % y
                g.percent_span_location, g.root_chord_percent, g.twist, g.dihedral_outboard, g.thickness_to_chord = y, c, t, m.dihedral, .12
                g.sweeps.quarter_chord = m.sweeps.quarter_chord
                m.append_segment(g)
            wing_segmented_planform(m)
        if self.cs:
            for t, (cls, a, b, de) in enumerate(((CS.Flap, .1, .4, 0.), (CS.Aileron, .6, .9, 0.))):
                f = cls(); f.tag = 'surface_%d' % t
                f.span_fraction_start, f.span_fraction_end, f.chord_fraction, f.deflection = a, b, .25, (0. if self.flat else 5.) * Units.deg
                f.sign_duplicate = 1.
                ws[0].append_control_surface(f)
        ws.append(wing(Wings.Horizontal_Tail, 'tail', 30, 5., 15., 0. if self.flat else 1.))
        if self.canard: ws.append(wing(Wings.Wing, 'canard', 12, 6., -6., 0., dih=0.))
        if self.fin and not self.flat: ws.append(wing(Wings.Vertical_Tail, 'fin', 20, 1.8, 14., .5, sym=False, vert=True))
        v = L.vehicle(sref * k * k)
        v.mass_properties.center_of_gravity = [[(self.cg + dx) * k if self.cg else 0., 0., dz * k if self.cg else 0.]]
        for i in order or range(len(ws)): v.append_component(ws[i])
        self.n = len(ws)
        return v

    def rec(self, how, c, k=1):
        self.h.append(dict(op='air', how=how, c=c, k=k, level=bool(self.level)))

    def step(self):
        rng, m = self.rng, self.mesh
        how = rng.choice(['scale', 'shift', 'order', 'rows', 'one', 'two', 'beta', 'alpha', 'area', 'again'])
        if how == 'scale':
            k = rng.choice([2., .5])
            self.rec('same', air(self.veh(k=k), [p[:3] + tuple(x / k for x in p[3:]) for p in self.pts], self.cs, m))
        elif how == 'shift': self.rec('same', air(self.veh(dx=rng.choice([0., 7., 30.]), dz=rng.choice([0., 4., -9.])), self.pts, self.cs, m))
        elif how == 'order':
            o = list(range(self.n)); rng.shuffle(o)
            self.rec('same', air(self.veh(order=o), self.pts, self.cs, m))
        elif how == 'rows': self.rec('same', air(self.veh(), self.pts[::-1], self.cs, m)[::-1])
        elif how == 'one': self.rec('same', [air(self.veh(), [p], self.cs, m)[0] for p in self.pts])
        elif how == 'two': self.rec('same', air(self.veh(two=True), self.pts, self.cs, m))
        elif how == 'again':
            v = self.veh(); air(v, [(.2, 1., 0., 0., 0., 0.)], self.cs, m)
            self.rec('same', air(v, self.pts, self.cs, m))
        elif how == 'beta': self.rec('beta', air(self.veh(), [(p[0], p[1], -p[2], p[3], -p[4], -p[5]) for p in self.pts], self.cs, m))
        elif how == 'alpha' and self.flat:
            self.rec('alpha', air(self.veh(), [(p[0], -p[1], p[2], -p[3], -p[4], p[5]) for p in self.pts], self.cs, m))
        else:
            k = rng.choice([2, 3]); self.rec('area', air(self.veh(sref=120. * k), self.pts, self.cs, m), k)


def body(rng):
    h = [dict(op='reset')]
    for _ in range(3):
        f = SUAVE.Components.Fuselages.Fuselage()
        b = dict(seats=rng.choice([60, 120, 180, 360]), pitch=rng.choice([8000, 9000]), abreast=rng.choice([3, 4, 6]), nose=rng.choice([1500, 2000]), tail=rng.choice([2500, 3000]),
                 width=rng.choice([30000, 38000, 50000]), fore=rng.choice([0, 20000, 60000]), aft=rng.choice([0, 20000]))
        f.number_coach_seats, f.seat_pitch, f.seats_abreast, f.width, f.heights.maximum = b['seats'], b['pitch'] / 1e4, b['abreast'], b['width'] / 1e4, b['width'] / 1e4
        f.fineness.nose, f.fineness.tail, f.lengths.fore_space, f.lengths.aft_space, f.lengths.total = b['nose'] / 1e3, b['tail'] / 1e3, b['fore'] / 1e4, b['aft'] / 1e4, 0.
        for k in range(rng.randrange(1, 4)):
            if k: f.number_coach_seats = rng.choice([f.number_coach_seats, 7])        # the length says how many
            fuselage_planform(f)
            q = f.lengths
            h.append(dict(op='body', b=b, nose=r(q.nose, 1e4), tail=r(q.tail, 1e4), cabin=r(q.cabin, 1e4), total=r(q.total, 1e4), seats=int(f.number_coach_seats), wet=r(f.areas.wetted, 1e4)))
    # places as fractions of the length of the body
    v = L.vehicle(100., 0)
    f = SUAVE.Components.Fuselages.Fuselage(); f.tag = 'fuselage'; f.lengths.total = rng.choice([20., 38.]); f.origin = [[1., 0., -.5]]
    v.append_component(f)
    for k in range(rng.randrange(1, 4)):
        w = Wings.Wing(); w.tag = 'wing_%d' % k; w.origin = [[rng.uniform(-5, 20), rng.uniform(-4, 4), rng.uniform(-2, 5)]]
        v.append_component(w)
    at = lambda: [[r(x, 1e4) for x in c.origin[0]] for c in list(v.wings) + list(v.fuselages)]
    for k in (1000, rng.choice([500, 1500, 2000])):
        before = at()
        set_origin_non_dimensional(v); v.fuselages.fuselage.lengths.total *= k / 1e3
        if rng.random() < .5:
            for w in v.wings: w.origin = [[9., 9., 9.]]
        set_origin_dimensional(v)
        h.append(dict(op='place', k=k, before=before, after=at()))
    return h


def turn(rng):
    n = rng.randrange(1, 6)
    a, b = np.array([[rng.uniform(-3.1, 3.1) for _ in range(3)] for _ in range(n)]), np.array([[rng.uniform(-3.1, 3.1) for _ in range(3)] for _ in range(n)])
    if rng.random() < .3: a[0] = 0.
    u = np.array([[float(rng.randrange(-900, 900)) for _ in range(3)] for _ in range(n)])
    I = lambda T: [[[r(x, 1e4) for x in row] for row in M] for M in T]
    T, Q = angles_to_dcms(a), angles_to_dcms(b)
    return [dict(op='reset'), dict(op='rotate', T=I(T), one=[I(angles_to_dcms(a[k:k + 1]))[0] for k in range(n)], inv=I(orientation_transpose(T)), u=[[int(x) for x in y] for y in u],
                                   v=[[r(x, 1) for x in y] for y in orientation_product(T, u)], Q=I(Q), P=I(orientation_product(T, Q)))]


KINDS = [(False, True), (False, False), (True, False)]           # vertical, symmetric


def wing(rng):
    vert, sym = rng.choice(KINDS)
    n = rng.choice([2, 2, 3, 4])
    e = [0] + sorted(rng.sample([1000, 2500, 4000, 5000, 7000, 8500], n - 2)) + [10000]
    c = [rng.randrange(8, 90) * 1000]
    while len(c) < n: c.append(max(2000, int(c[-1] * rng.choice([1., .8, .5, .3]) // 100 * 100)))
    q, d, t = rng.choice([0, 200, 500]), rng.choice([0, 50, 100]), rng.choice([40, 80, 120, 150])
    same = rng.random() < .3
    return dict(semi=rng.randrange(20, 250) * 1000, sym=sym, vert=vert, root=0,
                st=[st(e[k], c[k], q if same or k == 0 else rng.choice([0, 300, 600, -200]), d if same or k == 0 else rng.choice([0, 100]), t if same else rng.choice([90, 120, 140])) for k in range(n)])


def history(arg):
    seed, kind = arg
    rng = random.Random(seed)
    if kind == 'air':
        a = Air(rng)
        for _ in range(rng.randrange(3, 7)): a.step()
        return a.h
    if kind == 'body': return body(rng)
    if kind == 'turn': return turn(rng)
    x = World(wing(rng), rng, rng.choice([Wings.Main_Wing, Wings.Wing, Wings.Horizontal_Tail]))
    if x.w['vert']: x.cls = Wings.Vertical_Tail
    for _ in range(rng.randrange(4, 11)): act(x, rng)
    x.shape(); x.mesh()
    return x.h


def act(x, rng):
    P = len(x.w['st']) - 1
    op = rng.choice(['shape', 'shape', 'split', 'split', 'drop', 'mirror', 'stretch', 'grow', 'panels', 'panels', 'surfaces', 'surfaces', 'chord', 'flap', 'mesh'])
    if op == 'split' and P < 6:
        i = rng.randrange(1, P + 1); a, b = x.w['st'][i - 1]['e'], x.w['st'][i]['e']
        if b - a >= 1000: x.split(i, (a + (b - a) * rng.choice([1, 2]) // 3) // 100 * 100)
    elif op == 'drop' and P > 1: x.drop(rng.randrange(2, P + 1))
    elif op == 'mirror' and not x.w['vert']: x.mirror()
    elif op == 'stretch' and x.w['semi'] < 200000: x.stretch(2)
    elif op == 'grow' and x.c[0] < 6.: x.grow(2)
    elif op == 'panels': x.panels(rng.choice([0, 0, int((x.e[1] * x.w['semi']) * .4)]))
    elif op == 'surfaces':
        cuts = sorted(set([s['e'] for s in x.w['st']] + [500, 1500, 3000, 6000, 9500]))
        spec = []
        for cls in rng.sample([CS.Flap, CS.Aileron, CS.Slat, CS.Elevator, CS.Rudder], rng.randrange(1, 4)):
            a, b = sorted(rng.sample(cuts, 2)); spec.append((cls, a, b, rng.choice([.1, .25]), rng.choice([0., -5., 10.])))
        x.surfaces(spec)
    elif op == 'chord' and P == 1: x.chord()
    elif op == 'flap' and P == 1: x.flap()
    elif op == 'mesh': x.mesh(rng.choice([(), [(CS.Flap, 1000, 6000, .25, 0.)], [(CS.Slat, 0, 8000, .1, 0.), (CS.Aileron, 6000, 9000, .2, 0.)]]))
    else: x.shape()


def replay(arg):
    """A behaviour of the specification."""
    b, k = arg
    rng = random.Random(SEED * 77 + k)
    x = World(b['w'], rng, Wings.Vertical_Tail if b['w']['vert'] else Wings.Main_Wing)
    x.shape()
    for o in b['h']:
        {'split': lambda: x.split(o['i'], o['e']), 'drop': lambda: x.drop(o['i']), 'mirror': x.mirror, 'stretch': lambda: x.stretch(o['k']), 'grow': lambda: x.grow(o['k'])}[o['op']]()
        x.shape()
    x.panels(0); x.surfaces([(CS.Flap, 0, 10000, .2, 5.), (CS.Slat, 2500, 6000, .1, 0.), (CS.Aileron, 5000, 9000, .2, 1.)]); x.mesh()
    return x.h


def main():
    c = Check('C14')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Describes Sided Scaled Bounds Whole Covered'.split())
    c.model('WingMC', tlc.run('WingMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(N=tier(2, 3), Emit='FALSE'), workers=8))
    beh = tlc.run('WingMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(N=tier(2, 3), Emit='TRUE'), workers=1).json_lines('HIST')
    beh = [b for b in beh if not (b['w0']['vert'] and (b['w0']['sym'] or any(o['op'] == 'mirror' for o in b['h'])))]    # a fin is one
    beh = [dict(w=b['w0'], h=b['h']) for b in beh]
    c.rng.shuffle(beh)
    beh = beh[:tier(120, 3000)]
    c.count('spec_behaviours_replayed', len(beh))
    kinds = ['wing', 'wing', 'wing', 'air', 'wing', 'body', 'wing', 'turn']
    with mp.Pool(8) as pool:
        hs = pool.map(replay, [(b, i) for i, b in enumerate(beh)], chunksize=2)
        hs += pool.map(history, [(SEED * 7001 + i, kinds[i % len(kinds)]) for i in range(tier(320, 8000))], chunksize=2)
    c.count('observations', sum(1 for h in hs for e in h if e['op'] not in ('reset', 'wing', 'split', 'drop', 'mirror', 'stretch', 'grow')))
    c.sample([e['op'] for e in hs[-8]])
    trace.validate(c, 'WingTrace', hs, chunk=600)
    c.assumptions += ['rotations of one row alone are rotations about the axes in the documented order; the lattice of the first call is the measure of all others']
    c.finish()


if __name__ == '__main__':
    guard(main)
