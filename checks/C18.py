"""C18: what is written is what was there, and reads back as that (specs/Store*.tla)."""
import contextlib, copy, datetime, io, json, math, multiprocessing as mp, os, random, re, shutil, tempfile, warnings
import xml.etree.ElementTree as ET
import numpy as np
import SUAVE, tlc, trace
from SUAVE.Core import Data, DataOrdered, Units
from SUAVE.Input_Output import D3JS, FreeMind, XML
from SUAVE.Input_Output.SUAVE.archive import archive
from SUAVE.Input_Output.SUAVE.load import load
from SUAVE.Input_Output.Results import print_mission_breakdown, print_weight_breakdown
from SUAVE.Input_Output.VTK.save_wing_vtk import save_wing_vtk
from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.generate_vortex_distribution import generate_vortex_distribution
from SUAVE.Analyses.Aerodynamics import Vortex_Lattice
from vcore import Check, guard, tier, worker, SEED

warnings.filterwarnings('ignore')
KEYS = ['a', 'b', 'c', 'mass', 'lift_coefficient', 'tag', 'area']
TEXTS = ['', 'wing', 'two words', '<&>"', 'a\nb', 'caf\u00e9', 'null', '1.5', ' edge ', "it's", '{}', '[1, 2]']


def some(x): return 1


def kind(a): return dict(i='i', u='i', f='f', b='b', U='s', c='c', O='o')[a.dtype.kind]


def txt(c, x): return str(int(x)) if c == 'i' else repr(float(x)) if c == 'f' else str(bool(x)) if c == 'b' else ascii(str(x))[1:-1] if c == 's' else repr(x)


def node(t, c='', s=(), v=(), k=(), e=(), x=''): return dict(t=t, c=c, s=list(s), v=list(v), k=list(k), e=list(e), x=ascii(x)[1:-1])


def enc(v):
    """What a value is, read off the value alone."""
    if v is None: return node('none', x=str(v))
    if isinstance(v, (np.generic, np.ndarray)):
        c = kind(v)
        if c in 'co': return node('bad', x=str(v))
        if isinstance(v, np.ndarray): return node('arr', c, v.shape, [txt(c, q) for q in v.ravel()], x=str(v))
        return node('np', c, (), [txt(c, v)], x=str(v))
    if isinstance(v, bool): return node('bool', v=[str(v)], x=str(v))
    if isinstance(v, int): return node('int', v=[str(v)], x=str(v))
    if isinstance(v, float): return node('float', v=[repr(v)], x=str(v))
    if isinstance(v, str): return node('str', v=[txt('s', v)], x=v)
    if isinstance(v, (list, tuple)):
        a = np.array(v)
        return node('list', kind(a), a.shape, [txt(kind(a), q) for q in a.ravel()], e=[enc(q) for q in v], x=str(v))
    if callable(getattr(v, 'keys', None)): return node('dict', type(v).__name__, k=list(v.keys()), e=[enc(v[q]) for q in v.keys()])
    if callable(v): return node('fn', x='function')
    return node('bad', x=str(v))


def value(rng, depth=0):
    one = lambda: rng.choice([0., -0., 1., 1e-12, 1e300, .1, 1 / 3., -2.5e7, float(rng.randrange(-99, 99)), float('inf')])
    k = rng.randrange(22 if depth < 3 else 17)
    if k < 2: return one()
    if k == 2: return rng.choice([0, 1, -7, 2**40, 10**20])
    if k == 3: return rng.choice([True, False, None])
    if k in (4, 5): return rng.choice(TEXTS)
    if k in (6, 7): return np.array([one() for _ in range(rng.randrange(4))])
    if k == 8: return np.array([[one() for _ in range(rng.randrange(1, 3))]] * rng.randrange(1, 4))
    if k == 9: return np.array([rng.randrange(-9, 9) for _ in range(rng.randrange(4))])
    if k == 10: return np.array([rng.random() < .5 for _ in range(3)])
    if k == 11: return [[one(), one(), one()] for _ in range(rng.randrange(1, 3))]
    if k == 12: return rng.choice([[], [1, 2, 3], [1.5], ['a', 'b'], [True, False], [1, 2.5], [[1], [2]]])
    if k == 13: return rng.choice([np.float64(one()), np.int64(7), np.float32(.5), np.bool_(True), np.bool_(False), np.int32(-3), np.array(2.5), np.array(4), np.str_('x')])
    if k == 14: return rng.choice([(1, 2), (1.5,), (), ('a', 'b'), ((1., 2.), (3., 4.))])
    if k == 15: return rng.choice([some, math.sin, lambda q: q])
    if k == 16: return np.zeros((rng.choice([1, 2]), rng.choice([0, 1]), 3)) if rng.random() < .5 else np.array(rng.choice([['a'], ['ab', '']]))
    d = rng.choice([Data, Data, DataOrdered, dict])()
    for q in rng.sample(KEYS, rng.randrange(4)): d[q] = rng.choice(TEXTS[:6]) if q == 'tag' else value(rng, depth + 1)
    return d


def shape(d): return json.dumps(enc(d))


class World(object):
    def __init__(self, rng, d):
        self.rng, self.d, self.v, self.x, self.h = rng, d, {}, {}, [dict(op='reset')]

    def make(self, k, x=None):
        if x is None:
            x = Data()
            for q in self.rng.sample(KEYS, self.rng.randrange(6)): x[q] = self.rng.choice(['one', 'two words']) if q == 'tag' else value(self.rng)
        self.v[k] = x
        self.h.append(dict(op='make', k=k, x=enc(x)))

    def spot(self, k):
        d, p = self.v[k], []
        while True:
            subs = [q for q in d.keys() if callable(getattr(d[q], 'keys', None))]
            if not subs or self.rng.random() < .5: return d, p
            q = self.rng.choice(subs); d = d[q]; p.append(q)

    def edit(self, k):
        d, p = self.spot(k)
        q = self.rng.choice(KEYS[:5])
        x = value(self.rng, len(p) + 1) if self.rng.random() < .95 else self.rng.choice([np.array([1 + 2j]), np.array([1j, 2.])])
        d[q] = x
        self.h.append(dict(op='edit', k=k, p=p + [q], x=enc(x)))

    def drop(self, k):
        d, p = self.spot(k)
        if not len(d.keys()): return
        q = self.rng.choice(list(d.keys()))
        del d[q]
        self.h.append(dict(op='drop', k=k, p=p + [q]))

    def look(self, k): self.h.append(dict(op='look', k=k, got=enc(self.v[k])))
    def path(self, f): return os.path.join(self.d, str(f))

    def write(self, k, f):
        was, old = shape(self.v[k]), open(self.path(f), 'rb').read() if os.path.exists(self.path(f)) else None
        try: archive(self.v[k], self.path(f)); ok = True
        except TypeError: ok = False
        new = open(self.path(f), 'rb').read() if os.path.exists(self.path(f)) else None
        self.h.append(dict(op='write', k=k, f=f, ok=ok, same=old == new, kept=shape(self.v[k]) == was))

    def load(self, k, f):
        e = dict(op='load', k=k, f=f, ok=True)
        try: self.v[k] = load(self.path(f)); e['got'] = enc(self.v[k])
        except (FileNotFoundError, ValueError): e['ok'] = False
        self.h.append(e)

    def tree(self, k, way):
        rng, x = self.rng, self.v[k]
        t, p, root = enc(x), self.path('tree'), rng.choice(['output', 'data', 'results'])
        if way == 'd3':
            # lists inside lists, functions and the like print as they print
            D3JS.save_tree(x, p, *([] if root == 'output' else [root]))
            def read(q): return dict(n=ascii(q['name'])[1:-1], e=[read(z) for z in q.get('children', [])])
            got = read(json.load(open(p)))
        else:
            FreeMind.save(x, p)
            def read(q): return dict(n=ascii(q.get('TEXT'))[1:-1], e=[read(z) for z in q])
            got = dict(read(ET.parse(p).getroot()), n=ET.parse(p).getroot().tag)
        self.h.append(dict(op='tree', k=k, way=way, root=root, tree=t, got=got))

    # ---- XML
    def xml(self, d=0):
        x = XML.Data()
        x.tag = self.rng.choice(['node', 'wing', 'a', 'b_1'])
        for q in self.rng.sample(['id', 'TEXT', 'size'], self.rng.randrange(3)): x.attributes[q] = self.rng.choice(TEXTS + ['v'])
        x.content = self.rng.choice(TEXTS)
        if d < 3: x.elements = [self.xml(d + 1) for _ in range(self.rng.choice([0, 0, 1, 2, 3]))]
        return x

    def xenc(self, x, bare=False):
        return dict(g=x.tag, a=sorted([k, ascii(v)[1:-1]] for k, v in x.attributes.items()), x=ascii(x.content.strip() if bare else x.content)[1:-1], e=[self.xenc(q, bare) for q in x.elements])

    def xmake(self, k): self.x[k] = self.xml(); self.h.append(dict(op='xmake', k=k, x=self.xenc(self.x[k])))

    def xedit(self, k):
        x, p = self.x[k], []
        while x.elements and self.rng.random() < .6:
            i = self.rng.randrange(len(x.elements)); x = x.elements[i]; p.append(i + 1)
        w = self.rng.randrange(3)
        if w == 0: x.content = self.rng.choice(TEXTS)
        elif w == 1: x.attributes.id = self.rng.choice(TEXTS)
        else: y = x.new_element('part'); y.content = self.rng.choice(TEXTS)
        self.h.append(dict(op='xedit', k=k, p=p, x=self.xenc(x)))

    def xwrite(self, k, f):
        was = self.xenc(self.x[k])
        XML.save(self.x[k], self.path('x%d' % f))
        self.h.append(dict(op='xwrite', k=k, f=f, kept=self.xenc(self.x[k]) == was, whole=was))
        # content is read back without the white space around it
        self.h[-1]['bare'] = self.xenc(self.x[k], True)

    def xload(self, k, f):
        if not os.path.exists(self.path('x%d' % f)): return
        self.x[k] = XML.load(self.path('x%d' % f))
        self.h.append(dict(op='xload', k=k, f=f, got=self.xenc(self.x[k])))

    def xdict(self, k, v):
        t = enc(self.v[v])
        self.x[k] = XML.Data.from_dict(self.v[v])
        self.h.append(dict(op='xdict', k=k, v=v, tree=t, got=self.xenc(self.x[k]), bare=self.xenc(self.x[k])))

    def xlook(self, k): self.h.append(dict(op='xlook', k=k, got=self.xenc(self.x[k])))
    def xfind(self, k): self.h.append(dict(op='xfind', k=k, tag='wing', got=[ascii(q.content)[1:-1] for q in self.x[k].get_elements('wing')]))


def scratch(fn):
    def go(*a):
        d = tempfile.mkdtemp(prefix='c18_')
        try: return fn(d, *a)
        finally: shutil.rmtree(d)
    return go


@scratch
def _store(d, seed):
    rng = random.Random(seed)
    w = World(rng, d)
    for k in (1, 2, 3): w.make(k)
    for _ in range(rng.randrange(8, 18)):
        k, f = rng.randrange(1, 4), rng.randrange(1, 3)
        op = rng.choice(['edit', 'edit', 'edit', 'drop', 'write', 'write', 'write', 'load', 'load', 'look', 'd3', 'fm', 'make'])
        if op in ('d3', 'fm'):
            if flat(w.v[k]): w.tree(k, op)
        elif op in ('write', 'load'): getattr(w, op)(k, f)
        else: getattr(w, op)(k)
    for k in (1, 2, 3): w.look(k)
    return w.h


def flat(d):
    """Values whose text is theirs alone: no addresses of functions, no names in capitals."""
    return all(flat(v) if callable(getattr(v, 'keys', None)) else not (callable(v) or isinstance(v, tuple)) for v in (d[q] for q in d.keys()))


@scratch
def _xml(d, seed):
    rng = random.Random(seed)
    w = World(rng, d)
    for k in (1, 2): w.xmake(k)
    for _ in range(rng.randrange(6, 16)):
        k, f = rng.randrange(1, 3), rng.randrange(1, 3)
        op = rng.choice(['xedit', 'xedit', 'xwrite', 'xwrite', 'xload', 'xload', 'xlook', 'xfind', 'xdict'])
        if op in ('xwrite', 'xload'): getattr(w, op)(k, f)
        elif op == 'xdict':
            w.make(3)
            while not flat(w.v[3]) or 'tag' in w.v[3] or '"c": "dict"' in shape(w.v[3]): w.make(3)
            w.xdict(k, 3)
        else: getattr(w, op)(k)
    for k in (1, 2): w.xlook(k)
    return w.h


@scratch
def _replay(d, arg):
    """A behaviour of the model, on real values."""
    h, seed = arg
    rng = random.Random(seed)
    w = World(rng, d)
    real = lambda x: {'list': [1, 2], 'bad': np.array([1 + 2j]), 'fn': some, 'dict': Data(p=np.int64(7))}[x['t']]
    for k in (1, 2): w.make(k, Data(a=1, b=Data(p=np.int64(7))))
    w.make(3, Data())
    for o in h:
        if o['op'] == 'edit':
            t = w.v[o['k']]
            for q in o['p'][:-1]: t = t[q]
            x = real(o['x']); t[o['p'][-1]] = x
            w.h.append(dict(op='edit', k=o['k'], p=o['p'], x=enc(x)))
        elif o['op'] == 'drop':
            t = w.v[o['k']]
            for q in o['p'][:-1]: t = t[q]
            del t[o['p'][-1]]
            w.h.append(dict(op='drop', k=o['k'], p=o['p']))
        elif o['op'] == 'write': w.write(o['k'], o['f'])
        else: w.load(o['k'], o['f'])
        w.look(o['k'])
    w.look(1); w.look(2)
    return w.h


@worker
def replay(arg): return _replay(arg)
@worker
def history(seed): return _store(seed)
@worker
def xhistory(seed): return _xml(seed)


def milli(x): return int(round(float(x) * 1000))


# ---- printed reports
@scratch
def _report(d, seed):
    rng = random.Random(seed)
    m = lambda: rng.choice([0., float(rng.randrange(0, 90000)), rng.uniform(0, 90000)])
    def group(names):
        g = Data()
        names = list(names); rng.shuffle(names)
        for q in names[:rng.randrange(1, len(names) + 1)]: g[q] = m()
        g.total = m()
        if rng.random() < .5: x = m(); g.other_part = x
        return g
    c = Data(mass_properties=Data(), systems=Data(accessories=rng.choice(['short-range', 'cargo']), control='fully powered'), weight_breakdown=Data())
    want = []
    for k, t in [('max_takeoff', 'Maximum Takeoff Weight'), ('max_landing', 'Maximum Landing Weight'), ('max_zero_fuel', 'Maximum Zero Fuel Weight'), ('max_fuel', 'Maximum Fuel Weight'), ('max_payload', 'Maximum Payload Weight')]:
        c.mass_properties[k] = m()
        if c.mass_properties[k]: want.append((t, c.mass_properties[k]))
    b = c.weight_breakdown
    b.structures, b.propulsion_breakdown, b.systems_breakdown = group(['wing', 'fuselage', 'main_landing_gear', 'nacelle']), group(['engines', 'fuel_system']), group(['apu', 'furnish', 'air_conditioner'])
    b.operational_items, b.payload_breakdown = group(['flight_crew', 'flight_attendants']), group(['passengers', 'baggage', 'cargo'])
    b.empty, b.operating_empty, b.zero_fuel_weight = m(), m(), m()
    def lines(title, g): return [(title, g.total)] + [((q[0].upper() + q[1:]).replace('_', ' '), g[q]) for q in g.keys() if q != 'total']
    want += [('EMPTY WEIGHT', b.empty)] + lines('Total structural weight', b.structures) + lines('Total propulsion weight', b.propulsion_breakdown) + lines('Total system weight', b.systems_breakdown)
    want += [('OPERATING EMPTY WEIGHT', b.operating_empty)] + lines('Total operational items weight', b.operational_items)
    want += [('ZERO FUEL WEIGHT', b.zero_fuel_weight)] + lines('Total payload weight', b.payload_breakdown)
    was = shape(c)
    p = os.path.join(d, 'w')
    print_weight_breakdown(c, filename=p)
    got = [(q.group(1).strip(' .\t'), float(q.group(2))) for q in re.finditer(r'^([^:\n]*?):\s*(-?[\d.]+) kg$', open(p).read(), re.M)]
    return [dict(op='reset'), dict(op='report', want=[dict(name=n, n=[milli(x)]) for n, x in want], got=[dict(name=n, n=[milli(x)]) for n, x in got], kept=shape(c) == was)]


def knots(M, p, p0):
    d = p / p0
    ve = M * 340.294 * math.sqrt(d)
    k1, k2 = 1.727133242e-06, .2857142857
    return math.sqrt(((d * ((1 + k1 * ve**2 / d)**3.5 - 1) + 1)**k2 - 1) / k1)


@scratch
def _flight(d, seed):
    rng = random.Random(seed)
    si, add, n = rng.random() < .5, rng.random() < .3, rng.randrange(1, 5)
    p0 = float(SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(0).pressure[0, 0])
    r = Data(segments=DataOrdered())
    col = lambda *a: np.array([[float(q)] for q in a])
    t, x, m, rows = rng.choice([0., 1000.]), 0., rng.uniform(2e4, 9e4), []
    t0, m0 = t, m
    for i in range(n):
        dt, dx = rng.choice([rng.uniform(60, 9e3), rng.uniform(2e4, 9e4)]), rng.uniform(0, 4e6)
        h0, h1, a, b = rng.uniform(0, 12e3), rng.uniform(0, 12e3), rng.uniform(0, 900), rng.uniform(0, 300) if add else 0.
        M0, M1, q0, q1 = rng.uniform(.1, .9), rng.uniform(.1, .9), rng.uniform(2e4, p0), rng.uniform(2e4, p0)
        mid = rng.random()
        s = Data(conditions=Data(frames=Data(inertial=Data(position_vector=np.array([[x, 0, -h0], [x + mid * dx, 0, -5.], [x + dx, 0, -h1]]), time=col(t, t + mid * dt, t + dt))),
                                 aerodynamics=Data(lift_coefficient=col(.1, .2, .3)), freestream=Data(mach_number=col(M0, .5, M1), pressure=col(q0, 1e4, q1)),
                                 weights=Data(total_mass=col(m, m - mid * (a + b), m - a - b), fuel_mass=col(0, -mid * a, -a), additional_fuel_mass=col(0, -mid * b, -b), has_additional_fuel=add)))
        r.segments['leg %d' % i if rng.random() < .5 else 'climb_%d' % i] = s
        ln, ds, sp = (1., 1e3, 1.) if si else (.3048, 1852., 1852. / 3600)
        rows.append(dict(name=list(r.segments.keys())[-1], n=[milli(q) for q in (h0 / ln, h1 / ln, m, m - a - b, dx / ds, dt / 60, knots(M0, q0, p0) / sp, knots(M1, q1, p0) / sp, M0, M1, a if add else a + b)] + ([milli(b)] if add else []),
                         dist=milli(dx / ds), main=milli(a), extra=milli(b)))
        t, x, m = t + dt, x + dx, m - a - b
    was = shape(r)
    p = os.path.join(d, 'm')
    print_mission_breakdown(r, filename=p, units='SI' if si else 'imperial')
    text = open(p).read()
    got = []
    for line in text.split('\n'):
        if re.match(r'^(leg|climb)[ _]\d', line):
            c = [q.strip() for q in line.split('|')]
            got.append(dict(name=c[0], n=[milli(q) for q in c[1:] if q]))
    num = lambda pat: (lambda q: milli(q.group(1)) if q else -1)(re.search(pat + r'\s+\(\S+\) \.+ \[?\s*(-?[\d.e+]+)', text))
    hm = re.search(r'Total Time\s+\(hh:mm\) \.+\s+(\d+):(\d+)', text)
    prec = [501, 501, 501, 501, 501, 51, 52, 52, 1, 1, 6] + ([6] if add else [])
    total = dict(range=num('Total Range'), main=num('Total Main Fuel'), extra=num('Total Additional Fuel'), fuel=num('Total Fuel'), h=int(hm.group(1)) if hm else -1, m=int(hm.group(2)) if hm else -1)
    return [dict(op='reset'), dict(op='flight', rows=rows, got=got, prec=prec, total=total, t0=0, t1=int(t - t0), m0=milli(m0), m1=milli(m), add=add, kept=shape(r) == was)]


# ---- surfaces
@scratch
def _mesh(d, seed):
    rng = random.Random(seed)
    v = SUAVE.Vehicle()
    v.reference_area = 20.
    for i in range(rng.randrange(1, 4)):
        w = [SUAVE.Components.Wings.Main_Wing, SUAVE.Components.Wings.Horizontal_Tail, SUAVE.Components.Wings.Vertical_Tail][i]()
        w.tag = 'wing%d' % i
        w.symmetric = i < 2 and rng.random() < .8
        w.vertical = i == 2
        w.areas.reference, w.spans.projected, w.taper = 10., rng.choice([6., 9.]), .5
        w.chords.root, w.chords.tip, w.chords.mean_aerodynamic = 2., 1., 1.5
        w.sweeps.quarter_chord, w.dihedral = rng.choice([0., .3]), rng.choice([0., .1])
        w.origin, w.twists.root, w.twists.tip = [[5. * i, 0., .5 * i]], 0., 0.
        w.aspect_ratio = w.spans.projected**2 / w.areas.reference
        if rng.random() < .5:
            for j, (at, ch) in enumerate([(0., 1.), (.4, .8), (1., .5)]):
                s = SUAVE.Components.Wings.Segment()
                s.tag, s.percent_span_location, s.root_chord_percent, s.twist, s.dihedral_outboard, s.sweeps.quarter_chord = 'part%d' % j, at, ch, 0., 0., .2
                w.append_segment(s)
        v.append_component(w)
    s = Vortex_Lattice().settings
    s.number_spanwise_vortices, s.number_chordwise_vortices = rng.choice([3, 4, 5]), rng.choice([1, 2, 3])
    s.spanwise_cosine_spacing = rng.random() < .5
    s.model_fuselage = s.model_nacelle = False
    v.vortex_distribution = generate_vortex_distribution(v, s)
    VD, h, off = v.vortex_distribution, [dict(op='reset')], np.array([0., rng.choice([0., 1.]), 0.])
    was, start = VD.XA1.copy(), 0
    names, rows = list(v.wings.keys()), np.hstack([0, np.cumsum(VD.n_cw * VD.n_sw)])
    half = 0
    for i, n in enumerate(names):
        p = os.path.join(d, n + '.vtk')
        save_wing_vtk(v, v.wings[n], s, p, Data(), 0, off)
        for side in (['_R', '_L'] if v.wings[n].symmetric else ['']):
            a, b = rows[half], rows[half + 1]; half += 1
            t = open(os.path.join(d, n + side + '_t0.vtk')).read()
            sec = lambda key: re.search(r'^%s ([\d ]+).*\n((?:[-\d.e+ ]+\n?)*)' % key, t, re.M)
            pts, cells, types = sec('POINTS'), sec('CELLS'), sec('CELL_TYPES')
            at = [[int(round(float(q) * 1e4)) for q in l.split()] for l in pts.group(2).strip().split('\n')]
            cell = [[int(q) for q in l.split()][1:] for l in cells.group(2).strip().split('\n')]
            # corners of panel j, clockwise from the front inboard one
            want = [[[int(round((float(VD[c + k][j]) + o) * 1e4)) for c, o in zip('XYZ', off)] for k in ('A1', 'A2', 'B2', 'B1')] for j in range(a, b)]
            data = [len(q.strip().split('\n')) for q in re.findall(r'LOOKUP_TABLE default\n((?:[-\d.e+]+\n?)+)', t)]
            h.append(dict(op='mesh', points=int(pts.group(1).split()[0]), at=at, cells=int(cells.group(1).split()[0]), size=int(cells.group(1).split()[1]), cell=cell,
                          types=len(types.group(2).strip().split('\n')), want=want, data=data, kept=bool((VD.XA1 == was).all())))
    return h


@worker
def report(seed): return _report(seed)
@worker
def flight(seed): return _flight(seed)
@worker
def mesh(seed):
    with contextlib.redirect_stdout(io.StringIO()): return _mesh(seed)


@scratch
def _objects(d, seed):
    """Whole objects of the library, written and read."""
    w = World(random.Random(seed), d)
    C = SUAVE.Components
    for i, o in enumerate([C.Wings.Main_Wing(), C.Fuselages.Fuselage(), C.Energy.Storages.Batteries.Constant_Mass.Lithium_Ion_LiNiMnCoO2_18650(), SUAVE.Vehicle(), SUAVE.Attributes.Gases.Air(),
                           SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics(), C.Energy.Networks.Turbofan()]):
        k = 1 + i % 3
        w.make(k, o); w.write(k, 1 + i % 2)
        if w.h[-1]['ok']: w.load(k, 1 + i % 2); w.write(k, 1); w.load(k, 1)
        else: w.look(k)
    return w.h


@worker
def objects(seed): return _objects(seed)


def main():
    c = Check('C18')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Once Held Loud Keys EditAt Trees'.split())
    c.model('StoreMC', tlc.run('StoreMC', 'SPECIFICATION Spec\nVIEW View\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(D=tier(4, 5), Emit='FALSE'), workers=8))
    beh = tlc.run('StoreMC', 'SPECIFICATION Spec\nVIEW View\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(D=tier(3, 4), Emit='TRUE'), workers=1).json_lines('HIST')
    c.rng.shuffle(beh)
    beh = beh[:tier(600, 6000)]
    c.count('spec_behaviours_replayed', len(beh))
    with mp.Pool(8) as pool:
        hs = pool.map(replay, [(b, SEED * 31 + i) for i, b in enumerate(beh)], chunksize=8)
        hs += pool.map(objects, [SEED], chunksize=1)
        hs += pool.map(history, [SEED * 9001 + i for i in range(tier(900, 12000))], chunksize=8)
        hs += pool.map(xhistory, [SEED * 9011 + i for i in range(tier(400, 6000))], chunksize=8)
        hs += pool.map(report, [SEED * 9013 + i for i in range(tier(100, 2000))], chunksize=8)
        hs += pool.map(flight, [SEED * 9029 + i for i in range(tier(200, 4000))], chunksize=8)
        hs += pool.map(mesh, [SEED * 9041 + i for i in range(tier(60, 1200))], chunksize=4)
    for op in ('write', 'load', 'xload', 'tree', 'report', 'flight', 'mesh'): c.count(op, sum(1 for h in hs for e in h if e['op'] == op))
    c.sample([e['op'] for e in hs[-500]])
    trace.validate(c, 'StoreTrace', hs, chunk=6000)
    c.assumptions += ['lists are rectangular and of one kind; XML names and text are such as XML can hold, without white space around the text']
    c.finish()


if __name__ == '__main__':
    guard(main)
