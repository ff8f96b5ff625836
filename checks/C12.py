"""C12: what engines, propellers and networks deliver together (specs/Propulsion*.tla)."""
import contextlib, copy, functools, io, multiprocessing as mp, os, random, tempfile, warnings
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, SEED
import enginelib as E
from enginelib import Networks, Data, SUAVE
from SUAVE.Methods.Missions.Segments.Common import Energy as CE, Weights as CW
from SUAVE.Methods.Utilities.Chebyshev import chebyshev_data
from SUAVE.Components.Energy import Distributors, Peripherals

MS = 1e6                                            # mass rates are recorded in mg/s, thrust in N, power in W
BP, SO, LC = Networks.Battery_Propeller, Networks.Solar, Networks.Lift_Cruise
DECKS = dict(turbofan=(E.turbofan, 'turbofan', {}, (10000, .8)), turbofan_b=(E.turbofan, 'turbofan', dict(bpr=8., tit=1600.), (9000, .75)),
             turbojet=(E.turbojet, 'turbojet', {}, (12000, 2.)), turbojet_after=(E.turbojet, 'turbojet', dict(after=True), (10000, .8)),
             ducted_fan=(E.ducted_fan, 'ducted_fan', {}, (3000, .3)), ramjet=(E.ramjet, 'ramjet', {}, (15000, 2.5)),
             scramjet=(E.scramjet, 'scramjet', {}, (25000, 6.)), battery_ducted_fan=(None, 'ducted_fan', {}, (3000, .3)))
SLOW = [(0, .1, .5), (0, .1, 1.), (1500, .2, .5), (1500, .2, 1.), (3000, .25, 1.2), (3000, .25, 1.), (500, .15, 0.), (500, .15, 1.), (2500, .22, .8), (2500, .22, 1.)]
FAST = [(12000, 2.3, 1.), (12000, 2.3, .5), (12000, 2.3, 1.25), (15000, 2.6, 1.), (15000, 2.6, .8), (14000, 2.4, 0.), (14000, 2.4, 1.)]
HYPER = [(25000, 5.6, 1.), (25000, 5.6, .5), (25000, 5.6, 1.2), (30000, 6.4, 1.), (30000, 6.4, .8)]
WORLDS = dict(deck=(['turbofan', 'turbofan_b', 'turbojet_after', 'ducted_fan', 'rocket', 'fuel', 'fuel_bare', 'cryo', 'table'], SLOW),
              fast=(['turbojet', 'ramjet', 'rocket', 'cryo'], FAST), hyper=(['scramjet', 'rocket', 'fuel_bare'], HYPER),
              bdf=(['battery_ducted_fan', 'turbofan', 'cryo'], SLOW),
              ic=(['prop0', 'prop1', 'prop2', 'turbofan', 'cryo'], SLOW[:6]), const=(['prop0', 'prop1', 'prop2', 'fuel'], SLOW[:6]),
              bp=(['prop0', 'prop1', 'prop2', 'turbofan_b', 'cryo'], SLOW[:6]), solar=(['prop0', 'prop1', 'prop2', 'fuel_bare'], SLOW[:6]),
              lift=(['prop0', 'prop1', 'prop2', 'rotor0', 'rotor1', 'rotor2', 'cryo'], SLOW[:6]))
CPS, RPMS = (.03, .05, .04), (2300., 2450., 2200.)


def points(world):
    return [(h, m, t, CPS[i // 2 % 3], RPMS[i // 2 % 3]) for i, (h, m, t) in enumerate(WORLDS[world][1])]


def full(pts):
    return [[q[:2] for q in pts].index(p[:2]) + [q[2] for q in pts if q[:2] == p[:2]].index(1.) + 1 for p in pts]


class Stub(Networks.Network):
    """A network as a user may write one: it reports what it has, no more."""
    def __defaults__(self):
        self.number_of_engines, self.kind = 1., 'fuel'

    def evaluate_thrust(self, state):
        t, n = state.conditions.propulsion.throttle, self.number_of_engines
        h = 1. + state.conditions.freestream.altitude / 10000.
        r = Data()
        r.thrust_force_vector = n * np.hstack([50000. * t * h, 0. * t, -4000. * t * h])
        r.vehicle_mass_rate = n * 2. * h * t
        if self.kind != 'fuel_bare': r.network_y_axis_rotation = 0. * t
        if self.kind == 'cryo':
            r.vehicle_additional_fuel_rate = n * .5 * h * t
            r.vehicle_fuel_rate = n * 1.5 * h * t
        return r


def table(pts):
    return [(float(h), m, t, 1000. * (20 + 3 * i), 1e-5 * (1 + .1 * i)) for i, (h, m, t) in enumerate(pts)]


def make(world, kind, n, kinds=None, same=True, load=0.):
    """A network of the kind (or of the propellers kinds) with n engines."""
    if kind in ('fuel', 'fuel_bare', 'cryo'):
        s = Stub(); s.kind, s.number_of_engines = kind, float(n)
        if kind == 'cryo': s.has_additional_fuel_type = True
        return s
    if kind == 'table':                             # an engine deck read from a file
        net = Networks.Propulsor_Surrogate(); net.number_of_engines, net.surrogate_type = float(n), 'knn'
        with tempfile.NamedTemporaryFile('w', suffix='.csv') as f:
            f.write('altitude,mach,throttle,thrust,sfc\n' + ''.join(','.join(map(repr, row)) + '\n' for row in table(SLOW)))
            f.flush()
            net.input_file = f.name
            net.build_surrogate()
        return net
    if kind == 'rocket':
        r = E.rocket(n, 80000.); E.size('rocket', r, 0., .1)
        return r
    if kind == 'battery_ducted_fan':
        b = Networks.Battery_Ducted_Fan()
        b.propulsor, b.battery, b.esc = E.ducted_fan(n, 1e5), E.Cell(), Distributors.Electronic_Speed_Controller()
        b.battery.mass_properties.mass, b.battery.max_energy, b.battery.max_voltage = 100., 1e12, 400.
        b.esc.efficiency, b.motor_efficiency, b.voltage = .95, .9, 400.
        b.avionics, b.payload = Peripherals.Avionics(), Peripherals.Payload()
        b.avionics.power_draw, b.payload.power_draw = load * .75, load * .25
        return b
    if kind in DECKS:
        f, _, kw, _ = DECKS[kind]
        return f(n, 1e5, **kw)
    ks = [int(k[-1]) for k in kinds]
    if world in ('ic', 'const'): net = E.combustion(n, ks, same, world == 'const')
    elif world == 'lift':
        net = E.electric(LC, (0, n) if kind[:5] == 'rotor' else (n, 0), ks, (same, same), load * .75, load * .25)
    else: net = E.electric(dict(bp=BP, solar=SO)[world], n, ks, same, load * .75, load * .25)
    return net


def inner(net):
    return net.propulsor if isinstance(net, Networks.Battery_Ducted_Fan) else net


def size(kind, net, total):
    b = inner(net); b.thrust.total_design = float(total)
    E.size(DECKS[kind][1], b, *DECKS[kind][3])


def r(x, k=1.):
    x = float(x) * k
    return int(round(x)) if abs(x) < 2e9 else 2000000000


def column(x, j, i=0):
    a = np.atleast_2d(np.asarray(x, float))
    return a[j, i] if a.shape[0] > 1 else a[0, j] if a.shape[1] > 1 and i == 0 else a[0, i]


def quantities(net, res, st):
    """[fx, fz, mass rate, power drawn, additional fuel, shaft power] of every state."""
    p, N, out = st.conditions.propulsion, st.conditions.freestream.altitude.shape[0], []
    shaft = draw = np.zeros(N)
    if isinstance(net, (Networks.Internal_Combustion_Propeller, Networks.Internal_Combustion_Propeller_Constant_Speed)): draw = p.power[:, 0]
    elif isinstance(net, Networks.Battery_Ducted_Fan): draw = -np.ravel(p.battery_power_draw)
    elif isinstance(net, Networks.Ducted_Fan): draw = np.ravel(res.power)
    elif isinstance(net, (BP, SO, LC)):
        draw = -p.battery_power_draw[:, 0]
        shaft = p.electronics_efficiency[:, 0] * draw
    F, m = res.thrust_force_vector, np.reshape(res.vehicle_mass_rate, (-1, 1))
    a = res.vehicle_additional_fuel_rate if 'vehicle_additional_fuel_rate' in res else m * 0.
    assert F.shape == (N, 3) and m.shape == (N, 1)
    return [[r(F[j, 0]), r(F[j, 2]), r(m[j, 0], MS), r(draw[j]), r(a[j, 0], MS), r(shaft[j])] for j in range(N)]


def look(world, net, pts):
    return look_kept(world, net, pts)[0]


def look_kept(world, net, pts):
    st = E.state(pts, omega=world == 'const')
    c = st.conditions
    given = lambda: [np.array(c.freestream[k]) for k in ('altitude', 'mach_number', 'velocity', 'density', 'pressure', 'temperature', 'speed_of_sound')] + [np.array(c.propulsion.throttle)]
    before = given()
    got = quantities(net, E.run(net, st), st)
    return got, all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, given()))


SLOTS = 3


@functools.lru_cache(None)
def units(world):
    kinds, _ = WORLDS[world]
    pts = points(world)
    U = []
    for k in kinds:
        rows = []
        for s in range(SLOTS if k[:4] in ('prop', 'roto') else 1):
            net = make(world, k, 1, [k])
            if k in DECKS: size(k, net, 1e5)
            if world == 'solar' and k[:4] == 'prop': net.solar_panel.efficiency = 0.
            row = []
            for p in pts:
                st = E.state([p], omega=world == 'const')
                pr = st.conditions.propulsion
                for c in ('propeller_power_coefficient', 'lift_rotor_power_coefficient'): pr[c] = pr[c][:, s:s + 1]
                row.append(quantities(net, E.run(net, st), st)[0])
            rows.append(row)
        U.append(rows)
    flux = []
    for p in pts:
        st = E.state([p]); s = E.Processes.Solar_Radiation(); s.solar_radiation(st.conditions)
        flux.append(r(np.ravel(s.outputs.flux)[0]))
    return dict(U=U, thr=[int(round(100 * p[2])) for p in pts], full=full(pts), lin=[k[:4] not in ('prop', 'roto', 'tabl') for k in kinds], flux=flux,
                add=[k == 'cryo' for k in kinds], tk=kinds.index('table') + 1 if 'table' in kinds else 0,
                table=[[r(T), r(T * sfc, MS)] for _, _, _, T, sfc in table(WORLDS[world][1])])


class World(object):
    def __init__(self, world, rng):
        self.world, self.rng = world, rng
        self.kinds, self.pts = WORLDS[world][0], points(world)
        self.nets, self.sp = [], []
        self.h = [dict(op='reset'), dict(op='units', w=units(world))]
        self.seg = None

    def deck(self, i):
        return self.sp[i]['kind'] in DECKS

    def slotted(self, i):
        return self.sp[i]['kind'][:4] == 'prop'

    def add(self, kind=None, n=None, ks=None):
        rng = self.rng
        kind = kind or rng.choice(self.kinds)
        if kind[:5] == 'rotor': kind = 'prop0'
        n = n or rng.choice([1, 2, 2, 3])
        load = rng.choice([0, 0, 400, 2000]) if self.world in ('bp', 'solar', 'lift', 'bdf') else 0
        g = dict(kinds=[self.kinds.index(kind) + 1], n=n, same=True, num=1, den=1)
        gs, gain = [g], 0
        if kind[:4] == 'prop':
            ks = ks or [rng.choice(['prop0', 'prop1', 'prop2']) for _ in range(SLOTS)]
            g.update(kinds=[self.kinds.index(k) + 1 for k in ks], same=rng.random() < .5)
            if self.world == 'lift':
                m, same = rng.choice([0, 1, 2, 3]), rng.random() < .5
                net = E.electric(LC, (n, m), [int(k[-1]) for k in ks], (g['same'], same), load * .75, load * .25)
                gs.append(dict(kinds=[self.kinds.index('rotor' + k[-1]) + 1 for k in ks], n=m, same=same, num=1, den=1))
            else: net = make(self.world, kind, n, ks, g['same'], load)
            if self.world == 'solar': gain = int(round(1000 * net.solar_panel.area * net.solar_panel.efficiency * net.solar_logic.MPPT_efficiency))
        else:
            net = make(self.world, kind, n, load=load)
            if kind not in ('battery_ducted_fan',): load = 0
        net.tag = 'net%d' % len(self.nets)
        self.nets.append(net)
        spec = dict(groups=gs, gain=gain, load=load)
        self.sp.append(dict(kind=kind, n=n, sized=kind not in DECKS, **{k: copy.deepcopy(v) for k, v in spec.items()}))
        self.h.append(dict(op='net', net=spec))
        i = len(self.nets) - 1
        if kind in DECKS: self.size(i)

    def size(self, i, tot=None):
        s, net, b = self.sp[i], self.nets[i], inner(self.nets[i])
        tot = tot or self.rng.choice([40, 100, 250])
        size(s['kind'], net, 1000. * tot)
        alt, mach = DECKS[s['kind']][3]
        st = E.conditions([(alt, mach, 1.)], gamma=s['kind'] in ('ramjet', 'scramjet'))
        wet, b.afterburner_active = b.get('afterburner_active', False), False          # sizing is without reheat
        d = E.run(b, st).thrust_force_vector[0, 0]
        b.afterburner_active = wet
        rest = float(np.ravel(b.sealevel_static_thrust)[0]) if b.sealevel_static_thrust is not None else np.nan
        sls = E.run(b, E.conditions([(0., .01, 1.)])).thrust_force_vector[0, 0] / s['n'] if rest == rest else 0.
        self.h.append(dict(op='size', i=i + 1, tot=tot, design=r(d), rest=r(rest) if rest == rest and rest > 0 else -1, sls=r(sls)))

    def n(self, i, n, k=0):
        s, net = self.sp[i], inner(self.nets[i])
        if self.world == 'lift' and s['kind'][:4] == 'prop':
            net['number_of_lift_rotor_engines' if k else 'number_of_propeller_engines'] = float(n)
        elif 'number_of_propeller_engines' in net: net.number_of_propeller_engines = float(n)
        else: net.number_of_engines = float(n)
        s['groups'][k]['n'] = n
        if not k: s['n'] = n
        self.h.append(dict(op='n', i=i + 1, k=k + 1, n=n))

    def same(self, i, b, k=0):
        self.nets[i]['identical_lift_rotors' if k else 'identical_propellers'] = b
        self.h.append(dict(op='same', i=i + 1, k=k + 1, b=b))

    def swap(self, i, j, kind, k=0):
        """Put another engine into place j (1..) of group k."""
        net, w = self.nets[i], self.world
        other = make(w, ('rotor' if k else 'prop') + kind[-1], 1, [kind] * j)
        pairs = dict(ic=('engines', 'propellers'), const=('engines', 'propellers'), bp=('propeller_motors', 'propellers'), solar=('motors', 'propellers'))
        for a in (pairs[w] if w != 'lift' else ('lift_rotor_motors', 'lift_rotors') if k else ('propeller_motors', 'propellers')):
            x, key = list(other[a].values())[j - 1], list(net[a].keys())[j - 1]
            x.tag = key; net[a][key] = x
        self.h.append(dict(op='swap', i=i + 1, k=k + 1, j=j, kind=self.kinds.index(('rotor' if k else 'prop') + kind[-1]) + 1))

    def load(self, i, load):
        self.nets[i].avionics.power_draw, self.nets[i].payload.power_draw = load * .25, load * .75
        self.h.append(dict(op='load', i=i + 1, load=load))

    def pick(self, most=5):
        return [self.rng.randrange(len(self.pts)) for _ in range(self.rng.randrange(1, most))]

    def eval(self, i):
        idx = self.pick()
        got, kept = look_kept(self.world, self.nets[i], [self.pts[j] for j in idx])
        qs = [1, 2, 3, 4] + ([6] if isinstance(self.nets[i], (BP, SO, LC)) else [])
        self.h.append(dict(op='eval', i=i + 1, pts=[j + 1 for j in idx], qs=qs, got=got, kept=kept, bdf=isinstance(self.nets[i], Networks.Battery_Ducted_Fan)))

    def out(self, i):
        idx = self.pick()
        st = E.state([self.pts[j] for j in idx])
        thr = st.conditions.propulsion.throttle * 1.
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            res = self.nets[i].engine_out(st)
        self.h.append(dict(op='out', i=i + 1, pts=[j + 1 for j in idx], got=quantities(self.nets[i], res, st),
                           kept=bool(np.array_equal(thr, st.conditions.propulsion.throttle))))

    def analysis(self, idx):
        a = SUAVE.Analyses.Energy.Energy()
        a.network = Networks.Network.Container()
        for i in idx: a.network.append(self.nets[i])
        return a

    def some(self):
        idx = list(range(len(self.nets))); self.rng.shuffle(idx)
        idx = idx[:self.rng.randrange(1, len(idx) + 1)]
        batteries = [i for i in idx if isinstance(self.nets[i], (BP, SO, LC, Networks.Battery_Ducted_Fan))]
        return [i for i in idx if i not in batteries[1:]]       # one battery per vehicle: the conditions have room for one

    def all(self):
        is_, idx = self.some(), self.pick()
        st = E.state([self.pts[j] for j in idx], omega=self.world == 'const')
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            res = self.analysis(is_).evaluate_thrust(st)
        split = 'vehicle_additional_fuel_rate' in res
        got = []
        for j in range(len(idx)):
            F = res.thrust_force_vector
            got.append([r(F[j, 0]), r(F[j, 2]), r(res.vehicle_mass_rate[j, 0], MS), r(res.vehicle_fuel_rate[j, 0], MS) if split else 0,
                        r(res.vehicle_additional_fuel_rate[j, 0], MS) if split else 0])
        self.h.append(dict(op='all', **{'is': [i + 1 for i in is_]}, pts=[j + 1 for j in idx], got=got, split=split))

    def burn(self):
        """A leg at one state: what the mission does with the container's answer."""
        is_, j, N = self.some(), self.rng.randrange(len(self.pts)), self.rng.randrange(3, 7)
        T = 4.
        st = E.state([self.pts[j]] * N, omega=self.world == 'const')
        x, D, I = chebyshev_data(N)
        st.numerics.time.control_points, st.numerics.time.differentiate, st.numerics.time.integrate = np.reshape(x, (-1, 1)) * T, D / T, I * T
        w = st.conditions.weights
        m0 = 1000. * self.rng.randrange(5, 50)
        w.total_mass = m0 * np.ones((N, 1))
        w.fuel_mass, w.additional_fuel_mass = np.zeros((N, 1)), np.zeros((N, 1))
        seg = Data(); seg.state, seg.analyses, seg.conditions = st, Data(), st.conditions
        seg.analyses.energy = self.analysis(is_)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            CE.update_thrust(seg); CW.update_weights(seg)
        t = [T * k for k in (0., 1.)]
        ends = (0, N - 1)
        g = st.conditions.frames.inertial.gravity_force_vector
        F = st.conditions.frames.body.thrust_force_vector
        W = bool(np.allclose(g[:, 2], w.total_mass[:, 0] * st.conditions.freestream.gravity[:, 0], rtol=1e-10) and not g[:, :2].any())
        self.h.append(dict(op='burn', **{'is': [i + 1 for i in is_]}, p=j + 1, t=[int(a) for a in t], lost=[r(m0 - w.total_mass[k, 0], MS) for k in ends],
                           fuel=[r(-w.fuel_mass[k, 0], MS) for k in ends], more=[r(-w.additional_fuel_mass[k, 0], MS) for k in ends],
                           weight=W, thrust=[r(F[-1, 0]), r(F[-1, 2])]))

    def step(self):
        rng = self.rng
        if not self.nets or (len(self.nets) < 3 and rng.random() < .25): return self.add()
        i = rng.randrange(len(self.nets)); s = self.sp[i]
        op = rng.choice(['eval'] * 3 + ['all', 'all', 'n', 'n', 'burn', 'size', 'same', 'swap', 'out', 'out', 'load'])
        k = rng.randrange(len(s['groups']))
        if op == 'n': self.n(i, rng.choice([1, 2, 3]) if k == 0 else rng.choice([0, 1, 2, 3]), k)
        elif op == 'size' and self.deck(i): self.size(i)
        elif op == 'same' and self.slotted(i): self.same(i, rng.random() < .5, k)
        elif op == 'swap' and self.slotted(i): self.swap(i, rng.randrange(1, SLOTS + 1), 'prop%d' % rng.randrange(3), k)
        elif op == 'out' and hasattr(self.nets[i], 'engine_out'): self.out(i)
        elif op == 'load' and (isinstance(self.nets[i], (BP, SO, LC, Networks.Battery_Ducted_Fan))): self.load(i, rng.choice([0, 300, 1600]))
        elif op == 'all': self.all()
        elif op == 'burn': self.burn()
        else: self.eval(i)


def history(arg):
    seed, world = arg
    rng = random.Random(seed)
    w = World(world, rng)
    for _ in range(rng.randrange(6, 16)): w.step()
    for i in range(len(w.nets)): w.eval(i)
    return w.h


def replay(arg):
    """A behaviour of the specification, on networks of slots (propellers) or sized engines."""
    hist, world = arg
    w = World(world, random.Random(SEED))
    for o in hist:
        if o['op'] == 'net':
            if world in ('deck', 'fast', 'bdf'): w.add(w.kinds[(o['ks'][0] - 1) % len(w.kinds)] if world != 'deck' else ['turbofan', 'turbojet_after'][o['ks'][0] - 1], 2)
            else: w.add('prop0', 2, ['prop%d' % (k - 1) for k in o['ks']])
        elif o['op'] == 'n': w.n(o['i'] - 1, o['n'])
        elif o['op'] == 'same' and w.slotted(o['i'] - 1): w.same(o['i'] - 1, o['b'])
        elif o['op'] == 'size' and w.deck(o['i'] - 1): w.size(o['i'] - 1, o['t'])
        w.eval(o['i'] - 1)
    w.all()
    return w.h


def main():
    c = Check('C12')
    inv = ''.join('INVARIANT %s\n' % x for x in 'OneByOne Order Lost Sized FuelSplit'.split())
    c.model('PropulsionMC', tlc.run('PropulsionMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(N=tier(4, 5), Emit='FALSE'), workers=8))
    g = tlc.run('PropulsionMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(N=4, Emit='TRUE'), workers=1)
    beh = g.json_lines('HIST')
    c.rng.shuffle(beh)
    beh = beh[:tier(90, 900)]
    c.count('spec_behaviours_replayed', len(beh))
    ws = ['deck', 'ic', 'const', 'bp', 'solar', 'lift']
    with mp.Pool(8) as pool:
        hs = pool.map(replay, [(b, ws[i % len(ws)]) for i, b in enumerate(beh)], chunksize=3)
        names = sorted(WORLDS) + ['deck', 'deck', 'bp']
        hs += pool.map(history, [(SEED * 7001 + i, names[i % len(names)]) for i in range(tier(180, 3000))], chunksize=3)
    c.count('evaluations', sum(1 for h in hs for e in h if e['op'] in ('eval', 'all', 'out', 'burn', 'size')))
    c.sample([e['op'] for e in hs[-1]])
    trace.validate(c, 'PropulsionTrace', hs, chunk=600)
    c.assumptions += ['what one engine alone delivers at a flight state is taken from evaluating it alone; the property is how engines, networks and states combine']
    c.finish()


if __name__ == '__main__':
    guard(main)
