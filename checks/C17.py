"""C17: the weight statement adds up and is what the parts carry (specs/Masses*.tla)."""
import contextlib, copy, io, math, multiprocessing as mp, os, random, sys, warnings
import numpy as np
import SUAVE, tlc, trace
from SUAVE.Core import Units, Data
from SUAVE.Methods.Weights.Correlations import BWB, General_Aviation
from SUAVE.Methods.Weights.Correlations.Common import empty_weight
from SUAVE.Methods.Center_of_Gravity import (compute_component_centers_of_gravity as places, compute_mission_center_of_gravity as mission_cg,
                                             compute_fuel_center_of_gravity_longitudinal_range as fuel_range)
from vcore import Check, guard, tier, worker, SEED

warnings.filterwarnings('ignore')
np.seterr(all='ignore')
METHODS = ['SUAVE', 'New SUAVE', 'FLOPS Simple', 'FLOPS Complex', 'Raymer']
ACC = ['short-range', 'medium-range', 'long-range', 'business', 'cargo', 'commuter', 'sst', 'other']
W = SUAVE.Components.Wings
BASE = {}


def dec(x):
    x = float(np.ravel(x)[0])
    if not math.isfinite(x): return [999, 99]
    if abs(x) < 1e-200: return [0, 0]
    e = math.floor(math.log10(abs(x))) - 6
    m = int(round(x / 10.**e))
    if abs(m) > 9999999: m, e = int(round(m / 10.)), e + 1
    if abs(m) < 1000000: m, e = m * 10, e - 1
    return [m, e]


def bases():
    """Vehicles of the regression scripts, built once."""
    here = os.getcwd()
    top = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(SUAVE.__file__)))), 'regression', 'scripts')
    if not os.path.isdir(top): top = '/repo/regression/scripts'
    sys.path.insert(0, os.path.join(top, 'Vehicles'))
    os.chdir(os.path.join(top, 'weights'))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for m in ['Boeing_737', 'Cessna_172', 'BWB', 'Electric_Multicopter', 'Stopped_Rotor', 'Tiltwing']:
                BASE[m] = __import__(m).vehicle_setup()
    finally:
        os.chdir(here)


WINGS = [dict(area=12500, span=34.3, taper=.1, sweep=25., tc=.10, root=7.8, mac=4.2, ox=13.6, ac=0., flap=.3),
         dict(area=9300, span=28.7, taper=.3, sweep=22., tc=.12, root=5.0, mac=3.6, ox=11.1, ac=.9, flap=.2),
         dict(area=30000, span=48., taper=.2, sweep=33., tc=.11, root=10., mac=7.2, ox=20., ac=1.5, flap=.25)]
FUS = [dict(total=38.02, nose=6.4, width=3.74, height=3.74, wet=385.), dict(total=28., nose=4.1, width=3.0, height=3.3, wet=250.), dict(total=55., nose=9., width=5.6, height=5.4, wet=800.)]
TAILS = [dict(area=3248, span=14.2, sweep=.43, tc=.1, x=32.8), dict(area=2000, span=10., sweep=.3, tc=.12, x=27.), dict(area=5100, span=19., sweep=.6, tc=.09, x=50.)]
THRUST = [60000., 107000., 240000.]


def new_params(rng):
    def net():
        n = rng.choice([1, 2, 2, 3, 4])
        return dict(n=n, t=rng.randrange(3), pre=rng.choice([0, 0, 0, 3500, 9100]), xs=[rng.randrange(500, 4000) for _ in range(n)], len=rng.randrange(150, 500))
    g, mt = rng.randrange(3), rng.randrange(20000, 200000)
    return dict(mtow=mt, zf=mt - rng.randrange(2000, 15000), pax=rng.choice([0, 4, 5, 6, 49, 50, 51, 79, 80, 120, 149, 150, 170, 249, 250, 299, 301, 360, rng.randrange(400)]),
                cargo=rng.choice([0, 0, 1000, 430, 12000]), acc=rng.choice(ACC), ctl=rng.choice(['fully powered', 'partially powered', 'manual']),
                rng=rng.choice([600, 900, 901, 1500, 2900, 2950, 5000]), sref=rng.choice([WINGS[g]['area'], WINGS[g]['area'] + 500]), swing=WINGS[g]['area'], wing=g, fus=rng.randrange(3),
                tails=[dict(kind=k, shape=s, area=TAILS[s]['area']) for k, s in [(rng.choice('hhv'), rng.randrange(3)) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]],
                nets=[net() for _ in range(rng.choice([1, 1, 1, 2]))])


def build(p, v=None):
    """A vehicle with these parameters, from the 737 of the regression scripts; or that vehicle changed to them."""
    v = copy.deepcopy(BASE['Boeing_737']) if v is None else v
    mp_ = v.mass_properties
    mp_.max_takeoff = mp_.takeoff = float(p['mtow']); mp_.max_zero_fuel = float(p['zf']); mp_.cargo = float(p['cargo'])
    v.passengers, v.systems.accessories, v.systems.control = p['pax'], p['acc'], p['ctl']
    v.reference_area, v.design_range, v.flap_ratio = p['sref'] / 100., p['rng'] * Units.nmi, .3
    w, s = v.wings.main_wing, WINGS[p['wing']]
    w.areas.reference, w.areas.wetted, w.spans.projected, w.taper, w.thickness_to_chord = s['area'] / 100., 1.8 * s['area'] / 100., s['span'], s['taper'], s['tc']
    w.chords.root, w.chords.tip, w.chords.mean_aerodynamic, w.aspect_ratio = s['root'], s['root'] * s['taper'], s['mac'], s['span']**2 / s['area'] * 100.
    w.sweeps.quarter_chord, w.origin, w.aerodynamic_center, w.flap_ratio = s['sweep'] * Units.deg, [[s['ox'], 0., -.9]], [s['ac'], 0., 0.], s['flap']
    for k in [k for k, x in v.wings.items() if k != 'main_wing']: del v.wings[k]
    for i, t in enumerate(p['tails']):
        x, q = (W.Horizontal_Tail if t['kind'] == 'h' else W.Vertical_Tail)(), TAILS[t['shape']]
        x.tag = 'tail_%d' % i
        x.areas.reference, x.areas.wetted, x.areas.exposed, x.spans.projected, x.sweeps.quarter_chord = q['area'] / 100., 2. * q['area'] / 100., 1.5 * q['area'] / 100., q['span'], q['sweep']
        x.thickness_to_chord, x.taper, x.aspect_ratio, x.t_tail = q['tc'], .3, q['span']**2 / q['area'] * 100., False
        x.chords.root, x.chords.tip, x.chords.mean_aerodynamic = 4.7, 1.4, 3.3
        x.origin, x.aerodynamic_center = [[q['x'], 0., 1.]], [.2, 0., 0.]
        v.wings.append(x)
    f, s = v.fuselages.fuselage, FUS[p['fus']]
    f.lengths.total, f.lengths.nose, f.width, f.heights.maximum, f.areas.wetted, f.number_coach_seats = s['total'], s['nose'], s['width'], s['height'], s['wet'], p['pax'] // 2
    for k in list(v.networks.keys()): del v.networks[k]
    for i, n in enumerate(p['nets']):
        x = copy.deepcopy(BASE['Boeing_737'].networks.turbofan)
        x.tag, x.number_of_engines, x.sealevel_static_thrust, x.engine_length = 'turbofan%s' % ('_%d' % i if i else ''), n['n'], THRUST[n['t']], n['len'] / 100.
        x.origin = [[q / 100., 0. if j == n['n'] - 1 and n['n'] % 2 else (-1.)**j * (3. + j // 2), -1.] for j, q in enumerate(n['xs'])]
        x.wing_mounted = True
        if n['pre']: x.total_weight = float(n['pre'])
        v.networks.append(x)
    g = v.landing_gear
    g.main_strut_length, g.nose_strut_length, g.main_wheels, g.nose_wheels = 1.8, 1.3, 2, 2
    return v


def settings(f):
    s = SUAVE.Analyses.Weights.Weights_Transport().settings
    r = s.weight_reduction_factors
    r.main_wing, r.empennage, r.fuselage = f['wing'] / 1000., f['emp'] / 1000., f['fus'] / 1000.
    s.FLOPS.variable_sweep_factor = 1.
    return s


def masses(v):
    return dict(wing=dec(v.wings.main_wing.mass_properties.mass), tails=[dec(w.mass_properties.mass) for k, w in v.wings.items() if k != 'main_wing'],
                fuselage=dec(v.fuselages.fuselage.mass_properties.mass), nets=[dec(n.mass_properties.mass) for n in v.networks])


def inputs(v):
    m, w = v.mass_properties, v.wings.main_wing
    return repr([m.max_takeoff, m.takeoff, m.max_zero_fuel, m.cargo, v.passengers, v.reference_area, v.design_range, [(k, x.areas.reference, x.spans.projected, list(np.ravel(x.origin)), x.thickness_to_chord,
                 list(np.ravel(x.mass_properties.center_of_gravity))) for k, x in v.wings.items()],
                 [(n.number_of_engines, n.sealevel_static_thrust, len(n.origin)) for n in v.networks], v.fuselages.fuselage.lengths.total, v.fuselages.fuselage.width])


class World(object):
    def __init__(self, rng):
        self.rng, self.v, self.p, self.s, self.f, self.h = rng, {}, {}, {}, {}, [dict(op='reset')]
        for s in (1, 2): self.set(s, dict(wing=0, emp=0, fus=0))
        for v in (1, 2, 3): self.make(v, new_params(rng))

    def make(self, v, p): self.v[v], self.p[v] = build(p), p; self.h.append(dict(op='make', v=v, p=copy.deepcopy(p)))
    def set(self, s, f): self.s[s], self.f[s] = settings(f), f; self.h.append(dict(op='set', s=s, f=f))

    def reset(self, s, f):
        """the same settings object with other factors"""
        r = self.s[s].weight_reduction_factors
        r.main_wing, r.empennage, r.fuselage = f['wing'] / 1000., f['emp'] / 1000., f['fus'] / 1000.
        self.f[s] = f
        self.h.append(dict(op='set', s=s, f=f))

    def edit(self, v, **kw):
        self.p[v] = dict(copy.deepcopy(self.p[v]), **kw)
        build(self.p[v], self.v[v])
        self.h.append(dict(op='edit', v=v, p=copy.deepcopy(self.p[v])))

    def copy(self, v, a):
        self.v[v], self.p[v] = copy.deepcopy(self.v[a]), copy.deepcopy(self.p[a])
        self.h.append(dict(op='copy', v=v, a=a))

    def weigh(self, v, s, method):
        p, veh = self.p[v], self.v[v]
        if method == 'FLOPS Complex' and (len(p['nets']) > 1 or any(n['pre'] for n in p['nets'])): method = 'FLOPS Simple'
        was, oth, fac = inputs(veh), repr([masses(x) for k, x in sorted(self.v.items()) if k != v]), copy.deepcopy(self.f[s])
        a = SUAVE.Analyses.Weights.Weights_Transport()
        with contextlib.redirect_stdout(io.StringIO()):
            if self.rng.random() < .5:
                a.vehicle, a.settings = veh, self.s[s]
                o = a.evaluate(method=method)
                given = veh.weight_breakdown is o and veh.mass_properties.operating_empty in (o.empty, o.operating_empty)
            else: o, given = empty_weight(veh, settings=self.s[s], method_type=method), True
        d = lambda g: {k: dec(x) for k, x in g.items()}
        got = dict(structures=d(o.structures), propulsion=d(o.propulsion_breakdown), systems=d(o.systems_breakdown), payload=d(o.payload_breakdown), oper=d(o.operational_items),
                   empty=dec(o.empty), operating_empty=dec(o.operating_empty), zero_fuel_weight=dec(o.zero_fuel_weight), fuel=dec(o.fuel), max_takeoff=dec(o.max_takeoff))
        y, g = veh.systems, veh.landing_gear
        comps = dict(masses(veh), sys={k: dec(y[k].mass_properties.mass) for k in 'control_systems electrical_systems avionics furnishings air_conditioner fuel apu hydraulics optionals'.split()},
                     pay={k: dec(veh.payload[k].mass_properties.mass) for k in ('passengers', 'baggage', 'cargo')}, gear=dict(main=dec(g.main.mass_properties.mass), nose=dec(g.nose.mass_properties.mass)))
        r = self.s[s].weight_reduction_factors
        kept = inputs(veh) == was and [r.main_wing, r.empennage, r.fuselage] == [fac[k] / 1000. for k in ('wing', 'emp', 'fus')]
        self.h.append(dict(op='weigh', v=v, s=s, method=method, got=got, comps=comps, kept=bool(kept), others=repr([masses(x) for k, x in sorted(self.v.items()) if k != v]) == oth, given=bool(given)))

    def balance(self, v):
        p, veh = self.p[v], self.v[v]
        places(veh)
        at = lambda c: dec(np.ravel(c.origin)[0] + np.ravel(c.mass_properties.center_of_gravity)[0])
        x = {k: at(veh.systems[k]) for k in 'control_systems electrical_systems avionics furnishings air_conditioner fuel apu hydraulics optionals'.split()}
        x.update({k: at(veh.payload[k]) for k in ('passengers', 'baggage', 'cargo')}, nose_gear=at(veh.landing_gear.nose), wing=at(veh.wings.main_wing), fuselage=at(veh.fuselages.fuselage))
        w, f, cm = WINGS[p['wing']], FUS[p['fus']], lambda q: int(round(q * 100))
        self.h.append(dict(op='balance', v=v, x=x, L=cm(f['total']), nose=cm(f['nose']), fus=cm(f['total']), wing=dict(o=cm(w['ox']), ac=cm(w['ac']), mac=cm(w['mac'])),
                           nets=dict(m=[dec(n.mass_properties.mass) for n in veh.networks], xs=[n['xs'] for n in p['nets']], len=[n['len'] for n in p['nets']])))

    def tanks(self):
        rng = self.rng
        v, ts = SUAVE.Vehicle(), []
        ws = [W.Main_Wing(), W.Wing()]
        fu = SUAVE.Components.Fuselages.Fuselage()
        for i, w in enumerate(ws): w.tag = 'w%d' % i; v.append_component(w)
        v.append_component(fu)
        for i in range(rng.randrange(1, 6)):
            t = SUAVE.Components.Energy.Storages.Fuel_Tanks.Fuel_Tank()
            q = dict(c=rng.choice([1, 40, 300, 777, 2500, 9000]), x=rng.choice([0, 3, 12, -4, rng.randrange(50)]), i=i)
            t.tag, t.mass_properties.fuel_mass_when_full, t.mass_properties.center_of_gravity = 't%d' % i, float(q['c']), np.array([[float(q['x']), 0., 0.]])
            rng.choice(ws + [fu]).Fuel_Tanks.append(t)
            ts.append((t, q))
        m, lo, hi = fuel_range(v)
        js = sorted(set(rng.sample(range(1, 50), 12)) | {49})
        kept = all(t.mass_properties.fuel_mass_when_full == q['c'] and t.mass_properties.center_of_gravity[0][0] == q['x'] for t, q in ts)
        self.h.append(dict(op='tanks', tanks=[q for t, q in ts], at=[dict(m=dec(m[j]), lo=dec(lo[j]), hi=dec(hi[j])) for j in js], kept=bool(kept)))

    def mission(self):
        rng = self.rng
        v = SUAVE.Vehicle()
        v.fuel = SUAVE.Components.Physical_Component()
        zcg, fcg, fo = [np.array([[rng.uniform(-5, 40), rng.uniform(-1, 1), rng.uniform(-2, 2)]]) for _ in range(3)]
        zf, fu = rng.uniform(1e3, 1e5), rng.choice([0., rng.uniform(1, 5e4)])
        v.mass_properties.zero_fuel_center_of_gravity, v.mass_properties.max_zero_fuel, v.fuel.mass_properties.center_of_gravity, v.fuel.origin = zcg, zf, fcg, fo
        cg = mission_cg(v, fu)
        d = lambda a: [dec(q) for q in np.ravel(a)]
        self.h.append(dict(op='mission', zf=dec(zf), fuel=dec(fu), zcg=d(zcg), fcg=d(fcg), fo=d(fo), cg=d(cg)))

    def plain(self, name, mtow=None, pax=None, times=1):
        v = copy.deepcopy(BASE[name])
        if mtow: v.mass_properties.max_takeoff *= mtow / 100.
        if pax is not None: v.passengers = pax
        if name == 'Cessna_172':       # a second look with the fuel the statement left would be of another vehicle
            times = 1
        for _ in range(times):
            with contextlib.redirect_stdout(io.StringIO()):
                e = getattr(self, 'of_' + ('ga' if name == 'Cessna_172' else 'bwb' if name == 'BWB' else 'evtol'))(v)
            e.update(op='plain', name='%s %s %s' % (name, mtow, pax), mtow=dec(v.mass_properties.max_takeoff))
            self.h.append(e)

    def statement(self, v, o, carried, lost=()):
        d = lambda g, skip=(): {k: dec(x) for k, x in g.items() if k not in skip}
        m = lambda c: c.mass_properties.mass
        carried += [[m(v.payload[k]), o.payload_breakdown[k]] for k in ('passengers', 'baggage', 'cargo')]
        y = o.systems_breakdown
        carried += [[m(v.control_systems), y.control_systems], [m(v.electrical_systems), y.electrical], [m(v.furnishings), y.furnish], [m(v.avionics), y.avionics + y.instruments],
                    [m(v.hydraulics), y.hydraulics], [m(v.fuel), o.fuel]]
        return dict(lost=[dec(q) for q in lost], groups=dict(structures=d(o.structures), systems=d(y), payload=d(o.payload_breakdown), oper=d(o.operational_items)), got=dict(empty=dec(o.empty)),
                    parts=[dec(o.structures.total), dec(o.propulsion_breakdown.total), dec(y.total)], carried=[[dec(a), dec(b)] for a, b in carried],
                    chain=[[dec(a), dec(b), dec(c)] for a, b, c in ((o.operating_empty, o.empty, o.operational_items.total), (o.zero_fuel_weight, o.operating_empty, o.payload_breakdown.total),
                                                                  (v.mass_properties.max_takeoff, o.zero_fuel_weight, o.fuel))])

    def of_ga(self, v):
        o = General_Aviation.empty(v)
        m = lambda c: c.mass_properties.mass
        s = o.structures
        return self.statement(v, o, lost=[o.propulsion_breakdown.total, m(list(v.networks)[0]), o.propulsion_breakdown.fuel_system], carried=[[m(v.wings.main_wing), s.wing], [m(v.wings.horizontal_stabilizer), s.horizontal_tail], [m(v.wings.vertical_stabilizer), s.vertical_tail], [m(v.fuselages.fuselage), s.fuselage],
                                     [m(v.landing_gear.main), s.main_landing_gear], [m(v.landing_gear.nose), s.nose_landing_gear], [m(list(v.networks)[0]), o.propulsion_breakdown.total]])

    def of_bwb(self, v):
        if self.rng.random() < .5:
            a = SUAVE.Analyses.Weights.Weights_BWB()
            a.vehicle = v
            o = a.evaluate()
        else: o = BWB.empty(v)
        m, s = lambda c: c.mass_properties.mass, o.structures
        e = self.statement(v, o, [[m(v.wings.main_wing), s.wing], [m(v.fuselages.fuselage_bwb), s.fuselage], [m(list(v.networks)[0]), o.propulsion_breakdown.total], [m(v.apu), o.systems_breakdown.apu],
                                  [m(v.landing_gear.main), s.main_landing_gear], [m(v.landing_gear.nose), s.nose_landing_gear],
                                  [m(v.optionals), o.operational_items.operating_items_less_crew], [m(v.air_conditioner), o.systems_breakdown.air_conditioner]])
        return e

    def of_evtol(self, v):
        a = SUAVE.Analyses.Weights.Weights_eVTOL()
        a.vehicle = v
        o = a.evaluate()
        m = lambda c: c.mass_properties.mass
        S = lambda it: float(sum(it))
        nets = list(v.networks)
        ws = S(m(w) for w in v.wings if not w.symbolic)
        one = lambda *x: {'p%d' % i: dec(q) for i, q in enumerate(x)}
        props = [c for n in nets for c in n.propellers]
        lifts = [c for n in nets for c in (n.lift_rotors if 'lift_rotors' in n else [])]
        rot, seen = [], set()
        for c in props + lifts:
            if id(c) not in seen: seen.add(id(c)); rot.append(c)
        g = dict(structural=dict(one(o.lift_rotors, o.propellers, o.hubs, o.fuselage, o.landing_gear, o.total_wing_weight), total=dec(o.structural)),
                 wings=dict({k: dec(x) for k, x in o.wings.items()}, total=dec(o.total_wing_weight)), motors=dict(one(o.lift_rotor_motors, o.propeller_motors), total=dec(o.motors)),
                 total=dict(one(o.empty, o.payload, o.passengers), total=dec(o.total)))
        batt, pay = S(m(n.battery) for n in nets), S(m(n.payload) for n in nets)
        parts = [1.1 * q for q in (o.structural, o.seats, o.avionics, o.ECS, o.motors, o.servos, o.wiring, o.BRS)] + [o.battery]
        tail = o.tail_rotor if 'tail_rotor' in o else 0.
        carried = [(o.battery, batt), (o.payload, pay), (o.total_wing_weight, ws), (m(v.fuselages.fuselage), o.fuselage + o.passengers + o.seats + o.wiring + o.BRS),
                   (S(m(c) for c in rot), o.lift_rotors + o.propellers + o.hubs + o.servos - tail), (o.passengers, 70. * v.passengers), (o.seats, 15. * v.passengers), (o.ECS, 7. * v.passengers),
                   (o.landing_gear, .02 * v.mass_properties.max_takeoff), (v.mass_properties.operating_empty, o.empty)]
        return dict(lost=[], groups=g, got=dict(empty=dec(o.empty)), parts=[dec(q) for q in parts], chain=[], carried=[[dec(a_), dec(b)] for a_, b in carried])


@worker
def history(seed):
    rng = random.Random(seed)
    w = World(rng)
    weighed = set()
    for _ in range(rng.randrange(6, 14)):
        v, a, s = rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 3)
        op = rng.choice(['weigh'] * 7 + ['edit'] * 3 + ['copy', 'set', 'reset', 'balance', 'balance', 'tanks', 'mission'])
        f = dict(wing=rng.choice([0, 50, 200, 370]), emp=rng.choice([0, 100, 250]), fus=rng.choice([0, 150, 333]))
        if op == 'weigh': w.weigh(v, s, rng.choice(METHODS)); weighed.add(v)
        elif op == 'edit':
            q, k = new_params(rng), rng.choice(['pax', 'cargo', 'acc', 'ctl', 'mtow', 'rng', 'tails', 'tails', 'nets', 'zf', 'fus'])
            if k == 'mtow': w.edit(v, mtow=q['mtow'], zf=q['zf'])
            elif k == 'zf': w.edit(v, zf=w.p[v]['mtow'] - rng.randrange(1000, 9000))
            elif k == 'tails' and rng.random() < .6: w.edit(v, tails=rng.sample(w.p[v]['tails'], len(w.p[v]['tails'])) + q['tails'][:1])
            else: w.edit(v, **{k: q[k]})
        elif op == 'copy':
            w.copy(v, a)
            if a in weighed: weighed.add(v)
            else: weighed.discard(v)
        elif op in ('set', 'reset'): getattr(w, op)(s, f)
        elif op == 'balance':
            if v not in weighed or w.h[-1]['op'] == 'edit': w.weigh(v, s, rng.choice(METHODS)); weighed.add(v)
            w.balance(v)
        else: getattr(w, op)()
    return w.h


@worker
def replay(arg):
    b, k = arg
    w = World(random.Random(SEED * 31 + k))
    keep = lambda: {x: b['p'][x] for x in ('pax', 'cargo', 'acc', 'ctl', 'rng', 'mtow')}
    w.edit(1, zf=36000, wing=0, swing=12500, sref=12000, nets=[dict(n=2, t=k % 3, pre=0, xs=[1372, 1372], len=271)], **keep())
    w.weigh(1, 1, METHODS[k % 5])
    w.copy(2, 1)
    for o in b['h']:
        if o == 'board': w.edit(1, pax=w.p[1]['pax'] + 50)
        elif o == 'load': w.edit(1, cargo=w.p[1]['cargo'] + 3000)
        else: w.edit(1, acc=o)
        w.weigh(1, 1 + k % 2, METHODS[k % 5])
    w.weigh(2, 1, METHODS[k % 5])
    w.balance(1)
    return w.h


@worker
def others(seed):
    rng = random.Random(seed)
    w = World(rng)
    for _ in range(3):
        name = rng.choice(['Cessna_172', 'BWB', 'BWB', 'Electric_Multicopter', 'Stopped_Rotor', 'Tiltwing'])
        mt, pax = rng.choice([100, 120, 90]), rng.choice([None, 1, 2, 5, 60])
        w.plain(name, mt, pax, rng.choice([1, 2]))
        if rng.random() < .5: w.plain(name, mt, pax)
    return w.h


def main():
    c = Check('C17')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Within Full Ordered PaySum SysPos GearShare TailFree'.split())
    c.model('MassesMC', tlc.run('MassesMC', 'SPECIFICATION Spec\n%sPROPERTY Grows\nCHECK_DEADLOCK FALSE\n' % inv, consts=dict(D=tier(2, 4), Emit='FALSE'), workers=8))
    beh = tlc.run('MassesMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(D=tier(2, 3), Emit='TRUE'), workers=1).json_lines('HIST')
    c.rng.shuffle(beh)
    beh = beh[:tier(100, 1500)]
    c.count('spec_behaviours_replayed', len(beh))
    bases()
    with mp.Pool(8) as pool:
        hs = pool.map(replay, [(b, i) for i, b in enumerate(beh)], chunksize=2)
        hs += pool.map(history, [SEED * 7001 + i for i in range(tier(260, 6000))], chunksize=2)
        hs += pool.map(others, [SEED * 503 + i for i in range(tier(40, 600))], chunksize=1)
    for e in (e for h in hs for e in h): c.count('op_' + e['op'])
    c.sample([e['op'] for e in hs[-50]])
    trace.validate(c, 'MassesTrace', hs, chunk=2500)
    c.assumptions += ['the correlations of wings, tails, fuselages, engines and of the FLOPS and Raymer systems are taken from the code: only what they may depend on is specified',
                      'the flap ratio is given to the vehicle, since the FLOPS methods overwrite the one of the wing otherwise']
    c.finish()


if __name__ == '__main__':
    guard(main)
