"""C19: estimates agree with the flights, speeds, fields, loads and costs they sum up (specs/Perf*.tla)."""
import contextlib, copy, io, math, multiprocessing as mp, os, random, re, shutil, tempfile, warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import SUAVE, tlc, trace
from SUAVE.Core import Data, DataOrdered, Units
from SUAVE.Methods.Performance.payload_range import payload_range
from SUAVE.Methods.Performance.electric_payload_range import electric_payload_range
from SUAVE.Methods.Performance.estimate_stall_speed import estimate_stall_speed
from SUAVE.Methods.Performance.estimate_take_off_field_length import estimate_take_off_field_length
from SUAVE.Methods.Performance.estimate_landing_field_length import estimate_landing_field_length
from SUAVE.Methods.Performance.find_take_off_weight_given_tofl import find_take_off_weight_given_tofl
from SUAVE.Methods.Performance.maximum_lift_to_drag import maximum_lift_to_drag
from SUAVE.Methods.Performance.propeller_range_endurance_speeds import propeller_range_endurance_speeds
from SUAVE.Methods.Performance.V_n_diagram import V_n_diagram
from SUAVE.Methods.Costs.Correlations.Industrial_Costs import compute_industrial_costs
from SUAVE.Methods.Aerodynamics.Fidelity_Zero.Lift import compute_max_lift_coeff
from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations import datcom
from SUAVE.Analyses.Mission.Segments.Conditions import Aerodynamics as Conditions
from vcore import Check, guard, tier, worker, SEED
from C15 import dec
from C18 import shape

warnings.filterwarnings('ignore')
plt.ioff()


def scratch(fn):
    """Each history in a folder of its own: these methods write where they stand."""
    def go(*a):
        d, was = tempfile.mkdtemp(prefix='c19_'), os.getcwd()
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()): return fn(*a)
        finally:
            os.chdir(was); shutil.rmtree(d); plt.close('all')
    return go


# ---- flights
class Mission(object):
    """A climb, a cruise and a descent that burn by mass and distance."""
    def __init__(self, rng, vehicle):
        leg = lambda: Data(distance=0., analyses=Data(weights=Data(vehicle=vehicle)))
        self.segments = DataOrdered()
        for n in ('climb', 'cruise', 'descent'): self.segments[n] = leg()
        self.segments.cruise.distance = rng.choice([500e3, 2000e3])
        self.up, self.rate, self.down, self.seen = rng.uniform(.005, .03), rng.uniform(2e-8, 6e-8), rng.uniform(.001, .01), []

    def evaluate(self):
        m0 = self.segments[0].analyses.weights.vehicle.mass_properties.takeoff
        d = self.segments.cruise.distance
        m1 = m0 * (1 - self.up); m2 = m1 * math.exp(-self.rate * d); m3 = m2 * (1 - self.down)
        x = [0., 150e3, 150e3 + d, 300e3 + d]
        r = Data(segments=DataOrdered())
        for i, n in enumerate(self.segments.keys()):
            a, b = [(m0, m1), (m1, m2), (m2, m3)][i]
            r.segments[n] = Data(conditions=Data(weights=Data(total_mass=np.array([[a], [.5 * (a + b)], [b]])),
                                                 frames=Data(inertial=Data(position_vector=np.array([[x[i], 0, -1.], [.5 * (x[i] + x[i + 1]), 0, -1.], [x[i + 1], 0, -1.]])))))
        self.seen.append((m0, m0 - m3, x[3], x[2]))
        return r


def masses(rng):
    oew = rng.uniform(20e3, 60e3)
    pld = oew * rng.uniform(.2, .5)
    mtow = oew + pld + oew * rng.uniform(.1, .6)
    return Data(operating_empty=oew, max_zero_fuel=oew + pld * rng.choice([.8, 1., 1.2]), max_takeoff=mtow, takeoff=mtow,
                max_payload=rng.choice([0., pld]), max_fuel=rng.choice([0., oew * rng.uniform(.15, .9)]))


def flat(r): return [[float(q) for q in x] for x in (r.range, r.payload, r.fuel, r.takeoff_weight)]


@scratch
def _diagram(seed):
    rng = random.Random(seed)
    h, before = [dict(op='reset')], []
    plt.show = lambda *a, **k: None
    for _ in range(rng.randrange(1, 3)):
        w = masses(rng)
        v = Data(mass_properties=w)
        m = Mission(rng, v)
        told = copy.deepcopy(w)
        res = rng.choice([0., 0., 1000., 1500.])
        r = payload_range(v, m, 'cruise', res)
        rows = flat(r)
        # the flight each range is read off: of those that went as far, the one at the mass told
        ends = [min([s for s in m.seen if abs(s[2] - x) <= 1e-6 * max(1., x)] or m.seen, key=lambda s: abs(s[0] - tow)) for x, tow in list(zip(rows[0], rows[3]))[1:]]
        text = open('PayloadRangeDiagram.dat').read()
        table = [[float(q) for q in l.split('|')[:4]] for l in text.split('\n') if re.match(r'^\s*-?\d+\s+\|', l)]
        file = len(table) == 4 and all(abs(t[0] - x / 1852.) <= .51 and all(abs(a - b) <= .51 for a, b in zip(t[1:], (p, f, tw))) for t, x, p, f, tw in zip(table, *rows))
        h.append(dict(op='diagram', oew=dec(told.operating_empty), mzfw=dec(told.max_zero_fuel), mtow=dec(told.max_takeoff), pld=dec(told.max_payload), fuel=dec(told.max_fuel), res=dec(res),
                      rows=[dict(range=dec(x), pld=dec(p), fuel=dec(f), tow=dec(t)) for x, p, f, t in zip(*rows)],
                      flown=[dict(tow=dec(s[0]), burn=dec(s[1]), range=dec(s[2])) for s in ends], kept=all(flat(q) == was for q, was in before), file=file))
        before.append((r, flat(r)))
    w = masses(rng)
    w.max_payload = w.max_payload or 5e3
    v = Data(mass_properties=w)
    m, unit = Mission(rng, v), rng.choice(['mile', 'nautical_mile', 'km'])
    r = electric_payload_range(v, m, 'cruise', display_plot=rng.random() < .2, unit=unit)
    h.append(dict(op='eline', oew=dec(w.operating_empty), mtow=dec(w.max_takeoff), pld=dec(w.max_payload), unit=dec({'mile': 1609.344, 'nautical_mile': 1852., 'km': 1000.}[unit]),
                  rows=[dict(range=dec(a), pld=dec(b), tow=dec(c)) for a, b, c in zip(r.range, r.payload, r.takeoff_weight)], flown=[dict(tow=dec(s[0]), range=dec(s[3])) for s in m.seen]))
    return h


# ---- speeds and fields
class Engines(SUAVE.Components.Energy.Networks.Network):
    def __defaults__(self):
        self.tag, self.F, self.number_of_engines, self.seen = 'engines', 2e5, 2, None

    def evaluate_thrust(self, state):
        f = state.conditions.freestream
        one = lambda x: float(np.ravel(x)[0])
        self.seen = dict(V=one(f.velocity), M=one(f.mach_number), q=one(f.dynamic_pressure), T=one(f.temperature), p=one(f.pressure), th=one(state.conditions.propulsion.throttle))
        T = self.F * (1 - .4 * self.seen['M']) * (self.seen['p'] / 101325.)**.8
        return Data(thrust_force_vector=np.array([[T, 0., 0.]]), vehicle_mass_rate=np.array([[1.]]))


def aircraft(rng):
    v = SUAVE.Vehicle()
    v.tag = 'thing'
    v.reference_area = rng.uniform(60., 200.)
    for i in range(rng.randrange(1, 3)):
        w = (SUAVE.Components.Wings.Main_Wing, SUAVE.Components.Wings.Horizontal_Tail)[i]()
        w.tag = ('main_wing', 'tail')[i]
        w.areas.reference = v.reference_area * (1., .25)[i]
        w.areas.affected = .6 * w.areas.reference
        w.thickness_to_chord, w.taper, w.aspect_ratio = rng.uniform(.1, .15), rng.uniform(.2, .6), rng.uniform(7, 11)
        w.sweeps.quarter_chord, w.chords.mean_aerodynamic, w.high_lift = rng.uniform(0, .5), rng.uniform(3., 5.), i == 0
        if i == 0 and rng.random() < .7:
            f = SUAVE.Components.Wings.Control_Surfaces.Flap()
            f.tag, f.deflection, f.chord_fraction, f.configuration_type = 'flap', rng.uniform(.1, .6), .3, 'double_slotted'
            w.append_control_surface(f)
        v.append_component(w)
    n = v.mass_properties
    n.operating_empty = rng.uniform(20e3, 40e3)
    n.max_takeoff = n.operating_empty * rng.uniform(1.4, 2.)
    n.takeoff, n.landing = n.max_takeoff * rng.uniform(.7, 1.), n.max_takeoff * rng.uniform(.6, .9)
    return v


@scratch
def _fields(seed):
    rng = random.Random(seed)
    h = [dict(op='reset')]
    v, atm = aircraft(rng), SUAVE.Analyses.Atmospheric.US_Standard_1976()
    nets = []
    for i in range(rng.choice([1, 1, 2])):
        n = Engines(); n.tag, n.F, n.number_of_engines = 'engines%d' % i, rng.uniform(1e5, 3e5), rng.choice([1, 2, 2, 3, 4, 6])
        v.append_component(n); nets.append(v.networks[n.tag])
    a = SUAVE.Analyses.Vehicle()
    aero = SUAVE.Analyses.Aerodynamics.Fidelity_Zero(); aero.geometry = v
    aero.settings.maximum_lift_coefficient_factor = rng.choice([1., .9])
    a.append(aero); a.append(atm)
    count = sum(n.number_of_engines for n in nets)
    for _ in range(3):
        airport = SUAVE.Attributes.Airports.Airport()
        airport.altitude, airport.delta_isa, airport.atmosphere = rng.choice([0., 0., 500., 2000.]), rng.choice([0., 15., -10.]), atm
        air = atm.compute_values(airport.altitude, airport.delta_isa)
        one = lambda x: float(np.ravel(x)[0])
        g = atm.planet.sea_level_gravity
        st = Data(conditions=Conditions())
        st.conditions.freestream = Data(density=air.density, velocity=90 * Units.knots, dynamic_viscosity=air.dynamic_viscosity)
        CL = one(compute_max_lift_coeff(st, aero.settings, v)[0])
        common = dict(g=dec(g), rho=dec(one(air.density)), a=dec(one(air.speed_of_sound)), T=dec(one(air.temperature)), p=dec(one(air.pressure)), S=dec(v.reference_area), CL=dec(CL))
        c = rng.choice([[], [], [300., 2., .0002]])
        k = rng.choice([1.2, 1.2, 1.13])
        if k != 1.2: v.V2_VS_ratio = k
        elif 'V2_VS_ratio' in v: del v['V2_VS_ratio']
        if c: v.takeoff_constants = np.array(c)
        elif 'takeoff_constants' in v: del v['takeoff_constants']
        was = shape(v.mass_properties)
        L = estimate_take_off_field_length(v, a, airport)
        F = sum(n.F * (1 - .4 * n.seen['M']) * (n.seen['p'] / 101325.)**.8 for n in nets)
        h.append(dict(common, op='takeoff', n=int(count), m=dec(v.mass_properties.takeoff), k=dec(k), c=[dec(q) for q in c], F=dec(F), L=dec(L), seen={q: dec(x) for q, x in nets[-1].seen.items()}, kept=shape(v.mass_properties) == was))
        c, k = rng.choice([[], [], [200., 1., .25]]), rng.choice([1.23, 1.3])
        if k != 1.23: v.Vref_VS_ratio = k
        elif 'Vref_VS_ratio' in v: del v['Vref_VS_ratio']
        if c: v.landing_constants = np.array(c)
        elif 'landing_constants' in v: del v['landing_constants']
        L = estimate_landing_field_length(v, a, airport)
        h.append(dict(common, op='landing', m=dec(v.mass_properties.landing), k=dec(k), c=[dec(q) for q in c], L=dec(one(L)), kept=shape(v.mass_properties) == was))
        # the mass for a field
        def length(m):
            x, v.mass_properties.takeoff = v.mass_properties.takeoff, m
            y = estimate_take_off_field_length(v, a, airport)
            v.mass_properties.takeoff = x
            return y
        lo, hi = v.mass_properties.operating_empty, 1.1 * v.mass_properties.max_takeoff
        Llo, Lhi = length(lo), length(hi)
        t = [Llo + (Lhi - Llo) * q for q in rng.choice([[.3], [-.1, .2, .8], [.5, 1.2]])]
        was = shape(v.mass_properties)
        ms = find_take_off_weight_given_tofl(v, a, airport, t if rng.random() < .7 else np.array(t))
        kept = shape(v.mass_properties) == was
        h.append(dict(op='mass', lo=dec(lo), hi=dec(hi), Llo=dec(Llo), Lhi=dec(Lhi), rows=[dict(t=dec(q), m=dec(m), L=dec(length(m))) for q, m in zip(t, ms)], kept=kept))
        m, S, z, C = rng.uniform(500, 9e4), rng.uniform(10., 200.), rng.choice([0., 1000., 8000.]), rng.uniform(1., 3.)
        h.append(dict(op='stall', m=dec(m), S=dec(S), CL=dec(C), rho=dec(one(atm.compute_values(z, 0.).density)), V=dec(estimate_stall_speed(m, S, z, C))))
    return h


class Polar(Data):
    def __defaults__(self): self.cd0, self.k, self.geometry, self.settings = .02, .05, None, Data(maximum_lift_coefficient=99.)
    def __call__(self, state):
        a = state.conditions.aerodynamics.angle_of_attack
        return Data(lift=Data(total=5 * a), drag=Data(total=self.cd0 + self.k * (5 * a)**2))


@scratch
def _best(seed):
    rng = random.Random(seed)
    v = SUAVE.Vehicle()
    v.reference_area, v.mass_properties.takeoff, v.mass_properties.operating_empty = rng.uniform(10., 40.), rng.uniform(600., 4000.), 400.
    a = SUAVE.Analyses.Vehicle()
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    planet = SUAVE.Analyses.Planets.Planet()
    weights = SUAVE.Analyses.Weights.Weights_eVTOL(); weights.vehicle = v
    a.append(weights); a.append(planet); a.append(atm)
    p = Polar(); p.geometry, p.cd0, p.k = v, rng.uniform(.015, .05), rng.uniform(.03, .08)
    a.aerodynamics = p
    a.stability = None
    z, dT, C, hi = rng.choice([0., 1500., 4000.]), rng.choice([0., 0., 20., -15.]), rng.choice([1.2, 2.5, 6.]), rng.choice([60., 120., 250.])
    rho = float(atm.compute_values(z, dT).density[0, 0])
    g = float(planet.features.compute_gravity(np.array([[z]]))[0, 0]) if hasattr(planet.features, 'compute_gravity') else 9.80665
    W = v.mass_properties.takeoff * g
    lo = math.sqrt(2 * W / (rho * v.reference_area * C))
    if hi <= 1.2 * lo: hi = 2 * lo
    q = maximum_lift_to_drag(a, z, C, hi, dT)
    r = propeller_range_endurance_speeds(a, z, C, hi, dT)
    row = lambda x, three: dict(three=three, v=dec(x.air_speed), x=dec(x.value))
    return [dict(op='reset'), dict(op='best', W=dec(W), rho=dec(rho), S=dec(v.reference_area), CL=dec(C), hi=dec(hi), cd0=dec(p.cd0), k=dec(p.k),
                                   rows=[row(q.L_D_max, False), row(r.L_D_max, False), row(r.CL32, True)])]


# ---- costs
@scratch
def _cost(seed):
    rng = random.Random(seed)
    h = [dict(op='reset')]
    v = SUAVE.Vehicle()
    n = SUAVE.Components.Energy.Networks.Turbofan()
    n.tag, n.number_of_engines, n.sealevel_static_thrust = 'turbofan', rng.choice([1, 2, 4]), rng.uniform(2e4, 4e5)
    v.append_component(n)
    v.mass_properties.empty, v.envelope.maximum_mach_operational, v.passengers = rng.uniform(5e3, 1.5e5), rng.uniform(.5, .9), rng.randrange(0, 300)
    c = v.costs.industrial
    for _ in range(rng.randrange(1, 3)):
        c.avionics_cost, c.test_facilities_cost, c.manufacturing_facilities_cost = rng.uniform(0, 3e6), rng.choice([0., 2e7]), rng.choice([0., 5e7])
        c.production_total_units, c.units_to_amortize, c.prototypes_units = rng.randrange(50, 1500), rng.choice([None, rng.randrange(50, 900)]), rng.randrange(2, 12)
        c.reference_year, c.development_total_years = rng.randrange(1985, 2030), rng.choice([0, 1, 3, 5, 5, 8, 12])
        c.difficulty_factor, c.cad_factor, c.stealth, c.material_factor = rng.choice([1., 1.75]), rng.choice([.8, 1., 1.2]), rng.choice([0., 1.]), rng.choice([1., 2.])
        c.aircraft_type = rng.choice(['military', 'general aviation', 'regional', 'commercial', 'business', 'Commercial'])
        was = shape(Data(a=v.mass_properties, b=v.envelope, n=v.networks.turbofan.sealevel_static_thrust))
        compute_industrial_costs(v)
        kept = shape(Data(a=v.mass_properties, b=v.envelope, n=v.networks.turbofan.sealevel_static_thrust)) == was
        N, R = c.non_recurring, c.recurring
        parts = lambda b: [dec(b[q]) for q in b.keys() if q != 'total']
        f, b = N.cash_flow, N.breakdown
        of = dict(engineering=['airframe_engineering', 'flight_test', 'engines', 'avionics'], manufacturing=['manufacturing_labor', 'manufacturing_material'], tooling_design=['tooling_development'],
                  tooling_production=['tooling_production'], support=['development_support', 'quality_control'], facilities=['test_facilities', 'manufacturing_facilities'])
        first = shape(c)
        y = c.development_total_years
        compute_industrial_costs(v)
        h.append(dict(op='cost', nrec=parts(b), ntotal=dec(N.total), rec=parts(R.breakdown), rtotal=dec(R.total), unit=dec(c.unit_cost), protos=dec(c.prototypes_units), av=[dec(b.avionics), dec(R.breakdown.avionics), dec(c.avionics_cost)], eng=[dec(b.engines), dec(R.breakdown.engines)],
                      told=[[dec(x), dec(y)] for x, y in ((b.test_facilities, c.test_facilities_cost), (b.manufacturing_facilities, c.manufacturing_facilities_cost), (R.breakdown.total, R.total))], made=dec(c.production_total_units),
                      amort=dec(c.units_to_amortize or c.production_total_units), years=int(y), year=dec(c.reference_year),
                      flow=[dict(name=q, years=[dec(x) for x in f.breakdown[q]], of=[dec(b[z]) for z in of[q]]) for q in of], total=[dec(x) for x in f.total], again=shape(c) == first, kept=kept,
                      rates=[dict(r=dec(c.hourly_rates[q]), a=dec(x), b=dec(z)) for q, x, z in [('engineering', 2.576, -5058.), ('tooling', 2.883, -5666.), ('manufacturing', 2.316, -4552.), ('quality_control', 2.6, -5112.)]]))
    return h


# ---- loads
@scratch
def _loads(seed):
    rng = random.Random(seed)
    part = rng.choice([23, 23, 25])
    cat = rng.choice(['normal', 'utility', 'acrobatic', 'commuter']) if part == 23 else 'normal'
    v = aircraft(rng)
    big = part == 25 and rng.random() < .5
    weight = rng.uniform(3e4, 8e4) if big else rng.uniform(700, 5600)
    v.reference_area = weight / rng.uniform(400, 600) if big else weight / rng.uniform(60, 200)
    v.envelope.category, v.envelope.FAR_part_number = cat, part
    v.envelope.cruise_mach = rng.uniform(.6, .82) if big else rng.uniform(.15, .4)
    heavy = 2.1 + 24000 / (weight / .45359237 + 10000) < 2.5
    v.envelope.limit_loads.positive = rng.choice([2., 2.5]) if heavy else rng.choice([2.5, 3.5, 4.4, 7.])
    v.envelope.limit_loads.negative = rng.choice([-.5, -1., -1.5, -3.])
    v.maximum_lift_coefficient, v.minimum_lift_coefficient = rng.uniform(1.2, 2.5), -rng.uniform(.8, 1.4)
    if part == 23 and rng.random() < .3:        # flies as well on its back
        v.minimum_lift_coefficient = -v.maximum_lift_coefficient
        v.envelope.limit_loads.positive, v.envelope.limit_loads.negative = 7., -7.
    a = SUAVE.Analyses.Vehicle()
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    a.append(atm)
    z, dT = rng.choice([0., 1000., 3000., 6500., 9000.]), rng.choice([0., 0., 15.])
    one = lambda x: float(np.ravel(x)[0])
    air, sea = atm.compute_values(z, dT), atm.compute_values(0., dT)
    cla = one(datcom(v.wings.main_wing, np.array([v.envelope.cruise_mach])))
    was = shape(Data(a=v.mass_properties, b=v.envelope))
    r = V_n_diagram(v, a, weight, z, dT)
    ft, slug = .3048, 14.59390294
    # the first corner of the stall line is the stall, the last the maneuver speed
    lines = [[dict(v=dec(s[i]), n=dec(n[i])) for i in range(1, 23)] for s, n in ((r.airspeeds.positive, r.load_factors.positive), (r.airspeeds.negative, r.load_factors.negative))]
    side = lambda q: dict(Vs=dec(r.Vs1[q]), Va=dec(r.Va[q]), gust=[dec(one(x)) for x in r.gust_load_factors[q]])
    chords = [w.chords.mean_aerodynamic for w in v.wings]
    return [dict(op='reset'), dict(op='loads', cat=cat, part=part, w=dec(weight / .45359237), S=dec(v.reference_area / ft**2), rho=dec(one(air.density) / slug * ft**3), rho0=dec(one(sea.density) / slug * ft**3),
                                   h=dec(z / ft), g=dec(9.80665 / ft), cla=dec(cla), cmac=dec(v.wings.main_wing.chords.mean_aerodynamic / ft), last=dec(chords[-1] / ft), told1=dec(v.envelope.limit_loads.positive),
                                   told2=dec(v.envelope.limit_loads.negative), n1=dec(max(n['n'][0] * 10.**n['n'][1] for n in lines[0][-1:])), n2=dec(lines[1][-1]['n'][0] * 10.**lines[1][-1]['n'][1]),
                                   CL1=dec(v.maximum_lift_coefficient), CL2=dec(v.minimum_lift_coefficient), pos=side('positive'), neg=side('negative'), lines=lines, Vc=dec(one(r.Vc)), Vd=dec(one(r.Vd)),
                                   Vc0=dec(v.envelope.cruise_mach * math.sqrt(1.4 * 287 * one(air.temperature)) * math.sqrt(one(air.density) / one(sea.density)) / (1852. / 3600)),
                                   top=one(r.limit_loads.positive) == max(map(one, r.load_factors.positive)), bottom=one(r.limit_loads.negative) == min(map(one, r.load_factors.negative)),
                                   lp=dec(one(r.limit_loads.positive)), ln=dec(one(r.limit_loads.negative)), kept=shape(Data(a=v.mass_properties, b=v.envelope)) == was)]


@worker
def diagram(s): return _diagram(s)
@worker
def fields(s): return _fields(s)
@worker
def best(s): return _best(s)
@worker
def cost(s): return _cost(s)
@worker
def loads(s): return _loads(s)


def main():
    c = Check('C19')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Closes Trades Full Settles Further Peak Longer Limits'.split())
    c.model('PerfMC', tlc.run('PerfMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(D=3), workers=8))
    with mp.Pool(8) as pool:
        hs = pool.map(diagram, [SEED * 7001 + i for i in range(tier(150, 2000))], chunksize=4)
        hs += pool.map(fields, [SEED * 7013 + i for i in range(tier(60, 800))], chunksize=2)
        hs += pool.map(best, [SEED * 7019 + i for i in range(tier(40, 500))], chunksize=1)
        hs += pool.map(cost, [SEED * 7027 + i for i in range(tier(150, 2000))], chunksize=4)
        hs += pool.map(loads, [SEED * 7039 + i for i in range(tier(60, 800))], chunksize=1)
    for op in ('diagram', 'takeoff', 'landing', 'mass', 'best', 'cost', 'loads'): c.count(op, sum(1 for h in hs for e in h if e['op'] == op))
    c.sample([e['op'] for e in hs[200]])
    trace.validate(c, 'PerfTrace', hs, chunk=200)
    c.assumptions += ['maximum lift coefficients, lift slopes and air are taken as measured (C13, C16); speeds are equivalent at the density of the deviated sea level, as the method defines them']
    c.finish()


if __name__ == '__main__':
    guard(main)
