"""C20: the stages of an engine hand on the heat, pressure, work and flow they are given (specs/Gas*.tla)."""
import contextlib, io, math, multiprocessing as mp, random, warnings
import numpy as np
import SUAVE, tlc, trace
from SUAVE.Core import Data
from SUAVE.Components.Energy import Converters, Processes
from SUAVE.Methods.Propulsion.fm_solver import fm_solver
from SUAVE.Methods.Propulsion.shock_train import shock_train
from SUAVE.Methods.Aerodynamics.Common.Gas_Dynamics.Oblique_Shock import theta_beta_mach, oblique_shock_relations
import enginelib as E
from vcore import Check, guard, tier, worker, SEED
from C15 import dec

warnings.filterwarnings('ignore')
ROWS = 3
col = lambda xs: np.array([[float(x)] for x in xs])


def at(x, i):
    """Entry i of a column, or the one there is."""
    x = np.ravel(np.asarray(x, dtype=float))
    return dec(x[i] if len(x) > 1 else x[0])


def pair(o, i): return [at(o.stagnation_temperature, i), at(o.stagnation_pressure, i)]


def air(c, i):
    f = c.freestream
    r = dict(To=f.temperature, Po=f.pressure, Mo=f.mach_number, u0=f.velocity, a=f.speed_of_sound, g=f.isentropic_expansion_factor, Cp=f.specific_heat_at_constant_pressure, R=f.gas_specific_constant)
    return {k: at(v, i) for k, v in r.items()}


def ram(c, p, i):
    f = c.freestream
    told = all(np.array_equal(f[k], p.outputs[k]) for k in ('stagnation_temperature', 'stagnation_pressure', 'isentropic_expansion_factor', 'specific_heat_at_constant_pressure', 'gas_specific_constant'))
    told = told and np.allclose(f.isentropic_expansion_factor, E.AIR.compute_gamma(f.temperature, f.pressure)) and np.allclose(f.specific_heat_at_constant_pressure, E.AIR.compute_cp(f.temperature, f.pressure))
    return dict(air(c, i), op='ram', out=pair(p.outputs, i), told=bool(told))


def leaving(p, i):
    o = p.outputs
    return dict(M=at(o.mach_number, i), T=at(o.static_temperature, i), h=at(o.static_enthalpy, i), ht=at(o.stagnation_enthalpy, i), u=at(o.velocity, i), out=pair(o, i))


def inlet(c, p, i):
    return dict(air(c, i), op='inlet', r=dec(p.pressure_ratio), rec=dec(p.pressure_recovery), eta=dec(p.polytropic_efficiency), shock=bool(p.compressibility_effects), **dict(leaving(p, i), **{'in': pair(p.inputs, i)}))


def press(c, p, i):
    return dict(air(c, i), op='press', r=dec(p.pressure_ratio), eta=dec(p.polytropic_efficiency), ht=at(p.outputs.stagnation_enthalpy, i), w=at(p.outputs.work_done, i), out=pair(p.outputs, i), **{'in': pair(p.inputs, i)})


def burn(c, p, i, n=None, op='burn'):
    return dict(air(c, i), op=op, t4=dec(p.turbine_inlet_temperature), r=dec(p.pressure_ratio), eta=dec(p.efficiency), heat=dec(p.fuel_data.specific_energy), n=at(1. if n is None else n, i),
                ht=at(p.outputs.stagnation_enthalpy, i), f=at(p.outputs.fuel_to_air_ratio, i), out=pair(p.outputs, i), **{'in': pair(p.inputs, i)})


def turn(c, p, i, wc, wf, ws, f, bypass):
    return dict(air(c, i), op='turn', wc=at(wc, i), wf=at(wf, i), ws=at(ws, i), f=at(f, i), bypass=dec(bypass), mech=dec(p.mechanical_efficiency), eta=dec(p.polytropic_efficiency), ht=at(p.outputs.stagnation_enthalpy, i),
                out=pair(p.outputs, i), **{'in': pair(p.inputs, i)})


def nozzle(c, p, i, full=False):
    o = p.outputs
    return dict(air(c, i), op='nozzle', r=dec(p.pressure_ratio), rec=dec(p.pressure_recovery if full else 1.), eta=dec(p.polytropic_efficiency), full=full, P=at(o.static_pressure, i), rho=at(o.density, i), A=at(o.area_ratio, i),
                **dict(leaving(p, i), **{'in': pair(p.inputs, i)}))


def limited(c, p, i):
    o = p.outputs
    return dict(air(c, i), op='limited', r=dec(p.pressure_ratio), eta=dec(p.polytropic_efficiency), P=at(o.static_pressure, i), rho=at(o.rho, i), A=at(o.area_ratio, i), most=dec(p.max_area_ratio), least=dec(p.min_area_ratio), fast=dec(faster((p.max_area_ratio + p.min_area_ratio) / 2, float(np.ravel(c.freestream.isentropic_expansion_factor)[i]))),
                **dict(leaving(p, i), **{'in': pair(p.inputs, i)}))


def scram_in(c, p, i):
    o = p.outputs
    return dict(air(c, i), op='scin', eta=dec(p.polytropic_efficiency), M=at(o.mach_number, i), T=at(o.static_temperature, i), P=at(o.static_pressure, i), u=at(o.velocity, i), h=at(o.static_enthalpy, i),
                ht=at(o.stagnation_enthalpy, i), out=pair(o, i), train=[at(x, i) for x in shock_train(c.freestream.mach_number, c.freestream.isentropic_expansion_factor, p.compression_levels, p.theta)], **{'in': pair(p.inputs, i)})


def scram_burn(c, p, n, i):
    o, q = p.outputs, n.outputs
    return dict(air(c, i), op='scburn', eta=dec(p.efficiency), heat=dec(p.fuel_data.specific_energy), hf=dec(p.absolute_sensible_enthalpy), fst=dec(p.fuel_data.stoichiometric_fuel_to_air), phi=dec(p.fuel_equivalency_ratio),
                vfx=dec(p.axial_fuel_velocity_ratio), vf=dec(p.fuel_velocity_ratio), drag=dec(p.burner_drag_coefficient), T3=at(q.static_temperature, i), P3=at(q.static_pressure, i), u3=at(q.velocity, i), f=at(o.fuel_to_air_ratio, i),
                M=at(o.mach_number, i), T=at(o.static_temperature, i), P=at(o.static_pressure, i), u=at(o.velocity, i), ht=at(o.stagnation_enthalpy, i), cpb=at(o.specific_heat_constant_pressure, i), gb=at(o.isentropic_expansion_factor, i),
                out=pair(o, i), **{'in': pair(p.inputs, i)})


def scram_out(c, p, b, i):
    o, q = p.outputs, b.outputs
    return dict(air(c, i), op='scout', eta=dec(p.polytropic_efficiency), r=dec(p.pressure_expansion_ratio), T3=at(q.static_temperature, i), P3=at(q.static_pressure, i), u3=at(q.velocity, i), f=at(q.fuel_to_air_ratio, i),
                cpb=at(q.specific_heat_constant_pressure, i), gb=at(q.isentropic_expansion_factor, i), M=at(o.mach_number, i), T=at(o.temperature, i), P=at(o.static_pressure, i), u=at(o.velocity, i), A=at(o.area_ratio, i))


def report(name, r, o, i):
    """What is told of a stream for others to use."""
    return dict(op='report', name=name, told=[at(r['exit_' + k], i) for k in NAMES], true=[at(o[k], i) for k in NAMES])
NAMES = ('static_temperature', 'static_pressure', 'stagnation_temperature', 'velocity', 'stagnation_pressure')


def faster(a, g):
    """The Mach number above one at which an area passes what it does."""
    lo, hi = 1., 20.
    F = lambda m: m * ((g + 1) / 2 / (1 + (g - 1) / 2 * m * m))**((g + 1) / 2 / (g - 1))
    for _ in range(80):
        m = .5 * (lo + hi)
        lo, hi = (m, hi) if F(m) * a > 1 else (lo, m)
    return m


def give(p, T, P): p.inputs.stagnation_temperature, p.inputs.stagnation_pressure = T, P


def stream(n, i): return dict(u=at(n.velocity, i), A=at(n.area_ratio, i), P=at(n.static_pressure, i))


def out(c, t, i, ref, count, f, core, fan, bypass, op='thrust', T=None):
    e = dict(air(c, i), op=op, mdhc=at(t.compressor_nondimensional_massflow, i), Tref=dec(t.reference_temperature), Pref=dec(t.reference_pressure), at=pair(ref, i), count=dec(count), thr=at(c.propulsion.throttle, i),
             hascore=core is not None, hasfan=fan is not None, bypass=dec(bypass), f=at(f, i), adj=dec(t.SFC_adjustment), flow=at(t.outputs.core_mass_flow_rate, i), F=at(t.outputs.thrust, i), fuel=at(t.outputs.fuel_flow_rate, i), power=at(t.outputs.power, i))
    if core is not None: e['core'] = dict(stream(core, i), **({'T': at(T, i)} if T is not None else {}))
    if fan is not None: e['fan'] = stream(fan, i)
    return e


def quiet(fn):
    def go(*a):
        with contextlib.redirect_stdout(io.StringIO()): return fn(*a)
    return go


def states(rng, lo=.1, hi=.9, n=ROWS):
    st = E.conditions([(rng.choice([0., 3000., 9000., 11000., 15000.]), rng.uniform(lo, hi), rng.choice([.3, .7, 1., 1.])) for _ in range(n)])
    r = Converters.Ram(); r.inputs.working_fluid = E.AIR
    r(st.conditions)
    return st, r


@quiet
def _stages(seed):
    rng = random.Random(seed)
    np.random.seed(seed % 2**31)
    eta = lambda: rng.choice([1., .98, .9, .8])
    h = [dict(op='reset')]
    st, r = states(rng, *rng.choice([(.1, .9), (.1, .9), (.3, 2.5)]))
    c = st.conditions
    f = c.freestream
    R = range(ROWS)
    h += [ram(c, r, i) for i in R]
    T, P = r.outputs.stagnation_temperature, r.outputs.stagnation_pressure
    # inlets
    p = Converters.Compression_Nozzle(); p.polytropic_efficiency, p.pressure_ratio, p.pressure_recovery = eta(), rng.choice([1., .98, .9]), rng.choice([1., .94])
    p.compressibility_effects = rng.random() < .4
    if p.compressibility_effects: p.pressure_recovery, p.pressure_ratio = 1., 1. if float(np.min(f.mach_number)) < .35 else rng.choice([1., .97])
    give(p, T * 1., P * 1.); p(c)
    h += [inlet(c, p, i) for i in R]
    T, P = T * 1., P * rng.choice([1., .97])
    # compressors, in a line
    wc = None
    for cls in (Converters.Compressor, rng.choice([Converters.Compressor, Converters.Fan])):
        p = cls(); p.pressure_ratio, p.polytropic_efficiency = rng.choice([1., 1.3, 2., 5., 12.]), eta()
        give(p, T, P); p(c); h += [press(c, p, i) for i in R]
        T, P, wc, wf = p.outputs.stagnation_temperature, p.outputs.stagnation_pressure, p.outputs.work_done, wc
    # burned
    p = Converters.Combustor(); p.pressure_ratio, p.efficiency, p.turbine_inlet_temperature = rng.choice([1., .95]), rng.choice([1., .98, .9]), float(np.max(T)) + rng.uniform(200., 900.)
    p.fuel_data = rng.choice([E.JET, E.H2])()
    n = None
    if rng.random() < .4: n = p.inputs.nondim_mass_ratio = 1. + col(rng.uniform(0, .04) for _ in R)
    give(p, T, P); p(c); h += [burn(c, p, i, n) for i in R]
    T4 = p.outputs.stagnation_temperature * np.ones_like(P)
    P4, fa = p.outputs.stagnation_pressure, p.outputs.fuel_to_air_ratio
    # turned
    p = Converters.Turbine(); p.mechanical_efficiency, p.polytropic_efficiency = eta(), eta()
    p.inputs.bypass_ratio, p.inputs.fuel_to_air_ratio = rng.choice([0., 0., 1., .3]), fa
    p.inputs.compressor, p.inputs.fan = Data(work_done=wc * .6), Data(work_done=wf * .3)
    s = Converters.Shaft_Power_Off_Take(); s.power_draw = rng.choice([0., 1e5, 3e5])
    s.inputs.mdhc, s.inputs.total_temperature_reference, s.inputs.total_pressure_reference = rng.uniform(10., 40.), T, P
    s(st)
    if rng.random() < .6: p.inputs.shaft_power_off_take = s.outputs
    taken = s.outputs.work_done if p.inputs.shaft_power_off_take is not None else 0.
    if s.power_draw: h += [dict(op='shaft', w=at(s.outputs.work_done, i), power=dec(s.power_draw), mdhc=dec(s.inputs.mdhc), Tref=dec(s.reference_temperature), Pref=dec(s.reference_pressure), at=[at(T, i), at(P, i)]) for i in R]
    give(p, T4, P4)
    w = wc * .6 + taken + p.inputs.bypass_ratio * wf * .3
    if np.all(w / .75 < .6 * f.specific_heat_at_constant_pressure * T4):
        p(c); h += [turn(c, p, i, wc * .6, wf * .3, taken, fa, p.inputs.bypass_ratio) for i in R]
    # let out: below and above what chokes, and below the pressure around
    ratio = col(rng.choice([.8, 1.05, 1.3, 1.6, 1.85, 1.95, 3., 8.]) for _ in R)
    p = Converters.Expansion_Nozzle(); p.polytropic_efficiency, p.pressure_ratio = eta(), rng.choice([1., .99, .95])
    give(p, T4, f.pressure * ratio); p(c); h += [nozzle(c, p, i) for i in R]
    core = p.outputs
    p = Converters.Supersonic_Nozzle(); p.polytropic_efficiency, p.pressure_ratio, p.pressure_recovery = eta(), rng.choice([1., .95]), rng.choice([1., .95])
    give(p, T4, f.pressure * col(rng.choice([1.3, 2., 6., 20.]) for _ in R)); p(c); h += [nozzle(c, p, i, True) for i in R]
    fan = p.outputs
    p = Converters.Supersonic_Nozzle(); p.polytropic_efficiency, p.pressure_ratio = eta(), 1.
    p.min_area_ratio, p.max_area_ratio = rng.choice([(1.2, 3.), (1.5, 1.6), (2., 6.)])
    give(p, T4, f.pressure * col(rng.choice([1.1, 3., 10., 25., 120.]) for _ in R)); p.compute_limited_geometry(c); h += [limited(c, p, i) for i in R]
    # pushed
    t = Processes.Thrust(); t.SFC_adjustment = rng.choice([0., .1, -.05])
    b, k = rng.choice([0., 1.5, 6.]), rng.choice([1., 2., 4.])
    i_ = t.inputs
    i_.core_nozzle, i_.fan_nozzle, i_.fuel_to_air_ratio, i_.number_of_engines, i_.bypass_ratio = core, fan, fa, k, b
    i_.flow_through_core, i_.flow_through_fan, i_.total_temperature_reference, i_.total_pressure_reference = 1. / (1. + b), b / (1. + b), T, P
    t.compressor_nondimensional_massflow = rng.uniform(10., 50.)
    ref = Data(stagnation_temperature=T, stagnation_pressure=P)
    t(c); h += [out(c, t, i, ref, k, fa, core, fan if b else None, b) for i in R]
    return h


@quiet
def _ducts(seed):
    rng = random.Random(seed)
    h, R = [dict(op='reset')], range(ROWS)
    st, r = states(rng, .5, 3.)
    c = st.conditions
    p = Converters.Combustor(); p.pressure_ratio, p.efficiency, p.area_ratio, p.turbine_inlet_temperature, p.fuel_data = 1., rng.choice([1., .9]), rng.choice([1.5, 2., 3.]), rng.choice([1200., 1800., 2400.]), E.JET()
    give(p, r.outputs.stagnation_temperature, r.outputs.stagnation_pressure)
    p.inputs.mach_number = col(rng.uniform(.3, .8) for _ in R)
    m3 = fm_solver(p.area_ratio, p.inputs.mach_number[:, 0], c.freestream.isentropic_expansion_factor[:, 0])
    p.compute_rayleigh(c)
    h += [dict(burn(c, p, i, op='duct'), m3=at(m3, i), M=at(p.outputs.mach_number, i)) for i in R]
    g = c.freestream.isentropic_expansion_factor[:, 0]
    m0 = np.array([rng.uniform(.2, .9) for _ in R]) if rng.random() < .7 else np.array([rng.uniform(1.3, 3.) for _ in R])
    a = rng.choice([1.2, 2., 3.]) if m0[0] < 1 else rng.choice([.8, .6])
    if m0[0] > 1: a = 1.5
    m1 = fm_solver(a, m0, g) if m0[0] < 1 else None
    if m1 is not None: h += [dict(op='fm', g=at(g, i), m0=at(m0, i), m1=at(m1, i), a=dec(a)) for i in R]
    # shocks
    n = rng.randrange(1, 4)
    M = col(rng.uniform(4., 9.) for _ in R)
    G = c.freestream.isentropic_expansion_factor
    th = [rng.uniform(.05, .2) for _ in range(n)]
    each, m = [], M
    for t in th:
        b = theta_beta_mach(m, G, t)
        m1, pr, tr, ptr = oblique_shock_relations(m, G, t, b)
        h += [dict(op='oblique', g=at(G, i), m0=at(m, i), m1=at(m1, i), pr=at(pr, i), tr=at(tr, i), ptr=at(ptr, i), sin=at(np.sin(b), i), cos=at(np.cos(b), i), tan=dec(math.tan(t))) for i in R]
        each.append((tr, ptr)); m = m1
    T, P = shock_train(M, G, n, th)
    h += [dict(op='train', out=[at(T, i), at(P, i)], each=[[at(x, i), at(y, i)] for x, y in each]) for i in R]
    # a stream that is hot, heavy and let out
    t = Processes.Thrust()
    k, fa = rng.choice([1., 2.]), rng.uniform(.01, .05)
    nz = Data(velocity=c.freestream.velocity * rng.uniform(1.1, 1.6) + 200., temperature=col(rng.uniform(600., 1500.) for _ in R), area_ratio=col(rng.uniform(1., 4.) for _ in R), static_pressure=c.freestream.pressure)
    ref = Data(stagnation_temperature=r.outputs.stagnation_temperature, stagnation_pressure=r.outputs.stagnation_pressure)
    t.inputs.core_nozzle, t.inputs.fuel_to_air_ratio, t.inputs.number_of_engines = nz, fa, k
    t.inputs.total_temperature_reference, t.inputs.total_pressure_reference = ref.stagnation_temperature, ref.stagnation_pressure
    t.compressor_nondimensional_massflow = rng.uniform(5., 30.)
    t.compute_stream_thrust(c); h += [out(c, t, i, ref, k, fa, nz, None, 0., op='sthrust', T=nz.temperature) for i in R]
    return h


@quiet
def _engine(seed):
    """Whole engines: every stage, and what goes from one to the next."""
    rng = random.Random(seed)
    h, R = [dict(op='reset')], range(ROWS)
    kind = ('turbofan', 'turbofan', 'turbojet', 'ducted_fan', 'ramjet', 'scramjet')[seed % 6]
    k, F, b = rng.choice([1, 2, 4]), rng.choice([3e4, 1.5e5]), rng.choice([.5, 5., 8.])
    after = kind == 'turbojet' and rng.random() < .5
    net = (E.turbofan(k, F, b, rng.choice([1400., 1600.]), rng.choice([6., 12.])) if kind == 'turbofan' else E.turbojet(k, F, after) if kind == 'turbojet' else E.BUILD[kind](k, F))
    draw = None
    if kind == 'turbofan' and rng.random() < .5:
        net.Shaft_Power_Off_Take = draw = Converters.Shaft_Power_Off_Take(); draw.power_draw = rng.choice([2e4, 1e5])
    z, M = (11000., .8) if kind in ('turbofan', 'ducted_fan') else (20000., 6.5) if kind == 'scramjet' else (15000., 2.)
    E.size(kind, net, z, M)
    t = net.thrust
    one = E.conditions([(z, M, 1.)], gamma=kind in ('turbojet', 'ramjet', 'scramjet'))
    E.run(net, one)
    # sized with no shaft power drawn and no afterburner
    if draw is None and not after: h.append(dict(op='sized', F=at(t.outputs.thrust, 0), design=dec(t.total_design), mass=at(t.mass_flow_rate_design, 0), flow=at(t.outputs.core_mass_flow_rate, 0)))
    st, _ = states(rng, *((5., 8.) if kind == 'scramjet' else (.1, .85) if kind in ('turbofan', 'ducted_fan') else (1.2, 2.3)))
    c = st.conditions
    E.run(net, st)
    q = net
    links = []
    def link(name, src, dst):
        for s in ('temperature', 'pressure'):
            links.append([[name, at(src.outputs['stagnation_' + s], i), at(dst.inputs['stagnation_' + s], i)] for i in R])
    line = dict(turbofan=['ram', 'inlet_nozzle', 'low_pressure_compressor', 'high_pressure_compressor', 'combustor', 'high_pressure_turbine', 'low_pressure_turbine', 'core_nozzle'],
                turbojet=['ram', 'inlet_nozzle', 'low_pressure_compressor', 'high_pressure_compressor', 'combustor', 'high_pressure_turbine', 'low_pressure_turbine'] + ['afterburner'] * after + ['core_nozzle'],
                ducted_fan=['ram', 'inlet_nozzle', 'fan', 'fan_nozzle'], ramjet=['ram', 'inlet_nozzle', 'combustor', 'core_nozzle'], scramjet=['ram', 'inlet_nozzle', 'combustor', 'core_nozzle'])[kind]
    for x, y in zip(line, line[1:]): link(y, q[x], q[y])
    if kind == 'turbofan': link('fan', q.inlet_nozzle, q.fan); link('fan_nozzle', q.fan, q.fan_nozzle)
    h += [dict(op='links', pairs=[p[i] for p in links]) for i in R]
    h += [ram(c, q.ram, i) for i in R]
    if kind != 'scramjet': h += [inlet(c, q.inlet_nozzle, i) for i in R]
    for x in ('low_pressure_compressor', 'high_pressure_compressor', 'fan'):
        if x in q.keys(): h += [press(c, q[x], i) for i in R]
    told = c.noise.sources.get(kind) if 'noise' in c and 'sources' in c.noise else None
    if told is not None:
        for s, n in (('core', 'core_nozzle'), ('fan', 'fan_nozzle')):
            if s in told and n in q.keys(): h += [report(kind + '-' + s, told[s], q[n].outputs, i) for i in R]
    if kind == 'ducted_fan':
        h += [nozzle(c, q.fan_nozzle, i) for i in R]
        return h
    if kind == 'scramjet':
        b, n = q.combustor, q.core_nozzle
        h += [scram_in(c, q.inlet_nozzle, i) for i in R] + [scram_burn(c, b, q.inlet_nozzle, i) for i in R] + [scram_out(c, n, b, i) for i in R]
        nz = Data(velocity=n.outputs.velocity, temperature=n.outputs.temperature, area_ratio=n.outputs.area_ratio, static_pressure=n.outputs.static_pressure)
        h += [out(c, t, i, n.outputs, k, b.outputs.fuel_to_air_ratio, nz, None, 0., op='sthrust', T=nz.temperature) for i in R]
        return h
    if kind == 'ramjet':
        h += [limited(c, q.core_nozzle, i) for i in R] if 'rho' in q.core_nozzle.outputs else []
        h += [out(c, t, i, q.core_nozzle.outputs, k, q.combustor.outputs.fuel_to_air_ratio, q.core_nozzle.outputs, None, 0.) for i in R]
        return h
    fa = q.combustor.outputs.fuel_to_air_ratio
    h += [burn(c, q.combustor, i) for i in R]
    work = lambda x: q[x].outputs.work_done
    fan = q.fan.outputs if kind == 'turbofan' else None
    h += [turn(c, q.high_pressure_turbine, i, work('high_pressure_compressor'), 0., 0., fa, 0.) for i in R]
    h += [turn(c, q.low_pressure_turbine, i, work('low_pressure_compressor'), fan.work_done if fan else 0., draw.outputs.work_done if draw else 0., fa, b if fan else 0.) for i in R]
    if after:
        h += [burn(c, q.afterburner, i, 1. + fa) for i in R]
        fa = fa + q.afterburner.outputs.fuel_to_air_ratio
    h += [nozzle(c, q.core_nozzle, i, kind == 'turbojet') for i in R]
    if fan: h += [nozzle(c, q.fan_nozzle, i) for i in R]
    h += [out(c, t, i, q.low_pressure_compressor.outputs, k, fa, q.core_nozzle.outputs, q.fan_nozzle.outputs if fan else None, b if fan else 0.) for i in R]
    return h


@worker
def stages(s): return _stages(s)
@worker
def ducts(s): return _ducts(s)
@worker
def engine(s): return _engine(s)


def main():
    c = Check('C20')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Held Left Waste Two1 Undoes Shocks Chokes AtOne'.split())
    c.model('GasMC', tlc.run('GasMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(D=tier(4, 5)), workers=8))
    with mp.Pool(8) as pool:
        hs = pool.map(stages, [SEED * 8009 + i for i in range(tier(32, 1000))], chunksize=2)
        hs += pool.map(ducts, [SEED * 8017 + i for i in range(tier(24, 800))], chunksize=2)
        hs += pool.map(engine, [SEED * 8039 + i for i in range(tier(25, 600))], chunksize=1)
    for op in sorted({e['op'] for h in hs for e in h} - {'reset'}): c.count(op, sum(1 for h in hs for e in h if e['op'] == op))
    c.sample([e['op'] for e in hs[0]])
    trace.validate(c, 'GasTrace', hs, chunk=20)
    c.assumptions += ['specific heats and their ratio are those the gas model gives at the freestream; solvers inside of a stage are judged by what they return']
    c.finish()


if __name__ == '__main__':
    guard(main)
