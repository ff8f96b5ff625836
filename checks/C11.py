"""C11: a battery flown through charging and discharging legs, pack sizing (specs/Battery*.tla)."""
import contextlib, io, multiprocessing as mp, random, warnings
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, SEED
import SUAVE
from SUAVE.Core import Data
from SUAVE.Methods.Missions.Segments.Common import Energy as CommonEnergy
from SUAVE.Methods.Power.Battery.Sizing import initialize_from_mass, initialize_from_energy_and_power, initialize_from_circuit_configuration
from SUAVE.Methods.Power.Battery.Variable_Mass import find_mass_gain_rate, find_total_mass_gain
from SUAVE.Components.Energy.Networks import Battery_Cell_Cycler, Network
from SUAVE.Components.Energy.Storages.Batteries import Constant_Mass, Variable_Mass
from flightlib import analyses, Seg, poly


class Generic(Constant_Mass.Lithium_Ion):
    """The library's generic battery at a constant voltage, so that power is known in advance."""
    def compute_voltage(self, st):
        return self.flat * np.ones((st.numerics.number_control_points, 1))


class NMC(Constant_Mass.Lithium_Ion_LiNiMnCoO2_18650):
    def compute_voltage(self, st):
        self.cell_temperature = st.conditions.propulsion.battery_cell_temperature
        return self.flat * np.ones((st.numerics.number_control_points, 1))


class Pack(object):
    def __init__(self, w, rng):
        self.w, self.rng, self.legs = w, rng, []
        self.m = SUAVE.Analyses.Mission.Sequential_Segments()
        self.base = Seg.Segment(); self.base.state.numerics.number_control_points = 4
        where = self.base.process.initialize if rng.random() < .5 else self.base.process.iterate
        if where is self.base.process.initialize: where.initialize_battery = CommonEnergy.initialize_battery
        self.late = where is not self.base.process.initialize
        self.base.process.finalize.post_process.update_battery_state_of_health = CommonEnergy.update_battery_state_of_health
        self.shared = None

    def network(self, s):
        w = self.w
        if self.shared is not None and s['cur'] in (0, self.shared.avionics.current): return self.shared
        n = Battery_Cell_Cycler()
        n.battery = b = (NMC if w['nmc'] else Generic)()
        b.flat = float(w['volt']); b.mass_properties.mass = w['hc'] / 1100.; b.max_energy = float(w['emax']); b.max_voltage = float(w['volt'])
        ser = self.rng.choice([1, 2])
        b.pack_config.series, b.pack_config.parallel, b.pack_config.total = ser, w['par'], ser * w['par']
        if w['nmc']: b.module_config.normal_count, b.module_config.parallel_count = ser, w['par']
        b.cell.charging_current, b.cell.charging_voltage = float(w['ci']), w['cv'] / float(ser)
        b.charging_current, b.charging_voltage = float(w['ci'] * w['par']), float(w['cv'])
        n.avionics, n.voltage = Data(current=float(s['cur'])), float(w['volt'])
        if self.rng.random() < .5: self.shared = n
        return n

    def add(self, s):
        w, i = self.w, len(self.legs)
        g = Seg.Ground.Battery_Charge_Discharge(self.base)
        g.tag = 'leg%d' % i
        g.analyses = analyses(0., 1000.)
        g.analyses.energy = SUAVE.Analyses.Energy.Energy()
        g.analyses.energy.network = Network.Container()
        n = self.network(s)
        g.analyses.energy.network.append(n)
        g.altitude, g.battery_discharge, g.increment_battery_cycle_day = 0., s['dis'], s['inc']
        if s['dis']: g.time = float(s['T'])
        if s['temp']: g.battery_pack_temperature = float(s['temp'])
        if i == 0:
            g.battery_energy, g.battery_resistance_growth_factor = float(w['e0']), w['grow'] / 1e6
            if w['day0']: g.battery_cycle_day = w['day0']
            if w['q0']: g.battery_cell_charge_throughput = w['q0'] / 3600.
            if w['fade'] != 1000000: g.battery_capacity_fade_factor = w['fade'] / 1e6
            if w['aged']: g.battery_max_aged_energy = float(w['aged'])
        elif s['hat']:
            g.battery_energy = float(s['hat'])
        if self.late: g.process.iterate.initials.initialize_battery = CommonEnergy.initialize_battery
        n.add_unknowns_and_residuals_to_segment(g, initial_battery_cell_temperature=295., initial_battery_cell_current=1.)
        self.m.append_segment(g)
        self.legs.append(s)

    def edit(self, i, s):
        g = self.m.segments['leg%d' % i]
        g.time, g.increment_battery_cycle_day = float(s['T']), s['inc']
        self.legs[i] = s

    def fly(self):
        log = []
        out = []
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            try:
                for g in self.m.segments:
                    g.process.finalize.post_process.update_battery_state_of_health = seen(log)
                self.m.evaluate()
            except Exception as x:
                self.error = repr(x)
                return []
            for g, before in zip(self.m.segments, log):
                out.append(look(self.w, g, before))
        return out


def seen(log):
    def health(seg):
        p = seg.state.conditions.propulsion
        log.append((p.battery_cycle_day, float(p.battery_capacity_fade_factor), float(p.battery_resistance_growth_factor)))
        CommonEnergy.update_battery_state_of_health(seg)
    return health


def r(x, k=1.):
    x = float(x) * k
    return int(round(x)) if abs(x) < 1e9 else 10 ** 9


def look(w, g, before):
    p, t = g.state.conditions.propulsion, g.state.conditions.frames.inertial.time[:, 0]
    P = p.battery_power_draw[:, 0]
    Q = np.abs(p.battery_cell_heat_energy_generated[:, 0])        # one cell in these packs, or no losses
    T = t[-1] - t[0]
    u = ((t - t[0]) / T)[1:]                       # the integral operator is exact for the slope through all points but the first
    work = poly(u, (P - Q)[1:]).integ()
    heat = poly(u, p.battery_cell_heat_energy_generated[1:, 0]).integ()
    wk = [(work(u) - work(0)) * T for u in (t - t[0]) / T]
    pts = [dict(t=r(t[k], 100), e=r(p.battery_energy[k, 0], 10), w=r(wk[k], 10), h=r((heat((t[k] - t[0]) / T) - heat(0)) * T, 10), soc=r(p.battery_state_of_charge[k, 0], 10000),
                q=r(p.battery_cell_charge_throughput[k, 0], 3600), temp=r(p.battery_pack_temperature[k, 0], 100)) for k in range(len(t))]
    return dict(conv=bool(g.state.numerics.converged), pts=pts, aged=r(np.ravel(p.battery_max_aged_energy)[0], 10), day=int(p.battery_cycle_day),
                fade=r(p.battery_capacity_fade_factor, 1e6), growth=r(p.battery_resistance_growth_factor, 1e6),
                day0=int(before[0]), fade0=r(before[1], 1e6), growth0=r(before[2], 1e6))


def energies(w, ss):
    """Start and end energy of each leg (the spec's arithmetic), None when a leg is empty."""
    e, aged, out = w['e0'], w['aged'] or w['emax'], []
    for i, s in enumerate(ss):
        a = e
        if s['dis']:
            if s['cur'] < 0 and (w['nmc'] or aged - e < 800): return None
            e = e - s['cur'] * w['volt'] * s['T']
            if s['cur'] < 0: e = min(e, aged)
        else:
            if i == 0 or w['e0'] - e < 800 or aged - e < 800: return None
            full = w['e0'] * w['fade'] // 1000000
            e, aged = max(e, min(full, e + (aged - e) * 1.25)), full
        if e < -4000: return None
        out.append((a, e))
    return out


def rleg(rng, w, ss):
    s = dict(dis=rng.random() < .65, cur=rng.choice([1, 2, 3, 5, 2, 3, -1, -2]), T=40 * rng.randrange(1, 12), inc=rng.random() < .5,
             temp=rng.choice([0, 0, 290, 305]), hat=rng.choice([0, 0, 15000]))
    if not s['dis']: s['cur'] = s['T'] = 0
    return s


def rworld(rng, nmc):
    emax = rng.choice([20000, 40000])
    w = dict(volt=4 if nmc else rng.choice([4, 10]), emax=emax, ci=rng.choice([1, 2]), cv=rng.choice([20, 25]), e0=emax - rng.choice([0, 0, 4000, 8000, -4000]),
             day0=rng.choice([0, 0, 30]), q0=rng.choice([0, 0, 7200]), aged=rng.choice([0, 0, emax]), fade=1000000, par=rng.choice([1, 2]), nmc=nmc, grow=1000000 if nmc else rng.choice([0, 0, 20000000]),
             hc=2200 if nmc else rng.choice([110, 2200]))
    if nmc: w['par'], w['fade'] = 1, rng.choice([1000000, 1000000, 900000])
    return w


def history(arg):
    seed, nmc = arg
    rng = random.Random(seed)
    w = rworld(rng, nmc)
    b = Pack(w, rng)
    h = [dict(op='reset', w=w)]
    for _ in range(40):
        if len(b.legs) >= rng.randrange(1, 6): break
        s = rleg(rng, w, b.legs)
        if energies(w, b.legs + [s]):
            b.add(s); h.append(dict(op='add', leg=s))
    if not b.legs: return None
    h.append(dict(op='fly', res=b.fly()))
    if not nmc:
        for _ in range(rng.randrange(0, 3)):
            i = rng.randrange(len(b.legs)); s = dict(b.legs[i])
            if s['dis']: s['T'] = 40 * rng.randrange(1, 12)
            s['inc'] = rng.random() < .5
            ss = list(b.legs); ss[i] = s
            if not energies(w, ss): continue
            if s != b.legs[i]:
                b.edit(i, s); h.append(dict(op='edit', i=i + 1, leg=s))
            h.append(dict(op='fly', res=b.fly()))
    return h


def replay(b):
    p = Pack(b['w'], random.Random(SEED))
    h = [dict(op='reset', w=b['w'])]
    for s in b['ss']:
        p.add(s); h.append(dict(op='add', leg=s))
    h.append(dict(op='fly', res=p.fly()))
    h.append(dict(op='fly', res=p.fly()))
    return h


def sizing(rng):
    h = [dict(op='reset', w=rworld(rng, False))]
    I = lambda x: int(round(float(x) * 1.)) if abs(float(x) - round(float(x))) < 1e-6 * max(1., abs(float(x))) else -1
    for _ in range(6):
        b = Generic()
        c = dict(mass=rng.randrange(40, 400), cell=rng.randrange(1, 4), vmax=4 * rng.randrange(1, 12), cellv=4, spe=rng.randrange(1, 50), spp=rng.randrange(1, 50),
                 chv=rng.randrange(1, 5), chi=rng.randrange(1, 4), s=rng.randrange(1, 20), p=rng.randrange(1, 9), ah=rng.randrange(1, 5), v=3, vc=4)
        c['energy'], c['power'] = c['spe'] * rng.randrange(1, 100), c['spp'] * rng.randrange(1, 100)
        b.cell.mass, b.max_voltage, b.cell.max_voltage = float(c['cell']), float(c['vmax']), float(c['cellv'])
        b.specific_energy, b.specific_power = float(c['spe']), float(c['spp'])
        b.cell.charging_voltage, b.cell.charging_current = float(c['chv']), float(c['chi'])
        b.cell.nominal_capacity, b.cell.nominal_voltage = float(c['ah']), float(c['v'])
        how = rng.choice(['mass', 'needs', 'circuit'])
        if how == 'mass':
            f = rng.choice([None, 2., 1.25])
            b.mass_properties.mass = c['mass'] * (f or 1.42) * (1 + 1e-12)
            initialize_from_mass(b) if f is None else initialize_from_mass(b, f)
            got = dict(cells=b.pack_config.total, series=b.pack_config.series, parallel=b.pack_config.parallel, energy=b.max_energy, power=b.max_power,
                       cv=b.charging_voltage, ci=b.charging_current)
        elif how == 'needs':
            initialize_from_energy_and_power(b, float(c['energy']), float(c['power']))
            got = dict(mass=b.mass_properties.mass, energy=b.max_energy, power=b.max_power)
        else:
            b.pack_config.series, b.pack_config.parallel = c['s'], c['p']
            f = rng.choice([None, 2.])
            initialize_from_circuit_configuration(b) if f is None else initialize_from_circuit_configuration(b, f)
            got = dict(cells=b.pack_config.total, cellmass=b.mass_properties.mass / (f or 1.42), energy=b.max_energy / 3600., vmax=b.max_voltage,
                       cv=b.charging_voltage, ci=b.charging_current)
            if b.initial_max_energy != b.max_energy: got['energy'] = -1
        h.append(dict(op='size', how=how, b=c, got={k: I(v) for k, v in got.items()}))
    for cls in (Variable_Mass.Aluminum_Air, Variable_Mass.Lithium_Air):
        b = cls(); f, p, e = rng.randrange(1, 9), rng.randrange(1, 1000), rng.randrange(1, 1000)
        b.mass_gain_factor = float(f); b.max_energy = float(e)
        h.append(dict(op='gain', factor=f, power=p, energy=e, rate=I(-find_mass_gain_rate(b, float(p))), total=I(find_total_mass_gain(b))))
    return h


def main():
    c = Check('C11')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Stored Spent Filled Counted Whole SameEnergySameCharge'.split())
    c.model('BatteryMC', tlc.run('BatteryMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(N=tier(4, 6), Emit='FALSE'), workers=8))
    r_ = tlc.run('BatteryMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(N=3, Emit='TRUE'), workers=1)
    beh = r_.json_lines('HIST')
    c.rng.shuffle(beh)
    beh = beh[:tier(80, 600)]
    c.count('spec_behaviours_replayed', len(beh))
    with mp.Pool(8) as pool:
        hs = pool.map(replay, beh, chunksize=4)
        hs += [h for h in pool.map(history, [(SEED * 6007 + i, i % 4 == 0) for i in range(tier(200, 4000))], chunksize=4) if h]
    hs += [sizing(c.rng) for _ in range(tier(60, 1000))]
    c.count('legs_flown', sum(len(e['res']) for h in hs for e in h if e['op'] == 'fly'))
    c.sample([(e['op'], e.get('leg')) for e in hs[0]])
    trace.validate(c, 'BatteryTrace', hs)
    c.assumptions += ['discharge voltage held constant (power known in advance); the generic cell without resistance loses nothing, '
                      'the NMC cell keeps its losses and the balance is checked against the recorded power and heat']
    c.finish()


if __name__ == '__main__':
    guard(main)
