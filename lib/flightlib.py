"""Real missions of real segments in a small exact world (see specs/Flight.tla)."""
import contextlib, io, math, warnings
import numpy as np
import SUAVE
from SUAVE.Core import Data

Seg = SUAVE.Analyses.Mission.Segments
NONE = -1
THRUST = 2e5
COURSES = [(5, 0), (0, 5), (3, 4), (4, 3), (-3, 4)]


class Atmosphere(Data):
    def compute_values(self, h, dT=0.):
        h = np.asarray(h, dtype=float).reshape(-1, 1)
        o, d = np.ones_like(h), Data()
        d.pressure, d.temperature, d.thermal_conductivity = 1e5 * o, 280. * o, .02 * o
        d.density = 2. / (1 + h / 1000.) ** 2 * (.25 if dT == 75. else 1.)
        d.speed_of_sound = 400 - h / 100. + dT
        d.dynamic_viscosity, d.kinematic_viscosity, d.prandtl_number = 1e-5 * o, 1e-5 * o, .7 * o
        return d


class Aero(Data):
    def __defaults__(self):
        self.geometry = Data(reference_area=100.)
        self.settings = Data(maximum_lift_coefficient=20.)

    def __call__(self, st):
        a = st.conditions.aerodynamics.angle_of_attack
        r = Data()
        r.lift, r.drag = Data(total=5 * a), Data(total=.02 + .05 * (5 * a) ** 2)
        return r


class Energy(Data):
    def __defaults__(self):
        self.mdot, self.up = 2., False

    def evaluate_thrust(self, st):
        th = st.conditions.propulsion.throttle
        r, F = Data(), np.zeros((len(th), 3))
        F[:, 2 if self.up else 0] = (-1 if self.up else 1) * THRUST * th[:, 0]
        if 'lift' in st.conditions.propulsion:
            F[:, 2] = -THRUST * st.conditions.propulsion.lift[:, 0]
        r.thrust_force_vector, r.vehicle_mass_rate, r.network_y_axis_rotation = F, self.mdot * np.ones((len(th), 1)), 0 * th
        return r


class Features(Data):
    def compute_gravity(self, h):
        return 10. * np.ones_like(h)


def analyses(mdot, m0, up=False):
    a = Data()
    a.atmosphere, a.aerodynamics, a.energy, a.stability, a.noise = Atmosphere(), Aero(), Energy(), None, None
    a.energy.mdot, a.energy.up = float(mdot), up
    a.planet = Data()
    a.planet.features = Features()
    a.planet.features.mean_radius = 1e5 * 180 / np.pi
    a.weights = Data(vehicle=Data(mass_properties=Data(takeoff=float(m0), landing=.9 * m0)))
    return a


# kind -> (class up, class down, inputs).  inputs: (attribute, field, kind of value)
V, R_ = ('air_speed', 'v'), ('climb_rate', 'r')
KINDS = dict(
    vR=('Climb.Constant_Speed_Constant_Rate', 'Descent.Constant_Speed_Constant_Rate'),
    MR=('Climb.Constant_Mach_Constant_Rate', None),
    easR=('Climb.Constant_EAS_Constant_Rate', 'Descent.Constant_EAS_Constant_Rate'),
    casR=('Climb.Constant_CAS_Constant_Rate', 'Descent.Constant_CAS_Constant_Rate'),
    qR=('Climb.Constant_Dynamic_Pressure_Constant_Rate', None),
    lMR=('Climb.Linear_Mach_Constant_Rate', 'Descent.Linear_Mach_Constant_Rate'),
    lvR=('Climb.Linear_Speed_Constant_Rate', None),
    vA=('Climb.Constant_Speed_Constant_Angle', 'Descent.Constant_Speed_Constant_Angle'),
    MA=('Climb.Constant_Mach_Constant_Angle', None),
    qA=('Climb.Constant_Dynamic_Pressure_Constant_Angle', None),
    vL=('Climb.Constant_Speed_Linear_Altitude', 'Climb.Constant_Speed_Linear_Altitude'),
    ML=('Climb.Constant_Mach_Linear_Altitude', 'Climb.Constant_Mach_Linear_Altitude'),
    thR=('Climb.Constant_Throttle_Constant_Speed', None),
    hcl=('Hover.Climb', 'Hover.Descent'),
    vC=('Cruise.Constant_Speed_Constant_Altitude',) * 2, MC=('Cruise.Constant_Mach_Constant_Altitude',) * 2,
    qC=('Cruise.Constant_Dynamic_Pressure_Constant_Altitude',) * 2,
    vW=('Cruise.Constant_Speed_Constant_Altitude_Loiter',) * 2, MW=('Cruise.Constant_Mach_Constant_Altitude_Loiter',) * 2,
    qW=('Cruise.Constant_Dynamic_Pressure_Constant_Altitude_Loiter',) * 2,
    aC=('Cruise.Constant_Acceleration_Constant_Altitude',) * 2, piC=('Cruise.Constant_Pitch_Rate_Constant_Altitude',) * 2,
    thC=('Cruise.Constant_Throttle_Constant_Altitude',) * 2, hov=('Hover.Hover',) * 2,
    tpC=('Transition.Constant_Acceleration_Constant_Pitchrate_Constant_Altitude',) * 2,
    to=('Ground.Takeoff',) * 2, la=('Ground.Landing',) * 2)
LEVEL = {'vC', 'MC', 'qC', 'vW', 'MW', 'qW', 'aC', 'thC', 'piC', 'tpC', 'hov', 'to', 'la'}


def inputs(s):
    """The inputs a user gives the segment."""
    k, dn = s['kind'], s['dn']
    f = lambda x: None if x == NONE else float(x)
    d = dict(temperature_deviation=float(s['dT']), true_course=math.atan2(s['cy'], s['cx']))
    if k in LEVEL:
        d['altitude'] = f(s['a0'])
    else:
        d['altitude_start'], d['altitude_end'] = f(s['a0']), float(s['a1'])
    if k in ('vR', 'vA', 'vL', 'thR', 'vC', 'vW'): d['air_speed'] = float(s['v'])
    if k == 'MR': d['mach_number'] = s['v'] / 20.
    if k in ('MA', 'ML', 'MC', 'MW'): d['mach'] = s['v'] / 20.
    if k == 'easR': d['equivalent_air_speed'] = float(s['v'])
    if k == 'casR': d['calibrated_air_speed'] = float(s['v'])
    if k[0] == 'q': d['dynamic_pressure'] = float(s['v']) ** 2
    if k == 'lMR': d['mach_start'], d['mach_end'] = s['v'] / 20., s['w'] / 20.
    if k in ('lvR', 'aC', 'tpC', 'thC'): d['air_speed_start'], d['air_speed_end'] = f(s['v']), float(s['w'])
    if k in ('to', 'la'): d['velocity_start'], d['velocity_end'] = f(s['v']), float(s['w'])
    if k.endswith('R') and k != 'thR' or k == 'hcl': d['descent_rate' if dn else 'climb_rate'] = float(s['r'])
    if k in ('vA', 'MA', 'qA'): d['descent_angle' if dn else 'climb_angle'] = math.atan2(s['s'], s['c'])
    if k in ('vL', 'ML', 'vC', 'MC', 'qC'): d['distance'] = float(s['d'])
    if k in ('vW', 'MW', 'qW', 'hov'): d['time'] = float(s['T'])
    if k in ('aC', 'tpC'): d['acceleration'] = float(s['r'])
    if k in ('piC', 'tpC'): d['pitch_initial'], d['pitch_final'] = (None if s['p0'] == NONE else s['p0'] / 1000.), s['p1'] / 1000.
    if k == 'piC': d['pitch_rate'] = s['r'] / 1000.
    if k in ('thR', 'thC', 'to', 'la'): d['throttle'] = s['T'] / 100.
    return d


def unpack_lift(seg):
    for n in ('throttle', 'lift'):
        seg.state.conditions.propulsion[n][:, 0] = seg.state.unknowns[n][:, 0]


def make(s, mdot, m0, n, tag, base=None):
    group, name = KINDS[s['kind']][1 if s['dn'] else 0].split('.')
    base = base or Seg.Segment()
    base.state.numerics.number_control_points = n
    seg = getattr(getattr(Seg, group), name)(base)
    seg.tag = tag
    seg.analyses = analyses(mdot, m0, up=s['kind'] in ('hov', 'hcl'))
    for k, v in inputs(s).items():
        seg[k] = v
    row = seg.state.ones_row
    if s['kind'] == 'tpC':
        seg.state.unknowns.throttle, seg.state.unknowns.lift = row(1) * .3, row(1) * .3
        seg.state.conditions.propulsion.lift = row(1) * 0.
        seg.process.iterate.unknowns.mission = unpack_lift
    if s['kind'] == 'piC': seg.state.unknowns.velocity = row(1) * 80.
    if s['kind'] == 'thC': seg.state.unknowns.time = 10.; seg.state.unknowns.accel_x = row(1) * 3.
    if s['kind'] in ('to', 'la'): seg.state.unknowns.time = 10.
    if s['kind'] == 'thR': seg.state.unknowns.body_angle, seg.state.unknowns.wind_angle = row(1) * .3, row(1) * .05
    return seg


def h2(x, k=100.):
    x = float(x) * k
    return int(round(x)) if abs(x) < 1e9 else 1000000000


def poly(t, y):
    return np.polynomial.polynomial.Polynomial(np.linalg.solve(np.vander(t, increasing=True), y))


def observe(s, seg):
    """Control points of a flown segment."""
    c = seg.state.conditions
    i = c.frames.inertial
    n, t = len(i.time), i.time[:, 0]
    vx, vz = i.velocity_vector[:, 0], i.velocity_vector[:, 2]
    th, thr = c.frames.body.inertial_rotations[:, 1], c.propulsion.throttle[:, 0]
    T = t[-1] - t[0]
    u = (t - t[0]) / T if T else t * 0
    ok = bool(T) and np.all(np.isfinite(u)) and len(set(np.round(u, 9))) == n
    if ok:
        px, pz = poly(u, vx), poly(u, vz)
        dR = poly(u, i.aircraft_range[:, 0]).deriv()(u) / T
        ax, az = px.deriv()(u) / T, pz.deriv()(u) / T
    else:
        dR = np.full(n, 1e9); ax = az = np.zeros(n)
    pts = []
    for k in range(n):
        alt, m = -i.position_vector[k, 2], c.weights.total_mass[k, 0]
        sp = math.hypot(vx[k], vz[k])
        rho = 2. / (1 + alt / 1000.) ** 2 * (.25 if s['dT'] == 75 else 1.)
        q = .5 * rho * sp ** 2
        if s['kind'] in ('hov', 'hcl'): q = 0.              # hover leaves aerodynamics out
        g = math.atan2(-vz[k], vx[k])
        al = th[k] - g
        L, D = 5 * al * q * 100., (.02 + .05 * (5 * al) ** 2) * q * 100.
        up = THRUST * thr[k] if s['kind'] in ('hov', 'hcl') else THRUST * c.propulsion.lift[k, 0] if s['kind'] == 'tpC' else 0.
        fw = 0. if s['kind'] in ('hov', 'hcl') else THRUST * thr[k]
        fx = -L * math.sin(g) - D * math.cos(g) + fw * math.cos(th[k]) - up * math.sin(th[k])
        fz = -L * math.cos(g) + D * math.sin(g) - fw * math.sin(th[k]) - up * math.cos(th[k]) + m * 10
        if s['kind'] in ('to', 'la'):
            fx -= seg.friction_coefficient * (m * 10 - L * math.cos(g))
            fz = m * az[k]
            if k == 0: fx = m * ax[k]
        if s['kind'] in ('hov', 'hcl'): fx = m * ax[k]
        if s['kind'] == 'thC' and k == 0: fx, ax[0] = 0., 0.   # the acceleration there is a free unknown
        bal = max(abs(fx / m - ax[k]), abs(fz / m - az[k]))
        pts.append(dict(f=int(round(4 * u[k])) if ok else 9, t=h2(t[k]), R=h2(i.aircraft_range[k, 0]), dR=h2(dR[k]),
                        x=h2(i.position_vector[k, 0]), y=h2(i.position_vector[k, 1]), alt=h2(alt), m=h2(m),
                        V=h2(c.freestream.velocity[k, 0]), vx=h2(vx[k]), vz=h2(vz[k]), th=h2(th[k], 1e4), thr=h2(thr[k], 1000),
                        lat=h2(c.frames.planet.latitude[k, 0], 1e4), lon=h2(c.frames.planet.longitude[k, 0], 1e4),
                        bal=h2(bal, 1000)))
    return dict(conv=bool(seg.state.numerics.converged), pts=pts)


BLANK = dict(kind='', dn=False, a0=NONE, a1=0, v=0, w=0, r=1, d=0, T=0, s=3, c=4, cx=5, cy=0, dT=0, p0=0, p1=0, gx=0)


class World(object):
    """A real mission and the list of its inputs."""
    def __init__(self, m0, md, la):
        self.m0, self.md, self.la = m0, md, la
        self.mission = SUAVE.Analyses.Mission.Sequential_Segments()
        self.segs, self.real = [], []

    def add(self, s, n=4, base=None):
        seg = make(s, self.md, self.m0, n, 's%d' % len(self.segs), base)
        if not self.segs and self.la:
            seg.latitude, seg.longitude = float(self.la), 0.
        self.mission.append_segment(seg)
        self.real.append(self.mission.segments['s%d' % len(self.segs)])
        self.segs.append(dict(s))

    def edit(self, i, key, val):
        old = inputs(self.segs[i])
        self.segs[i][key] = val
        new = inputs(self.segs[i])
        for k in new:
            if old[k] != new[k]:
                self.real[i][k] = new[k]

    def mass(self, m0):
        self.m0 = m0
        for seg in self.real:
            seg.analyses.weights.vehicle.mass_properties.takeoff = float(m0)

    def fly(self):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            try:
                self.mission.evaluate()
            except Exception as e:              # a mission that can be flown must fly
                self.error = repr(e)
                return []
        return [observe(s, seg) for s, seg in zip(self.segs, self.real)]


def altitudes(segs):
    """Start and end altitude of each segment; None when the inputs do not fit together."""
    alt, out = 0, []
    for i, s in enumerate(segs):
        a = s['a0'] if s['a0'] != NONE else alt
        if i == 0 and s['a0'] == NONE:
            return None
        b = a if s['kind'] in LEVEL else s['a1']
        if s['kind'] not in LEVEL and (b == a or (b < a) != s['dn']):
            return None
        out.append((a, b)); alt = b
    return out


def speed(s, h):
    """The slowest speed the inputs ask for at altitude h (0: does not matter)."""
    k, v = s['kind'], s['v']
    if k in ('vR', 'vA', 'vL', 'vC', 'vW'): return v
    if k in ('lvR', 'aC'): return min(v, s['w'])
    if k in ('easR', 'casR') or k[0] == 'q': return v * (1 + h / 1000.) * (2 if s['dT'] == 75 else 1)
    if k in ('MR', 'MA', 'ML', 'MC', 'MW'): return v / 20. * (400 - h / 100.)
    if k == 'lMR': return min(v, s['w']) / 20. * (400 - h / 100.)
    return 0


def sensible(segs, m0):
    """Can these inputs be flown (lift within reach, thrust at hand)?"""
    al = altitudes(segs)
    if al is None:
        return False
    for i, (s, (a, b)) in enumerate(zip(segs, al)):
        k = s['kind']
        if max(a, b) > 6000: return False
        h = max(a, b)
        if speed(s, h) and m0 * 10 / (speed(s, h) ** 2 * (1 + h / 1000.) ** -2 * (.25 if s['dT'] == 75 else 1) * 100.) > 1.5: return False
        if k in ('aC', 'tpC', 'lvR', 'thC') and s['w'] <= s['v']: return False
        if k in ('qR', 'qC', 'qW') and (max(a, b) > 1500 or s['dT'] or s['v'] < 50): return False   # also flyable as it deviates (known findings)
        if k == 'thR' and (a > 2000 or b - a != 1000 or s['dT']): return False
        if k == 'thC' and (a > 1000 or a < 250 or s['dT']): return False
        if k in ('to', 'la') and (a > 1000 or i == 0 or (s['v'] == NONE) or s['dT']): return False
        if k == 'to' and s['w'] <= s['v'] or k == 'la' and s['w'] >= s['v']: return False
        if k in ('vL', 'ML') and s['d'] < 3 * abs(a - b): return False
        if k == 'piC' and (s['p0'] == NONE and (i == 0 or segs[i - 1]['kind'] != 'piC') or max(a, b) > 1000 or s['dT']): return False
        if k == 'piC':
            p0 = s['p0'] if s['p0'] != NONE else segs[i - 1]['p1']
            if s['p1'] <= p0: return False
        if k == 'tpC' and s['p0'] == NONE and (i == 0 or segs[i - 1]['kind'] not in ('piC', 'tpC')): return False
        if k == 'tpC' and s['p0'] == NONE and segs[i - 1]['p1'] == s['p1']: return False
        if k in ('hov', 'hcl') and s['dT']: return False
    return True
