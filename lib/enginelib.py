"""Real energy networks of SUAVE, built small, and states to evaluate them in."""
import contextlib, copy, io, time, warnings
import numpy as np
import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Components.Energy import Networks, Converters, Processes, Distributors, Peripherals
from SUAVE.Analyses.Mission.Segments.Conditions import Aerodynamics, State
from SUAVE.Methods.Propulsion.turbofan_sizing import turbofan_sizing
from SUAVE.Methods.Propulsion.turbojet_sizing import turbojet_sizing
from SUAVE.Methods.Propulsion.ducted_fan_sizing import ducted_fan_sizing
from SUAVE.Methods.Propulsion.ramjet_sizing import ramjet_sizing
from SUAVE.Methods.Propulsion.scramjet_sizing import scramjet_sizing
from SUAVE.Methods.Propulsion.liquid_rocket_sizing import liquid_rocket_sizing
from SUAVE.Methods.Propulsion import propeller_design

ATM, AIR, EARTH = SUAVE.Analyses.Atmospheric.US_Standard_1976(), SUAVE.Attributes.Gases.Air(), SUAVE.Attributes.Planets.Earth()


def conditions(pts, gamma=False):
    """pts: [(altitude m, mach, throttle)] -> State with the conditions a mission would hand over (gamma: as the supersonic sizing does)."""
    h, M, thr = (np.array([[float(p[i])] for p in pts]) for i in range(3))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = ATM.compute_values(h, 0., gamma) if gamma else ATM.compute_values(h, 0.)
    st = State()
    st.numerics.number_control_points = len(pts)
    c = st.conditions = Aerodynamics()
    st.expand_rows(len(pts))
    f = c.freestream
    f.altitude, f.mach_number = h, M
    for k in ('pressure', 'temperature', 'density', 'dynamic_viscosity', 'speed_of_sound', 'kinematic_viscosity', 'thermal_conductivity', 'prandtl_number'):
        f[k] = a[k] * 1.
    f.gravity = EARTH.compute_gravity(h)
    f.isentropic_expansion_factor = AIR.compute_gamma(f.temperature, f.pressure)
    f.Cp = f.specific_heat_at_constant_pressure = AIR.compute_cp(f.temperature, f.pressure)
    f.R = f.gas_specific_constant = AIR.gas_specific_constant * np.ones_like(h)
    f.velocity = M * f.speed_of_sound
    f.dynamic_pressure = .5 * f.density * f.velocity ** 2
    c.M, c.velocity, c.q, c.g0 = M, f.velocity * 1., f.dynamic_pressure * 1., f.gravity
    c.propulsion.throttle = thr
    c.frames.inertial.velocity_vector = np.hstack([f.velocity, 0 * h, 0 * h])
    c.frames.body.transform_to_inertial = np.tile(np.eye(3), (len(pts), 1, 1))
    c.frames.wind.transform_to_inertial = np.tile(np.eye(3), (len(pts), 1, 1))
    return st


def parts(net, *ps):
    for tag, cls, kw in ps:
        p = cls(); p.tag = tag
        for k, v in kw.items(): p[k] = v
        net.append(p)
    return net


JET, H2 = SUAVE.Attributes.Propellants.Jet_A, SUAVE.Attributes.Propellants.Liquid_H2
RAM = ('ram', Converters.Ram, {})


def thrust(net, total, name='thrust'):
    t = Processes.Thrust(); t.tag = name; t.total_design = float(total); net.thrust = t
    return net


def turbofan(n, total, bpr=5., tit=1500., opr=10.):
    net = Networks.Turbofan(); net.number_of_engines, net.bypass_ratio, net.working_fluid = float(n), bpr, AIR
    C = lambda r: dict(polytropic_efficiency=.91, pressure_ratio=r)
    parts(net, RAM, ('inlet_nozzle', Converters.Compression_Nozzle, dict(polytropic_efficiency=.98, pressure_ratio=.98)),
          ('low_pressure_compressor', Converters.Compressor, C(1.9)), ('high_pressure_compressor', Converters.Compressor, C(opr)),
          ('low_pressure_turbine', Converters.Turbine, dict(mechanical_efficiency=.99, polytropic_efficiency=.93)),
          ('high_pressure_turbine', Converters.Turbine, dict(mechanical_efficiency=.99, polytropic_efficiency=.93)),
          ('combustor', Converters.Combustor, dict(efficiency=.99, turbine_inlet_temperature=tit, pressure_ratio=.95, fuel_data=JET())),
          ('core_nozzle', Converters.Expansion_Nozzle, dict(polytropic_efficiency=.95, pressure_ratio=.99)),
          ('fan_nozzle', Converters.Expansion_Nozzle, dict(polytropic_efficiency=.95, pressure_ratio=.99)),
          ('fan', Converters.Fan, dict(polytropic_efficiency=.93, pressure_ratio=1.6)))
    return thrust(net, total)


def turbojet(n, total, after=False):
    net = Networks.Turbojet_Super(); net.number_of_engines, net.working_fluid, net.inlet_diameter = float(n), AIR, 1.1
    parts(net, RAM, ('inlet_nozzle', Converters.Compression_Nozzle, dict(polytropic_efficiency=1., pressure_ratio=1., pressure_recovery=.94)),
          ('low_pressure_compressor', Converters.Compressor, dict(polytropic_efficiency=.88, pressure_ratio=3.1)),
          ('high_pressure_compressor', Converters.Compressor, dict(polytropic_efficiency=.88, pressure_ratio=5.)),
          ('low_pressure_turbine', Converters.Turbine, dict(mechanical_efficiency=.99, polytropic_efficiency=.89)),
          ('high_pressure_turbine', Converters.Turbine, dict(mechanical_efficiency=.99, polytropic_efficiency=.87)),
          ('combustor', Converters.Combustor, dict(efficiency=.94, alphac=1., turbine_inlet_temperature=1440., pressure_ratio=.92, fuel_data=JET())),
          ('afterburner', Converters.Combustor, dict(efficiency=.9, alphac=1., turbine_inlet_temperature=1500., pressure_ratio=1., fuel_data=JET())),
          ('core_nozzle', Converters.Supersonic_Nozzle, dict(pressure_recovery=.95, pressure_ratio=1.)))
    net.afterburner_active = after
    return thrust(net, total)


def ducted_fan(n, total):
    net = Networks.Ducted_Fan(); net.number_of_engines, net.bypass_ratio, net.working_fluid = float(n), 0., AIR
    one = dict(polytropic_efficiency=1., pressure_ratio=1.)
    parts(net, RAM, ('inlet_nozzle', Converters.Compression_Nozzle, one), ('fan', Converters.Fan, dict(polytropic_efficiency=1., pressure_ratio=1.3)),
          ('fan_nozzle', Converters.Expansion_Nozzle, one))
    return thrust(net, total)


def ramjet(n, total):
    net = Networks.Ramjet(); net.number_of_engines, net.working_fluid, net.inlet_diameter = float(n), AIR, 1.1
    parts(net, RAM, ('inlet_nozzle', Converters.Compression_Nozzle, dict(polytropic_efficiency=1., pressure_ratio=1., compressibility_effects=True)),
          ('combustor', Converters.Combustor, dict(efficiency=1., turbine_inlet_temperature=2400., pressure_ratio=1., area_ratio=2., fuel_data=JET(), rayleigh_analyses=True)),
          ('core_nozzle', Converters.Supersonic_Nozzle, dict(polytropic_efficiency=1., pressure_ratio=1.)))
    return thrust(net, total)


def scramjet(n, total):
    net = Networks.Scramjet(); net.number_of_engines, net.working_fluid, net.inlet_diameter = float(n), AIR, .21
    parts(net, RAM, ('inlet_nozzle', Converters.Compression_Nozzle, dict(polytropic_efficiency=.9, pressure_ratio=1., compressibility_effects=3., compression_levels=3.,
                                                                         theta=[.10472, .122173, .226893])),
          ('combustor', Converters.Combustor, dict(efficiency=.9, pressure_ratio=1., area_ratio=2., fuel_data=H2(), burner_drag_coefficient=.01, fuel_equivalency_ratio=1.)),
          ('core_nozzle', Converters.Supersonic_Nozzle, dict(polytropic_efficiency=.9, pressure_expansion_ratio=1.1)))
    return thrust(net, total)


def rocket(n, total):
    net = Networks.Liquid_Rocket(); net.number_of_engines = float(n)
    c = Converters.Rocket_Combustor(); c.tag = 'combustor'; c.propellant_data = SUAVE.Attributes.Propellants.LOX_LH2(); c.inputs.combustion_pressure = 5261000.
    net.append(c)
    parts(net, ('core_nozzle', Converters.de_Laval_Nozzle, dict(polytropic_efficiency=1., expansion_ratio=27.5, area_throat=.01092, pressure_ratio=1.)))
    t = Processes.Rocket_Thrust(); t.tag = 'thrust'; t.total_design, t.ISP_design = float(total), 200.; net.thrust = t
    return net


SIZING = dict(turbofan=turbofan_sizing,
              turbojet=turbojet_sizing, ducted_fan=ducted_fan_sizing, ramjet=ramjet_sizing, scramjet=scramjet_sizing, rocket=liquid_rocket_sizing)
BUILD = dict(turbofan=turbofan, turbojet=turbojet, ducted_fan=ducted_fan, ramjet=ramjet, scramjet=scramjet, rocket=rocket)


def size(kind, net, alt, mach):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        if kind == 'rocket': SIZING[kind](net, float(alt))
        else: SIZING[kind](net, float(mach), float(alt))


def run(net, st):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        return net.evaluate_thrust(st)


# --- propeller networks ------------------------------------------------------------
_props = {}
def propeller(i):
    """A few designed propellers, cached."""
    if i not in _props:
        p = Converters.Propeller(); p.tag = 'propeller%d' % i
        p.number_of_blades, p.freestream_velocity, p.angular_velocity = 2 + i % 2, (60. + 5 * i), (2300. + 100 * i) * Units.rpm
        p.tip_radius, p.hub_radius, p.design_Cl, p.design_altitude, p.design_power = .9 + .05 * i, .15, .7, 2000., 60000. + 5000. * i
        p.variable_pitch = True
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            _props[i] = propeller_design(p)
    return copy.deepcopy(_props[i])


def engine(i):
    e = Converters.Internal_Combustion_Engine(); e.tag = 'engine%d' % i
    e.sea_level_power, e.flat_rate_altitude, e.rated_speed, e.power_specific_fuel_consumption = 134000. + 8000 * i, 0., 2700. * Units.rpm, .5 + .02 * i
    return e


def combustion(n, kinds, same, constant=False):
    net = (Networks.Internal_Combustion_Propeller_Constant_Speed if constant else Networks.Internal_Combustion_Propeller)()
    net.number_of_engines, net.identical_propellers = float(n), same
    if constant: net.rated_speed, net.rated_power = 2700. * Units.rpm, 134000.
    for j, k in enumerate(kinds):
        e, p = engine(k), propeller(k)
        e.tag, p.tag = 'engine_%d' % j, 'propeller_%d' % j
        net.engines.append(e); net.propellers.append(p)
    return net


class Cell(SUAVE.Components.Energy.Storages.Batteries.Constant_Mass.Lithium_Ion):
    pass


def electric(cls, n, kinds, same, avionics=0., payload=0.):
    net = cls()
    b = net.battery = Cell()
    b.mass_properties.mass, b.max_energy, b.max_voltage = 100., 1e9, 400.
    net.voltage = 400.
    net.avionics, net.payload = Peripherals.Avionics(), Peripherals.Payload()
    net.avionics.power_draw, net.payload.power_draw = float(avionics), float(payload)
    def esc():
        e = Distributors.Electronic_Speed_Controller(); e.efficiency = .95
        return e
    def motor(p, j):
        m = Converters.Motor(); m.tag = 'motor_%d' % j
        m.gearbox_efficiency, m.nominal_voltage, m.no_load_current, m.propeller_radius = 1., 300., .5, p.tip_radius
        m.speed_constant, m.resistance = .8 + .05 * (j_kind(p) % 3), .02
        return m
    j_kind = lambda p: int(round((p.tip_radius - .9) / .05))
    pr, mo = [propeller(k) for k in kinds], []
    for j, p in enumerate(pr):
        mo.append(motor(p, j)); p.tag = 'propeller_%d' % j
    if cls is Networks.Lift_Cruise:
        (nf, nl), (sf, sl) = n, same
        net.number_of_propeller_engines, net.number_of_lift_rotor_engines, net.identical_propellers, net.identical_lift_rotors = float(nf), float(nl), sf, sl
        net.propeller_esc, net.lift_rotor_esc = esc(), esc()
        for p, m in zip(pr, mo):
            net.propellers.append(p); net.propeller_motors.append(m)
            q = copy.deepcopy(p); q.tag = p.tag.replace('propeller', 'rotor'); q.orientation_euler_angles = [0., np.pi / 2., 0.]
            net.lift_rotors.append(q); net.lift_rotor_motors.append(copy.deepcopy(m))
    else:
        net.esc, net.identical_propellers = esc(), same
        for p, m in zip(pr, mo):
            net.propellers.append(p); (net.motors if cls is Networks.Solar else net.propeller_motors).append(m)
        if cls is Networks.Solar:
            net.number_of_engines = float(n)
            net.solar_flux = Processes.Solar_Radiation()
            s = net.solar_panel = Converters.Solar_Panel(); s.area, s.efficiency, s.mass_properties.mass = 40., .25, 10.
            l = net.solar_logic = Distributors.Solar_Logic(); l.system_voltage, l.MPPT_efficiency = 350., .95
        else: net.number_of_propeller_engines = float(n)
    return net


def state(pts, columns=4, omega=False):
    """pts: [(altitude, mach, throttle, cp, rpm)] -> a state every network can be evaluated in; columns see slightly different cp."""
    st = conditions(pts)
    N = len(pts); one = np.ones((N, 1)); p = st.conditions.propulsion; cols = np.ones((N, columns))
    st.numerics.time.control_points = np.linspace(0., 1., N)[:, None] if N > 1 else one * 0
    st.numerics.time.integrate = np.zeros((N, N)); st.numerics.time.differentiate = np.zeros((N, N))
    p.battery_energy, p.battery_pack_temperature, p.battery_cell_charge_throughput = 6e8 * one, 300. * one, 0. * one
    p.battery_cycle_day, p.battery_discharge_flag, p.battery_resistance_growth_factor, p.battery_capacity_fade_factor = 0, True, 1., 1.
    p.battery_max_aged_energy, p.battery_voltage_under_load = 1e9, 380. * one
    p.propeller_y_axis_rotation = 0. * one
    cp, rpm = (np.array([[float(x[i])] for x in pts]) for i in (3, 4))
    p.propeller_power_coefficient = cp * (1. + .05 * np.arange(columns))
    p.lift_rotor_power_coefficient, p.throttle_lift = cp * (1.2 + .05 * np.arange(columns)), p.throttle * 1.
    for who in ('propeller', 'lift_rotor'):
        for k in ('motor_efficiency', 'motor_torque', 'torque', 'thrust', 'rpm', 'tip_mach', 'efficiency', 'disc_loading', 'power_loading', 'figure_of_merit'):
            p['%s_%s' % (who, k)] = cols * 0.
    for k in ('disc_loading', 'power_loading', 'figure_of_merit', 'engine_torque'): p[k] = cols * 0.
    p.rpm = rpm * (Units.rpm if omega else 1.)
    f = st.conditions.frames
    f.planet.start_time, f.planet.latitude, f.planet.longitude = time.gmtime(1400000000), 30. * one, -100. * one
    f.body.inertial_rotations = np.zeros((N, 3))
    return st
