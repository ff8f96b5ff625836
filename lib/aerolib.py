"""Vehicles of a few parts and aerodynamic analyses of them, small enough to be evaluated thousands of times."""
import copy
import numpy as np
import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Components import Wings, Fuselages, Nacelles
from SUAVE.Components.Energy import Networks
from SUAVE.Methods.Geometry.Two_Dimensional.Planform import wing_planform, wing_segmented_planform
from SUAVE.Analyses import Aerodynamics as A
from SUAVE.Methods.Aerodynamics.Common import Fidelity_Zero as Common
from SUAVE.Methods.Aerodynamics import Supersonic_Zero as Super
Conditions = SUAVE.Analyses.Mission.Segments.Conditions


def wing(cls, tag, S, AR, taper, sweep, sym=True, vert=False, tc=.12, x=0., segs=None, twist=(0., 0.), dihedral=0.):
    w = cls(); w.tag = tag
    w.areas.reference, w.aspect_ratio, w.taper, w.thickness_to_chord = float(S), AR, taper, tc
    w.sweeps.quarter_chord, w.symmetric, w.vertical, w.origin, w.dihedral = sweep * Units.deg, sym, vert, [[x, 0., 0.]], dihedral * Units.deg
    w.twists.root, w.twists.tip = twist[0] * Units.deg, twist[1] * Units.deg
    w.spans.projected = np.sqrt(S * AR)
    wing_planform(w)
    if segs:
        for j, (y, c, sw) in enumerate(segs):
            g = Wings.Segment(); g.tag = 'section_%d' % j
            g.percent_span_location, g.root_chord_percent, g.twist, g.sweeps.quarter_chord, g.dihedral_outboard, g.thickness_to_chord = y, c, 0., sw * Units.deg, 0., tc
            w.append_segment(g)
        wing_segmented_planform(w, overwrite_reference=False)
        w.areas.reference = float(S)
        w.areas.wetted = 2. * S
    w.aerodynamic_center, w.total_length = [0., 0., 0.], w.chords.root * 1.5
    return w


def body(tag, front, wet, length, d):
    f = Fuselages.Fuselage(); f.tag = tag
    f.areas.front_projected, f.areas.wetted, f.lengths.total, f.effective_diameter = front, wet, length, d
    return f


def pod(tag, d, length, wet, n):
    q = Nacelles.Nacelle(); q.tag = tag
    q.diameter, q.length, q.areas.wetted, q.origin = d, length, wet, [[1., float(i), 0.] for i in range(n)]
    return q


def vehicle(sref, networks=1):
    v = SUAVE.Vehicle(); v.reference_area, v.total_length, v.maximum_cross_sectional_area = float(sref), 38., 14.
    for i in range(networks):
        n = Networks.Network(); n.tag = 'network_%d' % i
        v.append_component(n)
    return v


def state(pts):
    """pts: (altitude, Mach, angle of attack in degrees)"""
    st = Conditions.State(); st.conditions = c = Conditions.Aerodynamics(); st.expand_rows(len(pts))
    h = np.array([[float(p[0])] for p in pts]); d = SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(h)
    M = np.array([[float(p[1])] for p in pts]); V = M * d.speed_of_sound
    f = c.freestream
    f.altitude, f.mach_number, f.velocity, f.temperature, f.density, f.pressure = h, M, V, d.temperature, d.density, d.pressure
    f.reynolds_number, f.dynamic_viscosity, f.speed_of_sound, f.dynamic_pressure = d.density * V / d.dynamic_viscosity, d.dynamic_viscosity, d.speed_of_sound, .5 * d.density * V**2
    c.aerodynamics.angle_of_attack = np.array([[p[2] * Units.deg] for p in pts])
    return st


ALPHA = (-5., 0., 5., 10.)
SUB, SUP = (0., .2, .5, .8), (1.3, 1.5, 2., 2.5)


def analysis(model, v):
    a = dict(zero=A.Fidelity_Zero, vlm=A.Fidelity_Zero, super=A.Supersonic_Zero, line=A.Fidelity_Zero, stall=A.AERODAS)[model]()
    a.geometry = v
    if model != 'stall':
        a.settings.number_spanwise_vortices, a.settings.number_chordwise_vortices = (8, 1) if model == 'line' else (3, 2)
        a.settings.use_surrogate = model != 'vlm'
        if model == 'line': a.process.compute.lift.inviscid_wings = A.Lifting_Line()
        else:
            t = a.process.compute.lift.inviscid_wings.training
            t.angle_of_attack, t.Mach = np.array([ALPHA]).T * Units.deg, np.array([SUB + (SUP if model == 'super' else ())]).T
    start(model, a)
    return a


def start(model, a):
    """(Re)initialise for the geometry as it is now."""
    if model != 'stall': a.initialize()
