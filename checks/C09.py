"""C09: control-point arrays, joined missions and the solver binding (specs/Rows*.tla, FlightTrace for whole flights)."""
import contextlib, io, multiprocessing as mp, random, warnings
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, SEED
import SUAVE
from SUAVE.Core import Data
from SUAVE.Methods.Missions.Segments import converge_root, expand_state
from SUAVE.Methods.Missions.Segments.converge_root import iterate
from SUAVE.Methods.Missions.Segments.Common import Sub_Segments
import importlib
CR = importlib.import_module('SUAVE.Methods.Missions.Segments.converge_root')
from SUAVE.Analyses.Mission.Segments.Conditions import Conditions, State
from SUAVE.Analyses.Mission.Segments.Conditions.Conditions import expanded_array
from flightlib import BLANK, NONE, World, make, observe, sensible, altitudes, Energy
import C10

GROUPS = ('unknowns', 'conditions', 'residuals', 'initials', 'numerics', 'extra')


def num(v):
    return int(v) if float(v) == int(v) and abs(v) < 1e9 else 999999


def rowsof(m):
    return [[num(v) for v in r] for r in m]


def nodes(o, p=(), want=None):
    """The nodes of a state (bookkeeping of Numerics and the tag left out)."""
    out = []
    for k, v in ([('', o)] if not p and want is None else dict.items(o)):
        q = list(p) + [k] if k else []
        if k == 'tag' or (len(q) == 1 and q[0] not in GROUPS and want != 'all') or (len(q) == 2 and q[0] == 'numerics' and not q[1].startswith('z')):
            continue
        d = dict(p=q, t='', m=[], adj=0, n=0)
        if isinstance(v, Conditions):
            d['t'], d['n'] = 'cond', num(v._size)
            out += [d] + nodes(v, q, want='in')
        elif isinstance(v, expanded_array):
            d.update(t='exp', m=rowsof(v._array), adj=v._adjustment); out.append(d)
        elif isinstance(v, Data):
            d['t'] = 'data'; out += [d] + nodes(v, q, want='in')
        elif isinstance(v, np.ndarray) and v.ndim == 2:
            d.update(t='arr', m=rowsof(v)); out.append(d)
        elif isinstance(v, np.ndarray):
            d.update(t='vec', m=[[num(x) for x in v.ravel()]]); out.append(d)
        elif isinstance(v, (int, float)):
            d.update(t='num', m=[[num(v)]]); out.append(d)
    return out


class Bench(object):
    """Real segments in a real all-at-once mission."""
    def __init__(self, rng, plan):
        self.rng, self.k = rng, 0
        self.m = SUAVE.Analyses.Mission.All_At_Once()
        self.m.process.initialize.clear()
        self.m.process.converge.clear()
        self.segs = []
        for i, spec in enumerate(plan):
            s = SUAVE.Analyses.Mission.Segments.Segment()
            s.tag = 's%d' % i
            s.state.numerics.number_control_points = spec['n']
            s.process.initialize.expand_state = expand_state
            s.process.iterate.residuals.answer = answer
            self.fill(s.state, spec['keys'])
            self.m.append_segment(s)
            self.segs.append(self.m.segments[s.tag])
        self.asked = []

    def vals(self, rows, cols):
        self.k += rows * cols
        return np.arange(self.k, self.k + rows * cols, dtype=float).reshape(rows, cols) % 9973

    def fill(self, st, keys):
        rng, one = self.rng, st.ones_row
        for k, w in keys:
            if w == 'e':
                st.unknowns[k] = st.ones_row_m1(1) * float(rng.randrange(100))
                st.residuals[k] = st.ones_row_m1(1) * 0.
            elif w == 'f':
                st.unknowns[k] = float(rng.randrange(100)) * st.ones_row_m2(1)
                st.residuals[k] = 0. * st.ones_row_m2(1)
            else:
                st.unknowns[k] = one(w) * float(rng.randrange(100)) + np.arange(w)
                st.residuals[k] = one(w) * 0.
        st.numerics.z = self.vals(1, 2)
        st.initials.w = self.vals(1, 1)
        c = st.conditions
        c.base = self.vals(1, 3)
        c.sub = Conditions(); c.sub.deep = Conditions()
        c.sub.a = self.vals(1, 1); c.sub.deep.b = self.vals(1, 2)
        c.sub.plain = Data(); c.sub.plain.y = self.vals(1, 2)
        if rng.random() < .5: c.sub.many = self.vals(rng.randrange(2, 5), 2)
        if rng.random() < .5: c.number = float(rng.randrange(50))
        if rng.random() < .5: c.sub.vec = self.vals(1, 3)[0]
        if rng.random() < .4: c.sub.wait = st.ones_row_m1(1) * 3.
        if rng.random() < .3: st.extra = self.vals(rng.choice([1, 3]), 2)

    def post(self):
        return [nodes(s.state) for s in self.segs]

    def joined(self):
        return [x for x in nodes(self.m.state) if x['p'] and x['p'][0] in ('unknowns', 'conditions', 'residuals')]


def answer(seg):
    for k, v in seg.state.unknowns.items():
        if k in seg.state.residuals and isinstance(v, np.ndarray):
            seg.state.residuals[k] = v + 1.


def ints(v):
    return [num(x) for x in np.asarray(v).ravel()]


def shared(a, b):
    arrs = lambda o: [v for k, v in dict.items(o) if isinstance(v, np.ndarray)] + sum([arrs(v) for k, v in dict.items(o) if isinstance(v, Data)], [])
    xs, ys = arrs(a), arrs(b)
    return any(np.shares_memory(x, y) for x in xs for y in ys)


def history(seed, plan=None):
    rng = random.Random(seed)
    if plan is None:
        names = [('throttle', 1), ('angle', 1), ('power', 2), ('speeds', 3), ('vx', 'e'), ('mid', 'f')]
        plan = [dict(n=rng.randrange(3, 7), keys=rng.sample(names, rng.randrange(0, 5))) for _ in range(rng.randrange(1, 5))]
    b = Bench(rng, plan)
    h = [dict(op='reset', post=b.post())]

    def step(op, f, **kw):
        e = dict(op=op, res='ok', **kw)
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f(e)
        except Exception as x:
            e['res'] = repr(x)[:200]
        e['post'] = b.post()
        h.append(e)
        return e['res'] == 'ok'

    for _ in range(rng.randrange(0, 3)):                # one segment grown by itself, or a condition set by the user
        i = rng.randrange(len(b.segs)); st = b.segs[i].state
        if rng.random() < .5:
            n, ov = rng.randrange(3, 7), rng.random() < .3
            plan[i]['n'] = b.segs[i].state.numerics.number_control_points = n
            step('expand', lambda e: st.expand_rows(n, ov) if ov else st.expand_rows(n), i=i + 1, n=n, ov=ov)
        else:
            w = rng.randrange(1, 3)                     # a key holds the same number of columns wherever it is set
            st.conditions.sub['own%d' % w] = b.vals(rng.choice([1, 1, 4]), w); step('set', lambda e: None)
    ns = [s.state.numerics.number_control_points for s in b.segs]

    def begin(e):
        Sub_Segments.expand_sub_segments(b.m)
        e['chained'] = all(y.state.initials is x.state for x, y in zip(b.segs, b.segs[1:]))
        for s in b.segs[1:]:                            # the chain is judged; leave it out of what is recorded
            s.state.initials = Conditions()

    def nowait(e):                                      # the chain replaces what the user left in initials
        for s in b.segs[1:]:
            s.state.initials = Conditions()
    step('set', nowait)
    step('begin', begin, ns=ns, fresh=True)

    def join(e):
        Sub_Segments.merge_sub_segment_states(b.m)
        e['joined'] = b.joined()
        e['out'] = ints(b.m.state.unknowns.pack_array())
        e['apart'] = not any(shared(b.m.state, s.state) for s in b.segs)
    if not step('join', join): return h
    for i, s in enumerate(b.segs):
        paths = [[], ['conditions'], ['conditions', 'sub'], ['conditions', 'sub', 'deep'], ['unknowns']]
        p, c = rng.choice(paths), rng.randrange(1, 4)

        def ones(e, s=s, p=p, c=c):
            o = s.state
            for k in p: o = o[k]
            e['shape'] = list(np.shape(o.ones_row(c)))
        step('ones', ones, i=i + 1, p=p, c=c)
    for _ in range(rng.randrange(1, 4)):
        ln = b.m.state.unknowns.pack_array().size
        if ln == 0: break
        if rng.random() < .4:
            step('begin', begin, ns=ns, fresh=False)    # a second initialization must leave grown arrays alone
            step('join', join)
        vec = [rng.randrange(1000) for _ in range(ln)]
        if rng.random() < .5:
            def it(e):
                e['out'] = ints(iterate(np.array(vec, dtype=float), b.m))
                e['joined'] = b.joined()
            ok = step('iterate', it, vec=vec)
        else:
            ier = rng.choice([1, 1, 2, 4, 5])
            nm = b.m.state.numerics
            nm.tolerance_solution, nm.max_evaluations, nm.step_size = rng.choice([1e-8, 1e-4]), float(rng.randrange(100)), rng.choice([None, 1e-3])
            asked = [str(nm.tolerance_solution), str(nm.max_evaluations), str(nm.step_size)]

            def finder(f, x0, args=(), xtol=0, maxfev=0, epsfcn=0, full_output=0, **kw):
                finder.start, finder.given = ints(x0), [str(xtol), str(maxfev), str(epsfcn)]
                f(np.array(x0, dtype=float) + 7., args)
                f(np.array(vec, dtype=float), args)
                return np.array(vec, dtype=float), {}, ier, 'message'
            b.m.settings = Data(root_finder=finder)

            def solve(e):
                converge_root(b.m)
                e.update(start=finder.start, given=finder.given, flag=bool(b.m.converged))
            ok = step('solve', solve, vec=vec, ier=ier, asked=asked)
        if not ok: break
    return h


def fromspec(b):
    """A behaviour of RowsMC: the same segments, for real."""
    w = dict(u=1, w=2, e='e')
    return history(SEED, [dict(n=s['rows'], keys=[(k, w[k]) for k in s['keys']]) for s in b])


# ---- whole flights --------------------------------------------------------------------------------
KINDS_ALL = ['vR', 'vA', 'vC', 'vW', 'MC', 'MR', 'MW', 'easR', 'casR', 'lMR', 'lvR', 'vL', 'aC', 'MC', 'vC']


def whole(seed):
    rng = random.Random(seed)
    m0, md = rng.choice([6000, 8000, 10000]), rng.choice([1, 2, 4])
    kind = rng.choice(['all', 'weight', 'charge'])
    segs = []
    want = rng.randrange(2, 5)
    if kind != 'all':
        want = 3
    for _ in range(80):
        if len(segs) >= want: break
        only = KINDS_ALL
        if kind != 'all': only = ['vC'] if len(segs) == 1 else ['vR', 'vW']
        s = C10.rseg(rng, segs, only)
        s['dT'] = 0
        if kind != 'all':
            if s['kind'] == 'vR':
                s['r'] = 10; s['v'] = max(s['v'], 100)
            if s['kind'] == 'vC': s['v'] = rng.choice([100, 150, 200]); s['d'] = 10000
        if sensible(segs + [s], m0): segs.append(s)
    if len(segs) < want: return None
    M = SUAVE.Analyses.Mission
    m = M.All_At_Once() if kind == 'all' else M.Variable_Range_Cruise.Given_Weight() if kind == 'weight' else M.Variable_Range_Cruise.Given_State_of_Charge()
    h = [dict(op='reset', m0=m0, md=md, la=0)]
    real = []
    for i, s in enumerate(segs):
        g = make(s, md, m0, rng.choice([4, 4, 3]), 's%d' % i)
        if kind == 'charge': g.analyses.energy = Charged(g.analyses.energy)
        m.append_segment(g); real.append(m.segments['s%d' % i]); h.append(dict(op='add', seg=dict(s)))
    tw, end = 0, 0
    if kind != 'all':
        others = sum(abs(b - a) / s['r'] if s['kind'] == 'vR' else s['T'] if s['kind'] == 'vW' else 0 for s, (a, b) in zip(segs, altitudes(segs)))
        cruise = rng.randrange(2, 20) * 10                    # seconds of cruise that meet the target
        end = others + cruise
        m.cruise_tag = 's1'
        if kind == 'weight':
            tw = int(round(m0 - md * end)); m.target_landing_weight = float(tw)
        else:
            m.target_state_of_charge = 1. - end / 10000.
    e = dict(op='solve', tw=tw, end=int(round(100 * end)), i=2 if kind != 'all' else 1, d=segs[0]['d'])
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            m.evaluate()
            e['res'] = [observe(s, g) for s, g in zip(segs, real)]
            for r in e['res']: r['conv'] = bool(m.converged)
            if kind != 'all': e['d'] = int(round(float(np.ravel(real[1].distance)[0])))
        except Exception as x:
            e['res'], e['error'] = [], repr(x)[:300]
    h.append(e)
    return h


class Charged(Energy):
    def __init__(self, e):
        Energy.__init__(self)
        self.mdot, self.up = e.mdot, e.up

    def evaluate_thrust(self, st):
        st.conditions.propulsion.battery_state_of_charge = 1. - st.conditions.frames.inertial.time / 10000.
        return Energy.evaluate_thrust(self, st)


def main():
    c = Check('C09')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Grown1 KeptOut PlainData NothingLost Ordered RoundTrip Answers'.split())
    for n, s in tier([(4, 2), (3, 3)], [(6, 2), (5, 3)]):
        c.model('RowsMC N=%d Segs=%d' % (n, s), tlc.run('RowsMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv,
                                                        consts=dict(N=n, Segs=s, Emit='FALSE'), workers=8))
    r = tlc.run('RowsMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(N=4, Segs=2, Emit='TRUE'), workers=1)
    beh = r.json_lines('HIST')
    c.rng.shuffle(beh)
    beh = beh[:tier(150, 400)]
    c.count('spec_behaviours_replayed', len(beh))
    with mp.Pool(8) as pool:
        hs = pool.map(fromspec, beh, chunksize=8) + pool.map(history, [SEED * 7919 + i for i in range(tier(250, 6000))], chunksize=8)
        fs = [f for f in pool.map(whole, [SEED * 104729 + i for i in range(tier(120, 2000))], chunksize=2) if f]
    c.sample([e['op'] for e in hs[-1]])
    c.sample([(e.get('seg') or {}).get('kind', e['op']) for e in fs[0]])
    c.count('missions_flown_all_at_once', len(fs))
    trace.validate(c, 'RowsTrace', hs)
    trace.validate(c, 'FlightTrace', fs)
    c.assumptions += ['flights use the exact analyses of C10', 'unknowns and residuals are arrays over control points '
                      '(segments with scalar unknowns are flown one after the other only)']
    c.finish()


if __name__ == '__main__':
    guard(main)
