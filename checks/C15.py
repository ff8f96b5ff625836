"""C15: units convert both ways and stay what they are (specs/Units*.tla)."""
import copy, math, multiprocessing as mp, random
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, worker, SEED
from SUAVE.Core import Units

NAMES = ('m meter km cm mm feet ft foot inch inches yard mile miles nmi nautical_mile nautical_miles s second min minute hr hour hours day week kg kilogram g gram '
         'tonne lb lbs pound pounds slug slugs rad radian deg degree degrees rpm knot knots mph kph N newton newtons kN lbf force_pound Pa kPa MPa psi bar atm '
         'atmosphere W watt kW hp horsepower J joule kJ MJ Wh BTU L liter gallon acre A ampere V volt ohm less Hz '
         'kts meters millimeters centimeter kilometer kilometers micrometer um pascal pascals GPa watts mW megawatt GW kWh kilowatt_hour MWh mA amp amps kiloampere kohm volts minutes '
         'sec seconds hrs ms microsecond gallons force_pounds lbm kilonewton kilonewtons kgf mg milligram turn fathom fortnight kHz MHz coulomb tesla ounce oz calorie').split()


def dec(x):
    x = float(x)
    if not math.isfinite(x): return [999, 99]
    if x == 0.: return [0, 0]
    e = math.floor(math.log10(abs(x))) - 6
    m = int(round(x / 10.**e)) if e > -300 else 0
    if abs(m) > 9999999: m, e = int(round(m / 10.)), e + 1
    if abs(m) < 1000000: m, e = m * 10, e - 1
    return [m, e]


def text(p, rng):
    s = ''
    for k, q in enumerate(p):
        if k and q['n'] == -1 and rng.random() < .2: s += ' per ' + q['u']
        elif k and q['n'] > 0 and rng.random() < .1: s = '%s*(%s%s)' % (s, q['u'], '**%d' % q['n'] if q['n'] != 1 else '')
        elif k and q['n'] < 0 and rng.random() < .2: s = '(%s)/(%s%s)' % (s, q['u'], '^%d' % -q['n'])
        elif k and q['n'] < 0 and rng.random() < .7: s += '/%s' % q['u'] + ('**%d' % -q['n'] if q['n'] < -1 else '')
        else: s += ('*' if k else '') + q['u'] + ('**%d' % q['n'] if q['n'] != 1 else '')
    return s


class World(object):
    def __init__(self, rng):
        self.rng, self.v, self.h = rng, {k: Units['m'] for k in range(1, 5)}, [dict(op='reset')]
        for k in self.v: self.get(k, [dict(u='m', n=1)])

    def get(self, v, p):
        one = len(p) == 1 and p[0]['n'] == 1
        self.v[v] = getattr(Units, p[0]['u']) if one and self.rng.random() < .6 else Units[text(p, self.rng)]
        self.h.append(dict(op='get', v=v, p=p))

    def mul(self, v, a, b): self.v[v] = self.v[a] * self.v[b]; self.h.append(dict(op='mul', v=v, a=a, b=b))
    def div(self, v, a, b): self.v[v] = self.v[a] / self.v[b]; self.h.append(dict(op='div', v=v, a=a, b=b))
    def pow(self, v, a, n): self.v[v] = self.v[a]**n; self.h.append(dict(op='pow', v=v, a=a, n=n))

    def half(self, v, a, n):
        # units keep their powers to six digits, so a half of a half of a half ... is not asked for
        if any('.' in str(x) and float(x) != int(x) for x in self.v[a]._units.values()): return
        self.v[v] = self.v[a]**(n / 2.); self.h.append(dict(op='half', v=v, a=a, n=n))

    def copy(self, v, a):
        self.v[v] = self.rng.choice([lambda u: u, copy.copy])(self.v[a])
        self.h.append(dict(op='copy', v=v, a=a))

    def value(self):
        rng = self.rng
        one = lambda: rng.choice([0., 1., 2.5, -3., 1e3, 1e-4, 7., rng.uniform(-900, 900)])
        k = rng.randrange(6)
        if k == 0: return one()
        if k == 1: return rng.choice([0, 1, -4, 33000])
        if k == 2: return np.float64(one())
        if k == 3: return np.array([one() for _ in range(rng.randrange(1, 4))])
        if k == 4: return np.array([rng.randrange(-9, 99) for _ in range(3)])
        return np.array([[one()] for _ in range(rng.randrange(1, 4))])

    def use(self, way, v, x=None):
        x = self.value() if x is None else x
        u, was = self.v[v], copy.deepcopy(x)
        if way == 'in': y = u * x if self.rng.random() < .3 else x * u
        else: y = x / u
        arr = isinstance(x, np.ndarray)
        kept = (np.array_equal(x, was) and (not arr or not np.shares_memory(x, y))) if isinstance(y, np.ndarray) or not arr else False
        self.h.append(dict(op=way, v=v, x=[dec(q) for q in np.ravel(was)], got=[dec(q) for q in np.ravel(y)], kept=bool(kept), form=isinstance(y, np.ndarray) == arr and np.shape(y) == np.shape(x)))
        return y

    def temp(self):
        rng = self.rng
        u, way = rng.choice(['degC', 'degF', 'K', 'degR']), rng.choice(['in', 'out'])
        q = [rng.randrange(-4000, 20000) if way == 'in' else rng.randrange(20000, 40000) for _ in range(rng.randrange(1, 4))]
        whole = rng.random() < .4
        if whole: q = [z // 100 * 100 for z in q]
        x = (np.array(q) // 100 if whole else np.array(q) / 100.) if len(q) > 1 or rng.random() < .2 else q[0] // 100 if whole else q[0] / 100.
        was = copy.deepcopy(x)
        t = getattr(Units, u)
        for _ in range(rng.randrange(1, 3)): y = x * t if way == 'in' else x / t
        self.h.append(dict(op='temp', u=u, way=way, x=q, got=[int(round(float(z) * 100)) for z in np.ravel(y)], kept=bool(np.array_equal(x, was))))


@worker
def history(seed):
    rng = random.Random(seed)
    w = World(rng)
    for _ in range(rng.randrange(6, 16)):
        v, a, b = rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(1, 5)
        op = rng.choice(['get', 'get', 'mul', 'div', 'pow', 'half', 'copy', 'in', 'in', 'in', 'out', 'out', 'out', 'trip', 'temp'])
        if op == 'get':
            n = rng.choice([1, 1, 1, 2, 3])
            us = rng.sample(NAMES, n)
            w.get(v, [dict(u=u, n=rng.choice([1, 1, 1, 2, -1, -2]) if n > 1 and k else 1) for k, u in enumerate(us)])
        elif op in ('mul', 'div'): getattr(w, op)(v, a, b)
        elif op == 'pow': w.pow(v, a, rng.choice([2, 3, -1, -2]))
        elif op == 'half': w.half(v, a, rng.choice([1, 3, -1, 5]))
        elif op == 'copy': w.copy(v, a)
        elif op == 'trip': w.use('out', a, w.use('in', a)); w.use('in', b, w.use('out', b))
        elif op == 'temp': w.temp()
        else: w.use(op, v)
        if any(abs(math.log10(float(abs(dec(1. * w.v[k])[0])) or 1) + dec(1. * w.v[k])[1]) > 60 for k in (v, a, b)): break
    return w.h


@worker
def replay(arg):
    b, k = arg
    w = World(random.Random(SEED * 31 + k))
    w.get(1, [dict(u=b['a'], n=1)]); w.get(2, [dict(u=b['b'], n=1)]); w.copy(3, 1); w.copy(4, 2)
    x = w.rng.choice([2.5, np.array([2.5, -1.])])
    for o in b['h']:
        if o['op'] == 'pow': w.pow(o['k'], o['k'] + 2, o['n'])
        else: x = w.use(o['op'], o['k'], x)
    w.use('in', 3); w.use('out', 4)
    return w.h


def main():
    c = Check('C15')
    inv = ''.join('INVARIANT %s\n' % x for x in 'Back Commutes Root Inverse Worth TempBack Fixed Known'.split())
    c.model('UnitsMC', tlc.run('UnitsMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv, consts=dict(D=tier(2, 3), Emit='FALSE'), workers=8))
    beh = tlc.run('UnitsMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n', consts=dict(D=tier(2, 3), Emit='TRUE'), workers=1).json_lines('HIST')
    c.rng.shuffle(beh)
    beh = beh[:tier(400, 6000)]
    c.count('spec_behaviours_replayed', len(beh))
    with mp.Pool(8) as pool:
        hs = pool.map(replay, [(b, i) for i, b in enumerate(beh)], chunksize=8)
        hs += pool.map(history, [SEED * 9001 + i for i in range(tier(1500, 30000))], chunksize=8)
    # every name of the table, both ways, as attribute and as text
    w = World(random.Random(SEED))
    for n in NAMES:
        w.get(1, [dict(u=n, n=1)]); w.use('in', 1, 2.); w.use('out', 1, np.array([5., 1.]))
    hs.append(w.h)
    c.count('conversions', sum(1 for h in hs for e in h if e['op'] in ('in', 'out', 'temp')))
    c.sample([e['op'] for e in hs[-8]])
    trace.validate(c, 'UnitsTrace', hs, chunk=6000)
    c.assumptions += ['names are those of the table in the specification; units with a zero of their own (temperatures) are not combined with others']
    c.finish()


if __name__ == '__main__':
    guard(main)
