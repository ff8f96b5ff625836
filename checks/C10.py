"""C10: missions flown segment by segment (specs/Flight*.tla)."""
import multiprocessing as mp
import random
import tlc, trace
from vcore import Check, guard, tier, SEED
from flightlib import BLANK, NONE, COURSES, KINDS, LEVEL, World, sensible, altitudes, inputs, Seg


def mk(**k):
    d = dict(BLANK); d.update(k)
    return d


def rseg(rng, segs, only=None):
    """A random segment that fits behind segs."""
    al = altitudes(segs) if segs else []
    cur = al[-1][1] if al else None
    k = rng.choice(only or sorted(KINDS))
    s = mk(kind=k, v=25 * rng.randrange(4, 9))
    s['a0'] = NONE if cur is not None and rng.random() < .65 else 250 * rng.randrange(0, 17)
    a = s['a0'] if s['a0'] != NONE else cur
    s['dT'] = 75 if rng.random() < .15 and s['kind'] not in ('thR', 'thC', 'piC', 'to', 'la', 'hov', 'hcl') else 0
    s['cx'], s['cy'] = rng.choice(COURSES)
    if k in ('thC', 'piC', 'to', 'la') and a > 1000: s['a0'] = a = 250 * rng.randrange(0, 5)
    if k in ('qR', 'qC', 'qW'):
        s['dT'] = 0
        if a > 1000: s['a0'] = a = 250 * rng.randrange(0, 5)
    if k == 'thR' and a > 2000: s['a0'] = a = 250 * rng.randrange(0, 9)
    if k not in LEVEL:
        s['dn'] = bool(KINDS[k][1]) and a >= 500 and rng.random() < .5
        s['a1'] = 250 * rng.randrange(0, a // 250) if s['dn'] else a + 250 * rng.randrange(1, 8)
    if k == 'thR': s['a1'], s['T'], s['v'] = a + 1000, rng.choice([14, 16, 18]), 100
    if k[0] in 'Ml' and k not in ('lvR', 'la'): s['v'] = rng.randrange(6, 12); s['w'] = rng.randrange(6, 12)
    if k[0] in 'eq' or k == 'casR': s['v'] = rng.randrange(8, 14) * 5
    if k in ('qR', 'qC', 'qW'):
        s['v'] = rng.randrange(10, 14) * 5
        if k == 'qR': s['a1'] = a + 250 * rng.randrange(1, 3)
    if k in ('lvR', 'aC', 'thC'): s['w'] = s['v'] + 25 * rng.randrange(1, 3)
    if k.endswith('R'): s['r'] = rng.randrange(4, 21)
    if k == 'hcl': s['r'] = rng.randrange(2, 9)
    if k in ('vA', 'MA', 'qA') and rng.random() < .3: s['s'], s['c'] = 4, 3
    if k in ('vL', 'ML'): s['d'] = abs(s['a1'] - a) * rng.randrange(3, 9)
    if k in ('vC', 'MC', 'qC'): s['d'] = 1000 * rng.randrange(2, 40)
    if k in ('vW', 'MW', 'qW', 'hov'): s['T'] = 10 * rng.randrange(1, 30)
    if k in ('aC', 'tpC'): s['r'] = rng.randrange(1, 4)
    if k in ('piC', 'tpC'):
        s['p0'] = NONE if segs and segs[-1]['kind'] in ('piC', 'tpC') and rng.random() < .7 else rng.randrange(10, 40)
        p0 = s['p0'] if s['p0'] != NONE else segs[-1]['p1']
        s['p1'] = p0 + rng.randrange(5, 30)
        if k == 'tpC': s['v'] = 40; s['w'] = 40 + 5 * rng.randrange(1, 5); s['p1'] = rng.choice([s['p1'], max(1, p0 - rng.randrange(1, 20))])
        else: s['r'] = rng.randrange(1, 4); s['v'] = 0
    if k == 'thC':
        s['T'] = rng.choice([35, 40]); s['v'] = rng.choice([100, 125]); s['w'] = s['v'] + 25
        if s['a0'] == 0: s['a0'] = 250
        if segs and segs[-1]['kind'] in ('vC', 'vW') and segs[-1]['v'] in (100, 125):
            s['v'], s['w'] = NONE, segs[-1]['v'] + 25          # inherited speed
    if k == 'to': s['v'], s['w'], s['T'] = rng.choice([0, 10, 20]) or 5, 10 * rng.randrange(4, 8), rng.choice([20, 30])
    if k == 'la': s['v'], s['w'] = 10 * rng.randrange(4, 8), 5 * rng.randrange(1, 5)
    return s


def redit(rng, w):
    """A random change of one input which still fits."""
    for _ in range(30):
        i = rng.randrange(len(w.segs))
        s = w.segs[i]
        key = rng.choice(['a0', 'a1', 'v', 'w', 'r', 'd', 'T', 'cx', 'p0', 'p1'])
        val = dict(a0=NONE if rng.random() < .4 else 250 * rng.randrange(0, 17), a1=250 * rng.randrange(0, 20),
                   v=s['v'] + rng.choice([-1, 1]), w=s['w'] + rng.choice([1, -1, 2]), r=max(1, s['r'] + rng.choice([-1, 1])),
                   d=s['d'] + 500, T=s['T'] + rng.choice([1, 5]), cx=-s['cx'], p0=NONE if rng.random() < .4 else rng.randrange(10, 40),
                   p1=s['p1'] + rng.randrange(1, 9))[key]
        new = dict(s); new[key] = val
        if inputs(new) == inputs(s) or s['kind'] in ('to', 'la', 'thC', 'thR') and key in ('v', 'w', 'T'):
            continue
        ss = list(w.segs); ss[i] = new
        if sensible(ss, w.m0):
            return dict(op='edit', i=i + 1, key=key, val=val)
    return None


def flight(seed):
    rng = random.Random(seed)
    m0, md, la = rng.choice([6000, 8000, 10000]), rng.choice([1, 2, 3]), rng.choice([0, 0, 60])
    w = World(m0, md, la)
    h = [dict(op='reset', m0=m0, md=md, la=la)]
    bases = {}

    def add(s):
        n = rng.choice([4, 4, 4, 3])
        if s['kind'] in ('thC', 'to', 'la', 'piC', 'MA', 'qA', 'thR'): n = 4
        base = bases.setdefault(n, Seg.Segment()) if rng.random() < .7 else None     # one base shared by many segments
        w.add(s, n, base); h.append(dict(op='add', seg=dict(s)))

    def fly():
        h.append(dict(op='fly', res=w.fly()))
    n = rng.randrange(1, 6)
    kinds = rng.sample(sorted(KINDS), 6) + ['vC', 'vR']
    if rng.random() < .2: kinds = ['piC', 'tpC', 'piC', 'tpC', 'thC', 'vC', 'vC', 'thC']
    for _ in range(60):
        if len(w.segs) >= n: break
        s = rseg(rng, w.segs, kinds)
        if sensible(w.segs + [s], m0): add(s)
    if not w.segs: add(mk(kind='vC', a0=1000, v=150, d=5000))
    fly()
    for _ in range(rng.randrange(0, 4)):
        r = rng.random()
        if r < .2:
            pass
        elif r < .3:
            m0 = rng.choice([7000, 9000]); w.mass(m0); h.append(dict(op='mass', val=m0))
        elif r < .4 and len(w.segs) < 6:
            s = rseg(rng, w.segs)
            if sensible(w.segs + [s], m0): add(s)
        else:
            e = redit(rng, w)
            if e: w.edit(e['i'] - 1, e['key'], e['val']); h.append(e)
        fly()
    return h


def again(arg):
    """Every kind of segment behind a climb, flown again after the climb's end has been moved."""
    kind, dn, seed = arg
    rng = random.Random(seed)
    for _ in range(400):
        first = mk(kind='vR', a0=0, a1=rng.choice([500, 750, 1000]), v=rng.choice([100, 125]), r=10, cx=3, cy=4)
        s = rseg(rng, [first], [kind])
        last = mk(kind='vC', a0=NONE, v=100, d=5000)
        s['a0'] = NONE
        moved = dict(first, a1=first['a1'] + rng.choice([-250, 250]))
        if s['dn'] == dn and sensible([first, s, last], 8000) and sensible([moved, s, last], 8000): break
    else:
        return None
    w = World(8000, 2, 0)
    h = [dict(op='reset', m0=8000, md=2, la=0)]
    for x in (first, s, last):
        w.add(x, 4); h.append(dict(op='add', seg=dict(x)))
    h.append(dict(op='fly', res=w.fly()))
    w.edit(0, 'a1', moved['a1']); h.append(dict(op='edit', i=1, key='a1', val=moved['a1']))
    h.append(dict(op='fly', res=w.fly()))
    return h


def replay(hist):
    """A behaviour of FlightMC: fly the first mission, then the edited one."""
    w = World(10000, 2, 0)
    h = [dict(op='reset', m0=10000, md=2, la=0)]
    for s in hist[0]:
        w.add(s, 3); h.append(dict(op='add', seg=dict(s)))
    h.append(dict(op='fly', res=w.fly()))
    for ss in hist[1:]:
        for i, (a, b) in enumerate(zip(w.segs, ss)):
            for k in b:
                if a[k] != b[k]:
                    w.edit(i, k, b[k]); h.append(dict(op='edit', i=i + 1, key=k, val=b[k]))
        h.append(dict(op='fly', res=w.fly()))
    return h


def main():
    c = Check('C10')
    inv = ''.join('INVARIANT %s\n' % x for x in ('Accepted', 'Pinned', 'Forward', 'Continuous', 'Arrives'))
    r = tlc.run('FlightMC', 'SPECIFICATION Spec\nCONSTRAINT Bound\n%sCHECK_DEADLOCK FALSE\n' % inv,
                consts=dict(N=tier(3, 4), Emit='FALSE'), workers=8)
    c.model('FlightMC', r)
    r = tlc.run('FlightMC', 'SPECIFICATION Spec\nCONSTRAINT Bound\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n',
                consts=dict(N=tier(2, 3), Emit='TRUE'), workers=1)
    beh = [b for b in r.json_lines('HIST') if len(b) == 2]
    c.rng.shuffle(beh)
    beh = beh[:tier(120, 1500)]
    c.count('spec_behaviours_replayed', len(beh))
    with mp.Pool(8) as pool:
        hs = pool.map(replay, beh, chunksize=4) + pool.map(flight, [SEED * 100003 + i for i in range(tier(160, 3000))], chunksize=2)
        more = [(k, dn, SEED * 31 + j) for k in sorted(KINDS) for dn in (False, True) if not dn or KINDS[k][1] and k not in LEVEL
                for j in range(tier(1, 10))]
        got = [h for h in pool.map(again, more, chunksize=1) if h]
    c.count('reflown_kinds', len(set(h[2]['seg']['kind'] for h in got)))
    hs += got
    hs.append(replay([[mk(kind='qR', a0=1000, a1=2000, v=50, r=8), mk(kind='qC', a0=NONE, v=50, d=20000), mk(kind='qW', a0=NONE, v=50, T=60)]]))
    c.count('flights', sum(e['op'] == 'fly' for h in hs for e in h))
    c.count('segments_flown', sum(len(e['res']) for h in hs for e in h if e['op'] == 'fly'))
    c.sample([(e['op'], (e.get('seg') or {}).get('kind')) for e in hs[-1]])
    trace.validate(c, 'FlightTrace', hs)
    c.assumptions += ['analyses are exact stand-ins (density, sound speed, mass rate, polar); segment code, convergence and '
                      'state handling are the real ones', 'tolerances: a few hundredths of m, s, kg, m/s; 1e-4 rad and degree']
    c.finish()


if __name__ == '__main__':
    guard(main)
