"""C03: pack_array / unpack_array (specs/PackArray*.tla)."""
import warnings
import numpy as np
import tlc, trace
from vcore import Check, guard, tier, SEED
from SUAVE.Core import Data, ContainerOrdered, Container, DataOrdered
from SUAVE.Analyses.Mission.Segments.Conditions import Conditions, State, Unknowns

FAM = dict(D=[Data, Container, Conditions, Unknowns], O=[ContainerOrdered])


def build(n, rng=None):
    k = n['k']
    if k == 'S':
        return float(n['e'][0])
    if k == 'V':
        return spread(np.array(n['e'], dtype=float), rng)
    if k == 'M':
        return spread(np.array(n['e'], dtype=float).reshape(n['r'], n['c']), rng)
    if k == 'T':
        return np.array(n['e'], dtype=float).reshape(1, n['r'], n['c'])
    if k == 'X':
        return {'txt': 'txt', 'none': None, 'list': [1, 2], 'i64': np.int64(3)}[n['v']]
    d = (rng.choice(FAM[k]) if rng else FAM[k][0])()
    for key, v in n['kv']:
        d[key] = build(v, rng)
    return d


def spread(a, rng):
    """The same numbers, sometimes laid out differently in memory (a slice of something larger, or by columns)."""
    r = rng.random() if rng else 1.
    if r < .2:
        big = np.full([2 * n + 1 for n in a.shape], 77.); view = big[tuple(slice(1, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    return np.asfortranarray(a) if r < .3 else a


def node(k, v='', e=(), r=0, c=0, kv=()):
    return dict(k=k, v=v, e=list(e), r=r, c=c, kv=list(kv))


def num(x):
    return int(x) if float(x) == int(x) else 999999


def proj(o):
    if isinstance(o, (Data, DataOrdered)):
        its = dict.items(o) if isinstance(o, Data) else o.items()
        return node('O' if isinstance(o, DataOrdered) else 'D', kv=[[k, proj(v)] for k, v in its])
    if isinstance(o, np.ndarray) and o.ndim:
        e = [num(x) for x in o.ravel()]
        if o.ndim == 1:
            return node('V', e=e, r=len(e), c=1)
        if o.ndim == 2:
            return node('M', e=e, r=o.shape[0], c=o.shape[1])
        return node('T', e=e, r=o.shape[1], c=o.shape[2])
    if isinstance(o, np.int64):
        return node('X', v='i64')
    if isinstance(o, (int, float)) or isinstance(o, np.ndarray):
        return node('S', e=[num(o)], r=1, c=1)
    return node('X', v='txt' if isinstance(o, str) else 'none' if o is None else 'list')


def cols(M):
    return [] if M.size == 0 and M.shape[0] == 1 else [[num(x) for x in M[:, j]] for j in range(M.shape[1])]


def objects(o, p=()):
    """Every array and container of a tree, by path."""
    r = {p: o} if isinstance(o, (Data, DataOrdered, np.ndarray)) else {}
    if isinstance(o, (Data, DataOrdered)):
        for k, v in (dict.items(o) if isinstance(o, Data) else o.items()):
            r.update(objects(v, p + (k,)))
    return r


def op(root, name, m=None, mode='vector'):
    held = objects(root)
    ev = dict(op=name, res='ok', out=[], warn=False, inputsame=True)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if name == 'pack':
                out = root.pack_array('vector')
                assert out.ndim == 1
                ev['out'] = [num(x) for x in out]
                out[:] = -7                       # the packed vector is a copy of the numbers
            elif name == 'packa':
                out = root.pack_array('array')
                ev['out'] = cols(out)
                out[:] = -7
            elif name == 'unpack':
                M = np.array(m, dtype=float); keep = M.copy()
                ev['m'] = list(m)
                got = root.unpack_array(M)
                ev['inputsame'] = bool(np.all(M == keep)) and got is root
                M[:] = -8
            elif name == 'unpacka':
                ev['m'] = [list(x) for x in m]
                M = np.array(m, dtype=float).T if m else np.zeros((1, 0)); keep = M.copy()
                root.unpack_array(M)
                ev['inputsame'] = bool(np.all(M == keep))
                M[:] = -8
            ev['warn'] = any(issubclass(x.category, RuntimeWarning) for x in w)
    except Exception as x:
        ev['res'] = repr(x)
    now = objects(root)
    ev['held'] = list(now) == list(held) and all(now[k] is held[k] for k in held)
    ev['post'] = proj(root)
    return ev


def rleaf(rng, rows=None):
    k = rng.choice('SVMMXTV')
    x = lambda n: [rng.randint(-50, 50) for _ in range(n)]
    if rows:
        k = rng.choice('VMMX')
    if k == 'S':
        return node('S', e=x(1), r=1, c=1)
    if k == 'V':
        n = rows or rng.randint(0, 5)
        return node('V', e=x(n), r=n, c=1)
    if k == 'M':
        r, c = rows or rng.randint(1, 4), rng.randint(1, 4)
        return node('M', e=x(r * c), r=r, c=c)
    if k == 'T':
        r, c = rng.randint(1, 2), rng.randint(1, 3)
        return node('T', e=x(r * c), r=r, c=c)
    return node('X', v=rng.choice(['txt', 'none', 'list', 'i64']))


def rtree(rng, depth, rows=None):
    names = ['a', 'b', 'zeta', 'm', '_u', 'tag', 'x1', 'c']
    kv = []
    for k in rng.sample(names, rng.randint(0, 5)):
        kv.append([k, rtree(rng, depth - 1, rows) if depth and rng.random() < .4 else rleaf(rng, rows)])
    return node(rng.choice('DDDO') if depth < 3 else 'D', kv=kv)


def count(n):
    return (sum(count(v) for _, v in n['kv']) if n['k'] in 'DO' else len(n['e']) if n['k'] in 'SVM' else 0)


def hasempty(n):
    return n['k'] == 'V' and not n['e'] or any(hasempty(v) for _, v in n['kv'])


def history(rng):
    rows = rng.choice([None, None, 1, 2, 5])
    root = build(rtree(rng, 3, rows), rng)
    h = [dict(op='reset', post=proj(root))]
    for _ in range(rng.randint(2, 8)):
        which = rng.choice(['pack', 'packa', 'unpack', 'unpack'] + (['unpacka'] if rows else []))
        m = None
        if which == 'packa' and hasempty(proj(root)):
            continue                      # the matrix form is specified for non-empty entries
        if which == 'unpack':
            n = count(proj(root)) + (rng.randint(1, 3) if rng.random() < .2 else 0)
            m = [rng.randint(-99, 99) for _ in range(n)]
        if which == 'unpacka':
            n = len(cols(root.pack_array('array'))) + (1 if rng.random() < .2 else 0)
            m = [[rng.randint(-99, 99) for _ in range(rows)] for _ in range(n)]
        h.append(op(root, which, m))
    return h


def main():
    c = Check('C03')
    inv = ''.join('INVARIANT %s\n' % i for i in ('RoundTrip', 'WriteRead', 'ArrayForm', 'ArrayRound'))
    r = tlc.run('PackArrayMC', 'SPECIFICATION Spec\n%sCHECK_DEADLOCK FALSE\n' % inv,
                consts=dict(Emit='TRUE', Big=tier('FALSE', 'TRUE')), workers=1)
    c.model('PackArrayMC', r)
    trees = r.json_lines('TREE')
    c.count('spec_trees_replayed', len(trees))
    for t in trees:
        a = op(build(t['t']), 'pack'); b = op(build(t['t']), 'packa')
        u = op(build(t['t']), 'unpack', [100 + i + 1 for i in range(len(t['v']))])
        got = dict(v=a['out'], a=b['out'], u=u['post'], res=(a['res'], b['res'], u['res']), warn=u['warn'])
        want = dict(v=t['v'], a=t['a'], u=t['u'], res=('ok',) * 3, warn=False)
        if t['uniform']:
            w = op(build(t['t']), 'unpacka', [[1000 + 10 * (j + 1) + i + 1 for i in range(len(col))]
                                              for j, col in enumerate(t['a'])])
            got.update(ua=w['post'], wres=w['res']); want.update(ua=t['ua'], wres='ok')
        if hasempty(t['t']):
            got['a'], got['res'] = t['a'], (got['res'][0], 'ok', got['res'][2])
        bad = sorted(k for k in want if got[k] != want[k])
        if bad:
            c.report('replay:' + ','.join(bad), dict(kind='specified packing not reproduced', tree=t['t'], got=got, want=want))
        c.traces += 1
    hs = [history(c.rng) for _ in range(tier(500, 8000))]
    c.sample(hs[0][:3]); c.sample(trees[len(trees) // 2])
    trace.validate(c, 'PackArrayTrace', hs)
    c.finish()


guard(main)
