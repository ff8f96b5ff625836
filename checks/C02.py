"""C02: ordered containers (processes, missions, wing segments): specs/DataTree*.tla with Ordered."""
import tlc, trace, treelib
from treelib import L, NIL, build, proj, step, at, paths
from vcore import Check, guard, tier, SEED

NAMES = ['a', 'b', 'n', 'm', 'wing', 'x1', '_h', 'zeta']
TAGS = ['wing', 'Main Wing', 'A b', 'tail-plane', 'x.Y', 'n', 'WING']


def rtree(rng, depth, kinds='OOD'):
    kv = [[k, rval(rng, depth)] for k in rng.sample(NAMES, rng.randint(0, 4))]
    return dict(k=rng.choice(kinds), v='', kv=kv)


def rval(rng, depth):
    return rtree(rng, depth - 1) if depth and rng.random() < .5 else L(rng.randint(0, 99))


def comp(rng):
    return dict(k='D', v='', kv=[['tag', L(rng.choice(TAGS))], ['v', L(rng.randint(0, 99))]])


def random_history(rng, n):
    root = build(rtree(rng, 2, 'O'))
    hist = [dict(op='reset', post=proj(root))]
    for _ in range(n):
        p = rng.choice([q for q in paths(root) if not q or not isinstance(at(root, q), treelib.Data)] if
                       rng.random() < .7 else paths(root))
        node = at(root, p)
        ordered = isinstance(node, treelib.ContainerOrdered)
        op = rng.choice(['setattr', 'setattr', 'setitem', 'delattr', 'delitem', 'getitem', 'getattr', 'has', 'getint',
                         'append', 'append', 'append', 'update', 'update', 'extend',
                         'deep_set', 'deep_get', 'deepcopy', 'pickle', 'clear'])
        if not ordered and op in ('getint', 'extend', 'clear'):
            continue
        if op == 'clear' and rng.random() < .7:
            continue
        key = rng.choice(list(node.keys()) or NAMES) if rng.random() < .6 else rng.choice(NAMES)
        e = dict(op=op, p=p, q=[], key=key, val=NIL, i=0, new='')
        if op in ('setattr', 'setitem', 'deep_set'):
            e['val'] = rval(rng, 2)
        elif op == 'append':
            e['val'] = comp(rng)
        elif op == 'extend':
            e['vals'] = [comp(rng) for _ in range(rng.randint(0, 3))]
        elif op == 'update':
            e['val'] = rtree(rng, 2)
        elif op == 'getint':
            e['i'] = rng.randint(0, 5)
        if op.startswith('deep_'):
            q = rng.choice(paths(root))
            e['p'] = q[:rng.randint(0, len(q))]
            e['q'] = q[len(e['p']):]
            if rng.random() < .1:
                e['q'] = e['q'] + [rng.choice(NAMES)]
        root, ev = step(root, e)
        hist.append(ev)
    return hist


def main():
    c = Check('C02')
    inv = ''.join('INVARIANT %s\n' % p for p in
                  'Names UpdateIdempotent UpdateSound Frame NeverLost AppendKeeps ErrorsHarmless Order'.split())
    r = tlc.run('DataTreeMC', 'SPECIFICATION Spec\nCONSTRAINT Bound\nVIEW View\n%sCHECK_DEADLOCK FALSE\n' % inv,
                consts=dict(D=tier(4, 6), Gen='FALSE', Small='TRUE', Ordered='TRUE', MaxSize=tier(5, 6)), workers=8)
    c.model('DataTreeMC(Ordered)', r)
    gen = 'SPECIFICATION Spec\nCONSTRAINT GenBound\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n'
    r = tlc.run('DataTreeMC', gen, consts=dict(D=tier(2, 3), Gen='TRUE', Small='FALSE', Ordered='TRUE', MaxSize=9), workers=1)
    hists = r.json_lines('HIST')
    r = tlc.run('DataTreeMC', gen, consts=dict(D=12, Gen='TRUE', Small='FALSE', Ordered='TRUE', MaxSize=9), workers=1,
                simulate=tier(200, 2000), depth=13, seed=SEED)
    more = r.json_lines('HIST')
    c.count('spec_behaviours_replayed', len(hists) + len(more))
    c.sample(dict(spec_behaviour=[dict(op=e['op'], p=e['p'], key=e['key'], res=e['res']) for e in more[0]]))
    treelib.replay(c, hists + more)
    hs = [random_history(c.rng, c.rng.randint(5, 40)) for _ in range(tier(300, 4000))]
    c.sample(dict(recorded_history=[(e['op'], e.get('p'), e.get('key'), e.get('res')) for e in hs[0][:8]]))
    trace.validate(c, 'DataTreeTrace', hs)
    c.finish()


guard(main)
