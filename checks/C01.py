"""C01: data container histories (specs/DataTree*.tla)."""
import numpy as np
import tlc, trace, treelib
from treelib import L, NIL, build, proj, step, at, paths
from vcore import Check, guard, tier, SEED
from SUAVE.Core import Data, Container


NAMES = ['a', 'b', 'n', 'm', 'wing', 'x1', '_h', 'arr', 'arr2']
TAGS = ['wing', 'Main Wing', 'A b', 'tail-plane', 'x.Y', 'n', 'wing', 'WING']


def rtree(rng, depth):
    kv = []
    for k in rng.sample(NAMES, rng.randint(0, 4)):
        kv.append([k, rval(rng, depth, k)])
    return dict(k=rng.choice('DDC'), v='', kv=kv)


def rval(rng, depth, k):
    if k.startswith('arr'):
        return dict(k='A', v='', kv=[['', L(rng.randint(0, 9))] for _ in range(rng.randint(1, 3))])
    if depth and rng.random() < .5:
        return rtree(rng, depth - 1)
    return L(rng.randint(0, 99))


def random_history(rng, n):
    root = treelib.Defaulted() if rng.random() < .3 else build(rtree(rng, 2))
    hist = [dict(op='reset', post=proj(root))]
    held = []
    for _ in range(n):
        p = rng.choice(paths(root))
        node = at(root, p)
        op = rng.choice(['setattr', 'setattr', 'setitem', 'delattr', 'delitem', 'pop', 'getitem', 'getattr', 'has',
                         'appendkey', 'append', 'append', 'append', 'update', 'update', 'append_or_update',
                         'deep_set', 'deep_seti', 'deep_setij', 'deep_get', 'recursive', 'deepcopy', 'pickle'])
        if op == 'recursive' and isinstance(root, treelib.Defaulted):
            continue
        key = rng.choice(list(node.keys()) or NAMES) if rng.random() < .6 else rng.choice(NAMES)
        e = dict(op=op, p=p, q=[], key=key, val=NIL, i=0, new='')
        if op in ('setattr', 'setitem', 'deep_set'):
            e['val'] = rval(rng, 2, key)
        if op == 'appendkey':
            e['key'] = rng.choice(TAGS); e['val'] = L(rng.randint(0, 99))
            if isinstance(node, Container):
                continue
        if op == 'append':
            e['val'] = dict(k='D', v='', kv=[['tag', L(rng.choice(TAGS))], ['v', L(rng.randint(0, 99))]])
        if op in ('update', 'append_or_update'):
            e['val'] = rtree(rng, 2)
        if op == 'recursive':
            e['i'] = rng.randint(0, 1); e['val'] = rtree(rng, 2)
        if op.startswith('deep_') or op == 'deep_set':
            q = rng.choice(paths(root))
            if op != 'deepcopy':
                e['p'] = q[:rng.randint(0, len(q))]
                e['q'] = q[len(e['p']):]
                if rng.random() < .1:
                    e['q'] = e['q'] + [rng.choice(NAMES)]
                if op in ('deep_seti', 'deep_setij'):
                    tgt = at(root, q)
                    arrs = [k for k, v in dict.items(tgt) if isinstance(v, np.ndarray)]
                    if not arrs:
                        continue
                    e['q'] = q[len(e['p']):]
                    e['key'] = rng.choice(arrs); e['i'] = rng.randint(0, 3) if op == 'deep_seti' else 10 * rng.randint(0, 3) + rng.choice([0, 0, 0, 1]); e['val'] = L(rng.randint(0, 9))
                elif op == 'deep_set':
                    e['val'] = rval(rng, 1, e['key'])
        root, ev = step(root, e, held)
        hist.append(ev)
    return hist


def main():
    c = Check('C01')
    props = 'Names UpdateIdempotent UpdateSound Frame NeverLost AppendKeeps ErrorsHarmless Order'.split()
    inv = ''.join('INVARIANT %s\n' % p for p in props)
    r = tlc.run('DataTreeMC', 'SPECIFICATION Spec\nCONSTRAINT Bound\nVIEW View\n%sCHECK_DEADLOCK FALSE\n' % inv,
                consts=dict(D=tier(3, 5), Gen='FALSE', Small='TRUE', Ordered='FALSE', MaxSize=tier(4, 5)), workers=8)
    c.model('DataTreeMC', r)
    # every history of two operations, and random long ones
    gen = 'SPECIFICATION Spec\nCONSTRAINT GenBound\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n'
    r = tlc.run('DataTreeMC', gen, consts=dict(D=2, Gen='TRUE', Small='FALSE', Ordered='FALSE', MaxSize=9), workers=1)
    hists = r.json_lines('HIST')
    r = tlc.run('DataTreeMC', gen, consts=dict(D=10, Gen='TRUE', Small='FALSE', Ordered='FALSE', MaxSize=9), workers=1,
                simulate=tier(150, 2000), depth=11, seed=SEED)
    more = r.json_lines('HIST')
    c.count('spec_behaviours_replayed', len(hists) + len(more))
    c.sample(dict(spec_behaviour=[dict(op=e['op'], p=e['p'], key=e['key'], res=e['res']) for e in more[0]]))
    treelib.replay(c, hists + more)
    hs = [random_history(c.rng, c.rng.randint(5, 40)) for _ in range(tier(250, 4000))]
    c.sample(dict(recorded_history=[(e['op'], e.get('p'), e.get('key'), e.get('res')) for e in hs[0][:8]]))
    trace.validate(c, 'DataTreeTrace', hs)
    c.finish()


guard(main)
