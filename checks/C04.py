"""C04: base + difference configurations (specs/Diffed*.tla)."""
import tlc, trace
from treelib import L, NIL, build, proj, at, isnode
from vcore import Check, guard, tier, SEED
from SUAVE.Core import Data, Diffed_Data
from SUAVE.Vehicle import Vehicle
from SUAVE.Components.Configs import Config

# names used by the histories: a vehicle has many more entries, which the projection leaves out
USED = {'a', 'b', 'n', 'm', 'q', 'r', 'w'}


class World(object):
    def __init__(self, base, vehicle=False):
        self.vehicle = vehicle
        self.base = Vehicle() if vehicle else Data()
        for k, v in base['kv']:
            self.base[k] = build(v)
        self.base.tag = 'base'
        self.cfgs, self.par = [], []
        self.box = (Config if vehicle else Diffed_Data).Container()

    def tree(self, o):
        kv = [[k, proj(v)] for k, v in dict.items(o) if k in USED]
        return dict(k='D', v='', kv=norm(kv))

    def state(self):
        return dict(base=self.tree(self.base),
                    cfgs=[dict(cur=self.tree(c), dif=self.tree(c._diff), par=p) for c, p in zip(self.cfgs, self.par)])

    def step(self, e):
        e, res = dict(e), 'ok'
        try:
            op, i = e['op'], e['i']
            if op == 'new':
                c = (Config if self.vehicle else Diffed_Data)(self.base if i == 0 else self.cfgs[i - 1])
                c.tag = 'config_%d' % (len(self.cfgs) + 1)
                self.box.append(c)
                self.cfgs.append(c); self.par.append(i)
            elif op == 'baseedit':
                at(self.base, e['p'])[e['key']] = build(e['val'])
            elif op in ('edit', 'scratch'):
                at(self.cfgs[i - 1], e['p'])[e['key']] = build(e['val'])
                if op == 'edit':
                    self.cfgs[i - 1].store_diff()
            elif op == 'store':
                self.cfgs[i - 1].store_diff()
            elif op == 'pull':
                self.cfgs[i - 1].pull_base()
            elif op == 'finalize':
                self.cfgs[i - 1].finalize()
            elif op == 'storeall':
                self.box.store_diff()
            elif op == 'pullall':
                self.box.pull_base()
            elif op == 'finalizeall':
                self.box.finalize()
        except Exception as x:
            res = repr(x)
        e.update(res=res, post=self.state())
        return e


def norm(kv):
    return [[k, dict(v, k='D', kv=norm(v['kv'])) if v['k'] in 'DC' else v] for k, v in kv]


def key(t):
    """Order-free content."""
    if t['k'] in 'DCO':
        return ('D', tuple(sorted((k, key(v)) for k, v in t['kv'])))
    return (t['k'], t['v'], str(t['kv']))


def skey(s):
    return (key(s['base']), tuple((key(c['cur']), key(dict(c['dif'], k='D')), c['par']) for c in s['cfgs']))


def leaf(rng, k):
    if k == 'w':
        n = rng.choice([1, 2, 2, 3]); v = rng.randint(0, 1)
        return dict(k='A', v='', kv=[['', L(v)] for _ in range(n)])
    return L(rng.randint(0, 3))


def leaves(o, pre=()):
    out = []
    for k, v in dict.items(o):
        if pre == () and k not in USED:
            continue
        if isinstance(v, Data):
            out += leaves(v, pre + (k,))
        else:
            out.append((list(pre), k))
    return out


def history(rng, n):
    base = dict(k='D', v='', kv=[['a', L(1)], ['b', L(2)],
                                 ['n', dict(k='D', v='', kv=[['c', L(3)], ['d', dict(k='D', v='', kv=[['e', L(4)]])]])],
                                 ['w', leaf(rng, 'w')], ['m', dict(k='C', v='', kv=[['f', L(5)]])]])
    w = World(base, vehicle=rng.random() < .3)
    h = [dict(op='reset', post=w.state())]
    for _ in range(n):
        op = rng.choice(['new', 'new', 'baseedit', 'baseedit', 'edit', 'edit', 'edit', 'scratch', 'store', 'pull', 'pull',
                         'finalize', 'storeall', 'pullall', 'finalizeall'])
        i = rng.randint(1, len(w.cfgs)) if w.cfgs else 0
        e = dict(op=op, i=i, p=[], key='', val=NIL)
        if op == 'new':
            if len(w.cfgs) >= 3:
                continue
            e['i'] = rng.randint(0, len(w.cfgs)) if rng.random() < .5 else 0
        elif op == 'baseedit':
            e['i'] = 0
            if rng.random() < .25:
                nm = rng.choice('qr')
                if nm in w.base:
                    continue
                e.update(key=nm, val=dict(k='D', v='', kv=[['g', L(rng.randint(0, 9))],
                                                            ['h', dict(k='D', v='', kv=[['w', leaf(rng, 'w')]])]]))
            else:
                e['p'], e['key'] = rng.choice(leaves(w.base)); e['val'] = leaf(rng, e['key'])
                if rng.random() < .2 and e['key'] != 'w':
                    e['key'] = 'new%d' % rng.randint(0, 2)
                    if not e['p']:
                        continue
        elif op in ('edit', 'scratch'):
            if not w.cfgs:
                continue
            c = w.cfgs[i - 1]
            e['p'], e['key'] = rng.choice(leaves(c))
            par = w.base if w.par[i - 1] == 0 else w.cfgs[w.par[i - 1] - 1]
            try:
                known = e['key'] in at(par, e['p'])
            except Exception:
                known = False
            if op == 'scratch' and not known:
                continue
            e['val'] = leaf(rng, e['key'])
            if op == 'edit' and e['p'] and rng.random() < .25:
                e['key'] = 'own%d' % rng.randint(0, 1)
            if op == 'edit' and rng.random() < .15 and 'q' not in c and not e['p']:
                e.update(key='q', val=dict(k='D', v='', kv=[['g', L(rng.randint(0, 9))]]))
        elif op not in ('storeall', 'pullall', 'finalizeall') and not w.cfgs:
            continue
        if op.endswith('all'):
            e['i'] = 0
        h.append(w.step(e))
    return h


def main():
    c = Check('C04')
    inv = ''.join('INVARIANT %s\n' % x for x in ('BaseSafe', 'Isolation', 'PullSound', 'PullIdempotent', 'StorePull'))
    r = tlc.run('DiffedMC', 'SPECIFICATION Spec\nCONSTRAINT Bound\nVIEW View\n%sCHECK_DEADLOCK FALSE\n' % inv,
                consts=dict(D=tier(5, 7), Gen='FALSE', MaxCfg=2), workers=8)
    c.model('DiffedMC', r)
    gen = 'SPECIFICATION Spec\nCONSTRAINT GenBound\nINVARIANT GenPrint\nCHECK_DEADLOCK FALSE\n'
    r = tlc.run('DiffedMC', gen, consts=dict(D=tier(3, 4), Gen='TRUE', MaxCfg=2), workers=1)
    hists = r.json_lines('HIST')
    r = tlc.run('DiffedMC', gen, consts=dict(D=12, Gen='TRUE', MaxCfg=3), workers=1,
                simulate=tier(300, 3000), depth=13, seed=SEED)
    hists += r.json_lines('HIST')
    c.count('spec_behaviours_replayed', len(hists))
    b0 = dict(k='D', v='', kv=[['a', L(1)], ['n', dict(k='D', v='', kv=[['c', L(2)]])]])
    for n, h in enumerate(hists):
        w = World(b0, vehicle=n % 5 == 0)
        for e in h:
            ev = w.step(e)
            if ev['res'] != 'ok' or skey(ev['post']) != skey(e['post']):
                c.report('replay:%s' % e['op'], dict(kind='specification behaviour not reproduced', at=e, real=ev,
                                                     ops=[(x['op'], x['i'], x['p'], x['key'], x['val']['v']) for x in h]))
                break
        c.traces += 1
    hs = [history(c.rng, c.rng.randint(5, 25)) for _ in range(tier(400, 5000))]
    c.sample([(e['op'], e.get('i'), e.get('p'), e.get('key')) for e in hs[0]])
    trace.validate(c, 'DiffedTrace', hs)
    c.finish()


guard(main)
