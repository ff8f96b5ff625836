"""Real containers: building, projecting and operating on them (shared by C01, C02, C04, C05, C17)."""
import copy, pickle
import numpy as np
from SUAVE.Core import Data, Container, DataOrdered, ContainerOrdered


def L(x): return dict(k='L', v=str(x), kv=[])
NIL = L('')
KINDS = dict(D=Data, C=Container, O=ContainerOrdered)


def isnode(o):
    return isinstance(o, (Data, DataOrdered))


def entries(o):
    return list(dict.items(o)) if isinstance(o, Data) else list(o.items())


class Defaulted(Data):
    """A data class with default entries, as most SUAVE classes are."""
    def __defaults__(self):
        self.a = '0'
        self.n = Data()
        self.n.b = '0'


FRESH = dict(k='D', v='', kv=[['a', L('0')], ['n', dict(k='D', v='', kv=[['b', L('0')]])]])


def build(n):
    if n['k'] == 'L':
        return n['v']
    if n['k'] == 'A':
        return np.array([[int(r[1]['v'])] for r in n['kv']])
    d = KINDS[n['k']]()
    for k, v in n['kv']:
        d[k] = build(v)
    return d


def proj(o):
    if isnode(o):
        return dict(k='O' if isinstance(o, DataOrdered) else 'C' if isinstance(o, Container) else 'D', v='',
                    kv=[[k, proj(v)] for k, v in entries(o)])
    if isinstance(o, np.ndarray):
        return dict(k='A', v='', kv=[['', L(int(x[0]))] for x in o])
    return L(o)


def views(o):
    """Every way of looking at a container tells the same story."""
    if not isnode(o):
        return True
    ks = list(o.keys())
    vs = list(o.values())
    its = list(o.items())
    if not (len(ks) == len(vs) == len(its) == len(o)):
        return False
    if ks != [k for k, _ in its] or any(a is not b for a, (_, b) in zip(vs, its)):
        return False
    if any(a is not b for a, b in zip(list(o), vs)) or len(list(o)) != len(vs):
        return False
    if any(a is not b for a, b in zip(list(o.itervalues()), vs)):
        return False
    if isinstance(o, DataOrdered):
        if list(o.iterkeys()) != ks or any(a != b or x is not y for (a, x), (b, y) in zip(o.iteritems(), its)):
            return False
        if len(list(o.iteritems())) != len(its):
            return False
        for i in range(len(its)):
            if o[i] is not vs[i] or o[np.int64(i)] is not vs[i]:
                return False
        if any(not o.has_key(k) for k in ks):
            return False
    for k, v in its:
        if getattr(o, k) is not v or o[k] is not v or o.get(k) is not v or k not in o or not hasattr(o, k):
            return False
        if not views(v):
            return False
    return True


def method(a, b=None):
    t = lambda x: 'A' if isinstance(x, np.ndarray) else str(x)
    if b is None:
        return t(a) + '!'
    if isinstance(b, Data):
        return None
    return t(a) + '+' + t(b)


def at(root, path):
    for k in path:
        root = root[k]
    return root


def deface(o):
    """Overwrite everything reachable, to expose any sharing with a copy."""
    for k, v in entries(o):
        if isnode(v):
            deface(v)
        elif isinstance(v, np.ndarray):
            v[:] = -999
        o[k] = 'DEFACED'
    o['defaced'] = 'x'


APPENDS = ('append', 'appendkey', 'extend')


def execute(root, e, held=None):
    """Apply operation e to the real container; returns (root, outcome, returned value, argument unchanged)."""
    out, argsame, op = None, True, e['op']
    val = build(e['val'])
    before = proj(val)
    try:
        n = at(root, e['p'])
        if op == 'setattr':
            setattr(n, e['key'], val)
        elif op == 'setitem':
            n[e['key']] = val
        elif op == 'delattr':
            delattr(n, e['key'])
        elif op == 'delitem':
            del n[e['key']]
        elif op == 'pop':
            out = n.pop(e['key'])
        elif op == 'getitem':
            out = n[e['key']]
        elif op == 'getattr':
            out = getattr(n, e['key'])
        elif op == 'has':
            a, b, d = e['key'] in n, e['key'] in n.keys(), hasattr(n, e['key'])
            out = 'yes' if (a and b and d) else 'no' if not (a or b or d) else 'disagree'
        elif op == 'appendkey':
            n.append(val, e['key'])
        elif op == 'append':
            old = set(n.keys())
            n.append(val)
            e['new'] = ([k for k in n.keys() if k not in old] or [''])[0]
        elif op == 'update':
            n.update(val)
            argsame = proj(val) == before
        elif op == 'append_or_update':
            n.append_or_update(val)
            argsame = proj(val) == before
            if held is not None: held.append((val, before))
        elif op == 'deep_set':
            n.deep_set('.'.join(e['q'] + [e['key']]), val)
        elif op == 'deep_seti':
            n.deep_set('.'.join(e['q'] + [e['key']]) + '[%d]' % e['i'], int(val))
        elif op == 'deep_setij':
            n.deep_set('.'.join(e['q'] + [e['key']]) + '[%d][%d]' % (e['i'] // 10, e['i'] % 10), int(val))
        elif op == 'deep_get':
            out = n.deep_get('.'.join(e['q'] + [e['key']]))
        elif op == 'recursive':
            out = n.do_recursive(method, val) if e['i'] else n.do_recursive(method)
            argsame = proj(val) == before
        elif op == 'getint':
            out = n[e['i']]
        elif op == 'clear':
            n.clear()
        elif op == 'extend':
            n.extend([build(x) for x in e['vals']])
        elif op == 'deepcopy':
            new = copy.deepcopy(root); deface(root); root = new
        elif op == 'pickle':
            new = pickle.loads(pickle.dumps(root)); deface(root); root = new
        res = 'ok'
    except Exception as x:
        res = ('error' if op.startswith('deep_') else
               'missing' if isinstance(x, (KeyError, AttributeError)) and op not in APPENDS else type(x).__name__)
        out = None
    return root, res, (NIL if out is None else proj(out)), argsame


def step(root, e, held=None):
    """held: arguments of earlier merges, which no later operation may change."""
    e = dict(e)
    root, res, out, argsame = execute(root, e, held)
    for val, before in held or ():
        argsame = argsame and proj(val) == before
    e.update(res=res, out=out, post=proj(root), views=views(root), argsame=argsame)
    return root, e


def paths(o, pre=()):
    res = [list(pre)]
    for k, v in entries(o):
        if isnode(v):
            res += paths(v, pre + (k,))
    return res


def replay(c, hists):
    """Step the behaviours generated by TLC through the real containers."""
    for h in hists:
        kind = h[0]['root']
        root, held = KINDS[kind](), []
        for e in h:
            root, ev = step(root, e, held)
            if ev['op'] == 'append' and kind == 'C' and ev['new'] not in ('', e['new']):
                break          # another fresh name than this behaviour chose; the trace check judges it
            diff = [k for k in ('res', 'out', 'post') if ev[k] != e[k]] + \
                   [k for k in ('views', 'argsame') if not ev[k]]
            c.count('replayed_steps')
            if diff:
                c.report('replay:%s:%s' % (e['op'], ','.join(diff)),
                         dict(kind='specification behaviour not reproduced by the code', behaviour=h,
                              at=e['op'], real=ev))
                break
        c.traces += 1
