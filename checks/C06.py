"""C06: vehicle assembly, mass and centre of gravity (specs/Vehicle*.tla)."""
import copy, pickle, string
import numpy as np
import SUAVE
import SUAVE.Vehicle
import tlc, trace
from vcore import Check, guard, tier, SEED
from SUAVE.Core import Data
from SUAVE.Components import Physical_Component

C = SUAVE.Components
FAM = dict(Fuselage=C.Fuselages.Fuselage, Wing=C.Wings.Wing, Main_Wing=C.Wings.Main_Wing, Horizontal_Tail=C.Wings.Horizontal_Tail,
           Vertical_Tail=C.Wings.Vertical_Tail, System=C.Systems.System, Network=C.Energy.Networks.Network,
           Turbofan=C.Energy.Networks.Turbofan, Nacelle=C.Nacelles.Nacelle, Landing_Gear=C.Landing_Gear.Landing_Gear,
           Main_Landing_Gear=C.Landing_Gear.Main_Landing_Gear,
           Payload=C.Payloads.Payload, Physical_Component=Physical_Component, Propeller=C.Energy.Converters.Propeller,
           Data=Data, Number=None)
HOMES = dict(Fuselage='fuselages', Wing='wings', Main_Wing='wings', Horizontal_Tail='wings', Vertical_Tail='wings',
             System='systems', Network='networks', Turbofan='networks', Nacelle='nacelles', Landing_Gear='landing_gear',
             Main_Landing_Gear='landing_gear')
CHARS = string.punctuation + string.whitespace
TABLE = str.maketrans(CHARS + string.ascii_uppercase, '_' * len(CHARS) + string.ascii_lowercase)
PC = Physical_Component.Container
MP = type(SUAVE.Vehicle().mass_properties).__mro__


def whole(x, scale=1):
    x = float(x) * scale
    r = int(round(x))
    return r if abs(x - r) < 1e-6 or scale > 1 else 999999


def vec(x, scale=1):
    x = np.array(x, dtype=float).reshape(-1)
    return [whole(a, scale) for a in x] if x.size == 3 else [999998]


def node(name, o):
    if isinstance(o, PC):
        return dict(k='B', name=name, id='', m=0, o=[], g=[], kids=[node(k, v) for k, v in o.items() if isinstance(v, (PC, Physical_Component))])
    return dict(k='K', name=name, id=str(o['ident']) if 'ident' in o else '?', m=whole(o.mass_properties.mass),
                o=[vec(r) for r in np.array(o.origin, dtype=float).reshape(-1, 3)], g=vec(o.mass_properties.center_of_gravity), kids=[])


def proj(v):
    return dict(slots=[[k, node(k, x)['kids']] for k, x in v.items() if isinstance(x, PC) and k != 'mass_properties'],
                mvals=[[k, whole(x)] for k, x in v.mass_properties.items() if k in ('takeoff', 'payload', 'extra')])


def storage(o, acc):
    """Identities of everything changeable reachable from o."""
    todo = [o]
    while todo:
        x = todo.pop()
        if id(x) in acc or not isinstance(x, (dict, list, np.ndarray)):
            continue
        acc.add(id(x))
        if isinstance(x, dict):
            todo += list(dict.values(x))
        elif isinstance(x, list):
            todo += x
    return acc


class World(object):
    def __init__(self):
        self.w = [SUAVE.Vehicle()]
        self.hold = []

    def at(self, i, p):
        o = self.w[i - 1]
        for k in p:
            o = o[k]
        return o

    def comp(self, fam, c, tag, listy=False):
        if fam == 'Number':
            return 3
        if c['k'] == 'B':
            o = PC(); o.tag = tag
            return o
        o = FAM[fam]()
        o.tag = tag
        o['ident'] = c['id']
        if fam != 'Data':
            o.mass_properties.mass = float(c['m'])
            o.origin = [list(map(float, r)) for r in c['o']] if listy else np.array(c['o'], dtype=float)
            o.mass_properties.center_of_gravity = np.array([c['g']], dtype=float)
        return o

    def do(self, e, tag=None, listy=False, how=copy.deepcopy):
        """Perform the operation; the event with what was observed."""
        e = dict(e)
        tag = tag or e['norm']
        ok, out, got, name = True, [], None, e['name']
        stored = []
        try:
            if e['op'] == 'new':
                self.w.append(SUAVE.Vehicle())
            elif e['op'] == 'copy':
                self.w.append(how(self.w[e['i'] - 1]))
            elif e['op'] == 'append':
                got = self.comp(e['fam'], e['comp'], tag, listy)
                self.w[e['i'] - 1].append_component(got)
            elif e['op'] == 'place':
                got = self.comp('System', e['comp'], tag, listy)
                self.at(e['i'], e['p']).append(got)
            elif e['op'] == 'extra':
                self.w[e['i'] - 1][e['name']] = PC()
            elif e['op'] == 'remove':
                del self.at(e['i'], e['p'])[e['name']]
            elif e['op'] == 'reweigh':
                self.at(e['i'], e['p'])[e['name']].mass_properties.mass = float(e['m'])
            elif e['op'] == 'masses':
                mp = MPC()
                for k, x in e['mvals']:
                    mp[k] = float(x)
                for k in ('takeoff', 'payload'):
                    if k not in [a for a, _ in e['mvals']]:
                        del mp[k]
                self.w[e['i'] - 1].append_component(mp)
            elif e['op'] == 'mass':
                out = [whole(self.w[e['i'] - 1].sum_mass())]
            elif e['op'] == 'cmass':
                out = [whole(self.at(e['i'], e['p']).sum_mass())]
            elif e['op'] == 'cmom':
                out = vec(self.at(e['i'], e['p']).total_moment())
            elif e['op'] == 'cg':
                v = self.w[e['i'] - 1]
                out = vec(v.center_of_gravity(), 1000)
                stored = vec(v.mass_properties.center_of_gravity, 1000)
        except Exception as x:
            ok = False
            e['error'] = repr(x)[:100]
        post = [proj(v) for v in self.w]
        etag = name
        if e['op'] in ('append', 'place') and ok:
            p = e['p'] if e['op'] == 'place' else [HOMES[e['fam']]] if e['fam'] in HOMES else []
            box = self.at(e['i'], p)
            name = next((k for k, x in box.items() if x is got), '')
            etag = str.lower(got.tag.translate(TABLE))
        sets = [storage(v, set()) for v in self.w]
        shared = any(sets[a] & sets[b] for a in range(len(sets)) for b in range(a))
        e.update(name=name, tag=etag, ok=ok, out=out, stored=stored, post=post, shared=shared)
        return e


MPC = type(SUAVE.Vehicle().mass_properties)
for k in MPC.__mro__:
    if k.__name__ == 'Vehicle_Mass_Properties':
        MPC = k
        break


def paths(v, pre=()):
    out = []
    for k, x in v.items():
        if isinstance(x, PC) and k != 'mass_properties':
            out.append(pre + (k,)); out += paths(x, pre + (k,))
    return out


def history(rng, n):
    w = World()
    hist = [dict(op='reset', post=[proj(v) for v in w.w])]
    ident = 0
    for _ in range(n):
        i = rng.randrange(len(w.w)) + 1
        v = w.w[i - 1]
        e = dict(op='mass', i=i, fam='', p=[], norm='', name='', comp=dict(k='B', name='', id='', m=0, o=[], g=[], kids=[]), m=0, mvals=[])
        ps = paths(v)
        full = [p for p in ps if any(isinstance(x, (PC, Physical_Component)) for x in w.at(i, p).values())]
        op = rng.choice(['append'] * 8 + ['place'] * 3 + ['remove', 'reweigh', 'copy', 'extra', 'masses', 'mass', 'cmass', 'cmom', 'cg', 'cg', 'new'])
        tag = None
        ident += 1
        comp = dict(k='K', name='', id=str(ident), m=rng.randrange(0, 9),
                    o=[[4 * rng.randrange(-3, 4) for _ in range(3)] for _ in range(rng.choice([1, 1, 2, 4]))],
                    g=[rng.randrange(-3, 4) for _ in range(3)], kids=[])
        if op in ('remove', 'reweigh') and not full:
            op = 'append'
        if op in ('copy', 'new') and len(w.w) > 2:
            op = 'cg'
        if op == 'append':
            tag = rng.choice(['a', 'A', 'main wing', 'main_wing', 'Main Wing', 'ab', 'a2', 'a-2', 'x.y'])
            e.update(fam=rng.choice(sorted(HOMES) * 3 + sorted(set(FAM) - set(HOMES))), comp=comp)
        elif op == 'place':
            tag = rng.choice(['a', 'b', 'A', 'Box 1'])
            if rng.random() < .35:
                comp = dict(k='B', name='', id='', m=0, o=[], g=[], kids=[])
            e.update(p=list(rng.choice(ps)), comp=comp)
        elif op in ('remove', 'reweigh'):
            p = rng.choice(full)
            box = w.at(i, p)
            ks = [k for k, x in box.items() if isinstance(x, Physical_Component) or (op == 'remove' and isinstance(x, PC))]
            if not ks:
                op = 'mass'
            else:
                e.update(p=list(p), name=rng.choice(ks), m=rng.randrange(0, 9))
        elif op == 'extra':
            nm = rng.choice(['extra1', 'extra2'])
            if nm in v:
                op = 'cg'
            e.update(name=nm if op == 'extra' else '')
        elif op == 'masses':
            e.update(mvals=[[k, rng.randrange(9)] for k in rng.choice([('takeoff', 'payload'), ('takeoff',), ('payload',), ('takeoff', 'payload', 'extra')])])
        elif op in ('cmass', 'cmom'):
            e.update(p=list(rng.choice(ps)))
        e['op'] = op
        if tag:
            e['norm'] = str.lower(tag.translate(TABLE))
        hist.append(w.do(e, tag, rng.random() < .5, rng.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])))
    return hist


def main():
    c = Check('C06')
    fams = dict(Families='{"Fuselage", "Main_Wing", "Turbofan", "Payload"}')
    r = tlc.run('VehicleMC', 'SPECIFICATION Spec\nINVARIANTS UniqueNames NothingLost Additive Refused Isolated NamesFine\n'
                'CONSTRAINT Bound\nVIEW View\nCHECK_DEADLOCK FALSE\n', consts=dict(D=tier('3', '4'), Gen='FALSE', **fams), workers=8)
    c.model('VehicleMC', r)
    r = tlc.run('VehicleMC', 'SPECIFICATION Spec\nINVARIANT GenPrint\nCONSTRAINT GenBound\nCHECK_DEADLOCK FALSE\n',
                consts=dict(D=tier('8', '12'), Gen='TRUE', **fams), workers=1, simulate=tier(150, 1500), depth=tier(10, 14), seed=SEED)
    hists = r.json_lines('HIST')
    c.count('spec_behaviours_replayed', len(hists))
    for h in hists:
        w = World()
        for j, e in enumerate(h):
            g = w.do(e)
            # the names of the specification are one choice among many: rename before comparing
            if g['op'] in ('append', 'place') and g['ok'] and g['name'] != e['name'] and g['name'].startswith(e['norm']):
                break
            if g['op'] == 'cg':
                g['out'] = e['out'] if near(g['out'], e['out'], e['post'][e['i'] - 1]) else g['out']
            bad = [k for k in ('ok', 'post', 'out') if g[k] != e[k]]
            if bad:
                c.report('replay:%s:%s' % (e['op'], ','.join(bad)), dict(step=j, event={k: v for k, v in e.items() if k != 'post'},
                         got={k: g[k] for k in bad}, want={k: e[k] for k in bad}, error=g.get('error')))
                break
        c.traces += 1
    hs = [history(c.rng, tier(25, 40)) for _ in range(tier(150, 1500))]
    c.sample([{k: e[k] for k in ('op', 'fam', 'p', 'name')} for e in hs[0][1:6]])
    trace.validate(c, 'VehicleTrace', hs, consts=dict(Families='{}'))
    c.finish()


def near(out, mom, v):
    m = sum(mass(n) for _, ns in v['slots'] for n in ns) or 1
    return len(out) == 3 and all(abs(o - 1000.0 * x / m) <= 1 for o, x in zip(out, mom))


def mass(n):
    return n['m'] if n['k'] == 'K' else sum(map(mass, n['kids']))


guard(main)
