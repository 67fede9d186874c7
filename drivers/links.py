"""C09, C10, C11: relations, stored ids, object graphs.
Specification: spec/JLinks.tla."""
from __future__ import annotations
import random
from typing import Any, Optional
from jsonclasses import jsonclass, types
from lib.conform import Graph, pmap, time_limit, Hang
from lib import tlc


def end(cls, name, kind, store, opp, to):
    return dict(cls=cls, name=name, kind=kind, store=store, opp=opp, to=to)


#: shape -> (relation ends, python source of the classes)
SHAPES: dict[str, tuple[list[dict], str]] = {
 'oo': ([end('L', 'rr', 'one', 'local', 'll', 'R'), end('R', 'll', 'one', 'foreign', 'rr', 'L')], '''
class L:
    id: str = types.str.primary.required
    rr: Any = types.objof('R').linkto
class R:
    id: str = types.str.primary.required
    ll: Any = types.objof('L').linkedby('rr')
'''),
 'om': ([end('L', 'rrs', 'many', 'foreign', 'll', 'R'), end('R', 'll', 'one', 'local', 'rrs', 'L')], '''
class L:
    id: str = types.str.primary.required
    rrs: Any = types.listof('R').linkedby('ll')
class R:
    id: str = types.str.primary.required
    ll: Any = types.objof('L').linkto
'''),
 'mm': ([end('L', 'rrs', 'many', 'foreign', 'lls', 'R'), end('R', 'lls', 'many', 'foreign', 'rrs', 'L')], '''
class L:
    id: str = types.str.primary.required
    rrs: Any = types.listof('R').linkedthru('lls')
class R:
    id: str = types.str.primary.required
    lls: Any = types.listof('L').linkedthru('rrs')
'''),
 # the same relation among objects of which two carry the same primary key
 'twin': ([end('L', 'rrs', 'many', 'foreign', 'lls', 'R'), end('R', 'lls', 'many', 'foreign', 'rrs', 'L')], '''
class L:
    id: str = types.str.primary.required
    tag: Any = types.str
    rrs: Any = types.listof('R').linkedthru('lls')
class R:
    id: str = types.str.primary.required
    tag: Any = types.str
    lls: Any = types.listof('L').linkedthru('rrs')
'''),
 'twin1': ([end('L', 'rr', 'one', 'foreign', 'll', 'R'), end('R', 'll', 'one', 'local', 'rr', 'L')], '''
class L:
    id: str = types.str.primary.required
    tag: Any = types.str
    rr: Any = types.objof('R').linkedby('ll')
class R:
    id: str = types.str.primary.required
    tag: Any = types.str
    ll: Any = types.objof('L').linkto
'''),
 # objects without primary key and with equal contents
 'eq': ([end('L', 'rrs', 'many', 'foreign', 'll', 'R'), end('R', 'll', 'one', 'local', 'rrs', 'L')], '''
class L:
    id: str = types.str.primary.required
    rrs: Any = types.listof('R').linkedby('ll')
class R:
    tag: Any = types.str
    ll: Any = types.objof('L').linkto
'''),
 'eqm': ([end('L', 'rrs', 'many', 'foreign', 'lls', 'R'), end('R', 'lls', 'many', 'foreign', 'rrs', 'L')], '''
class L:
    id: str = types.str.primary.required
    rrs: Any = types.listof('R').linkedthru('lls')
class R:
    tag: Any = types.str
    lls: Any = types.listof('L').linkedthru('rrs')
'''),
 'lm': ([end('L', 'rrs', 'many', 'local', 'lls', 'R'), end('R', 'lls', 'many', 'foreign', 'rrs', 'L')], '''
class L:
    id: str = types.str.primary.required
    rrs: Any = types.listof('R').linkto
class R:
    id: str = types.str.primary.required
    lls: Any = types.listof('L').linkedby('rrs')
'''),
 'lo': ([end('L', 'rrs', 'many', 'local', 'll', 'R'), end('R', 'll', 'one', 'foreign', 'rrs', 'L')], '''
class L:
    id: str = types.str.primary.required
    rrs: Any = types.listof('R').linkto
class R:
    id: str = types.str.primary.required
    ll: Any = types.objof('L').linkedby('rrs')
'''),
 'two': ([end('L', 'as_', 'many', 'foreign', 'author', 'R'), end('L', 'es', 'many', 'foreign', 'editor', 'R'),
          end('R', 'author', 'one', 'local', 'as_', 'L'), end('R', 'editor', 'one', 'local', 'es', 'L')], '''
class L:
    id: str = types.str.primary.required
    as_: Any = types.listof('R').linkedby('author')
    es: Any = types.listof('R').linkedby('editor')
class R:
    id: str = types.str.primary.required
    author: Any = types.objof('L').linkto
    editor: Any = types.objof('L').linkto
'''),
 'tree': ([end('L', 'parent', 'one', 'local', 'kids', 'L'), end('L', 'kids', 'many', 'foreign', 'parent', 'L')], '''
class L:
    id: str = types.str.primary.required
    parent: Any = types.objof('L').linkto
    kids: Any = types.listof('L').linkedby('parent')
'''),
 'way': ([end('L', 'rr', 'one', 'local', '', 'R'), end('L', 'rrs', 'many', 'local', '', 'R')], '''
class L:
    id: str = types.str.primary.required
    rr: Any = types.objof('R').linkto
    rrs: Any = types.listof('R').linkto
class R:
    id: str = types.str.primary.required
    n: Any = types.int
'''),
 'mix': ([end('L', 'rrs', 'many', 'foreign', 'll', 'R'), end('R', 'll', 'one', 'local', 'rrs', 'L'),
          end('R', 'cat', 'one', 'local', 'rr', 'C'), end('C', 'rr', 'one', 'foreign', 'cat', 'R'),
          end('L', 'cs', 'many', 'foreign', 'ls', 'C'), end('C', 'ls', 'many', 'foreign', 'cs', 'L')], '''
class L:
    id: str = types.str.primary.required
    rrs: Any = types.listof('R').linkedby('ll')
    cs: Any = types.listof('C').linkedthru('ls')
class R:
    id: str = types.str.primary.required
    ll: Any = types.objof('L').linkto
    cat: Any = types.objof('C').linkto
class C:
    id: str = types.str.primary.required
    rr: Any = types.objof('R').linkedby('cat')
    ls: Any = types.listof('L').linkedthru('cs')
'''),
}
_BUILT: dict[str, dict[str, type]] = {}


def classes(shape: str) -> dict[str, type]:
    if shape not in _BUILT:
        src = SHAPES[shape][1].replace('\nclass ', f"\n@jsonclass(class_graph='vf_links_{shape}')\nclass ")
        ns: dict[str, Any] = {'jsonclass': jsonclass, 'types': types, 'Any': Any, 'Optional': Optional}
        exec(src, ns)
        _BUILT[shape] = {c: ns[c] for c in 'LRC' if c in ns}
    return _BUILT[shape]


def ends(shape: str, cls: str) -> list[dict]:
    return [e for e in SHAPES[shape][0] if e['cls'] == cls]


def idname(e: dict) -> str:
    # class_graph's default strategy: <name>_id, <singular>_ids
    if e['kind'] == 'one':
        return e['name'] + '_id'
    return {'rrs': 'rr_ids', 'lls': 'll_ids'}[e['name']]


class World:
    def __init__(self, shape: str, obj: dict[str, str], pers: bool, ident: dict[str, str]) -> None:
        self.shape, self.objmap = shape, obj
        cls = classes(shape)
        self.o = {i: cls[c](**({'id': ident[i]} if ident[i] else {'tag': 'same'})) for i, c in obj.items()}
        if shape.startswith('twin'):
            for i, x in self.o.items():
                x.tag = i
        self.names = {id(x): i for i, x in self.o.items()}
        for i, x in self.o.items():        # loaded, empty list ends
            for e in ends(shape, obj[i]):
                if e['kind'] == 'many':
                    setattr(x, e['name'], [])
        if pers:
            for x in self.o.values():
                x._mark_unmodified()

    def do(self, op: dict) -> list:
        try:
            with time_limit(10):
                r = self._do(op)
            if r is None:
                return ['ok', []]
            return ['ok', [self._id(r)]]
        except Hang:
            return ['exc', 'Hang']
        except Exception as e:
            return ['exc', type(e).__name__]

    def _do(self, op: dict) -> Any:
        n = op['name']
        if n == 'mark':
            for x in self.o.values():
                x._mark_unmodified()
            return None
        x = self.o[op['o']]
        f = op['f']
        e = next(e for e in ends(self.shape, self.objmap[op['o']]) if e['name'] == f)
        ps = [self.o.get(p) for p in op.get('ps', [])]
        p = self.o.get(op['p']) if 'p' in op else None
        if n == 'one':
            setattr(x, f, ps[0] if ps else None)
            return None
        if n == 'assign':
            setattr(x, f, ps)
            return None
        if n == 'ids':
            if e['kind'] == 'one':
                setattr(x, idname(e), op['ps'][0] if op['ps'] else None)
            else:
                setattr(x, idname(e), list(op['ps']))
            return None
        if n == 'idsappend':
            getattr(x, idname(e)).append(op['p'])
            return None
        if n == 'idsremove':
            getattr(x, idname(e)).remove(op['p'])
            return None
        lst = getattr(x, f)
        if n == 'append': return lst.append(p)
        if n == 'extend': return lst.extend(ps)
        if n == 'iadd':
            lst += ps
            return None
        if n == 'insert': return lst.insert(op['i'], p)
        if n == 'remove': return lst.remove(p)
        if n == 'pop': return lst.pop(op['i'])
        if n == 'clear': return lst.clear()
        if n == 'reverse': return lst.reverse()
        if n == 'setitem':
            lst[op['i']] = p
            return None
        if n == 'delitem':
            del lst[op['i']]
            return None
        if n == 'setslice':
            lst[op['a']:op['b']] = ps
            return None
        if n == 'delslice':
            del lst[op['a']:op['b']]
            return None
        raise KeyError(n)

    def observe(self) -> dict:
        v: dict = {}
        k: dict = {}
        pool: dict = {}
        mod, ismod, same, selfs = [], [], [], []
        for i, x in self.o.items():
            v[i], k[i], pool[i] = {}, {}, {}
            for e in ends(self.shape, self.objmap[i]):
                val = getattr(x, e['name'])
                if e['kind'] == 'one':
                    v[i][e['name']] = [] if val is None else [self._id(val)]
                else:
                    v[i][e['name']] = [self._id(y) for y in val or []]
                if e['store'] == 'local':
                    kv = getattr(x, idname(e))
                    if e['kind'] == 'one':
                        k[i][e['name']] = [] if kv is None else [str(kv)]
                    else:
                        k[i][e['name']] = [str(y) for y in kv] if isinstance(kv, list) else ['?']
                else:
                    k[i][e['name']] = []
                pool[i][e['name']] = [self._id(y) for y in x.unlinked_objects.get(e['name'], [])]
            mod += [[i, m] for m in x.modified_fields]
            if x.is_modified:
                ismod.append(i)
            if self.shape in ('eq', 'eqm'):     # graphs hold objects by key
                selfs.append(i)
                same += [[i, j] for j in self.o]
                continue
            try:
                if x._graph.get(x) is x:
                    selfs.append(i)
            except Exception:
                pass
            for j, y in self.o.items():
                if x._graph is y._graph:
                    same.append([i, j])
        return {'v': v, 'k': k, 'pool': pool, 'mod': mod, 'ismod': ismod,
                'same': same, 'self': selfs}

    def _id(self, y: Any) -> str:
        return self.names.get(id(y)) or f'?{getattr(y, "id", None)}'


def faults(shape: str, pre: dict, op: dict, st: dict, ob: dict) -> list[str]:
    """ObsFaults of JLinks.tla for states that came out of TLC."""
    out = set()
    if st['dead']:
        return [] if set(ob['self']) == set(st['obj']) else ['graph-self']
    local = {(e['cls'], e['name']) for e in SHAPES[shape][0] if e['store'] == 'local'}
    own = (op['o'], op['f'])
    ownv = own if op['name'] not in ('ids', 'idsappend', 'idsremove') else None
    ownk = own if pre['k'][own[0]][own[1]] == pre['v'][own[0]][own[1]] and not (
        op['name'] == 'setslice' and set(pre['v'][own[0]][own[1]]) == set(st['v'][own[0]][own[1]])) else None
    for o, c in st['obj'].items():
        for f in st['v'][o]:
            want, got = st['v'][o][f], ob['v'][o][f]
            if set(want) != set(got):
                out.add('partners')
            elif want != got:
                out.add('order' if ownv == (o, f) else 'order-opp')
            if len(set(got)) != len(got):
                out.add('duplicate')
            if (c, f) in local:
                want, got = st['k'][o][f], ob['k'][o][f]
                if set(want) != set(got) or len(set(got)) != len(got):
                    out.add('ids')
                elif want != got:
                    out.add('ids-order' if ownk == (o, f) else 'order-opp')
            if set(st['pool'][o][f]) != set(ob['pool'][o][f]):
                out.add('pool')
    same = {tuple(p) for p in ob['same']}
    for o in st['obj']:
        if any((o, p) not in same for p in st['grp'][o]):
            out.add('graph')
    if set(ob['self']) != set(st['obj']):
        out.add('graph-self')
    mod = {tuple(m) for m in ob['mod']}
    must = {tuple(m) for m in st['must']}
    if not must <= mod or not {m[0] for m in must} <= set(ob['ismod']):
        out.add('unreported')
    if not st['pers'] and (mod or ob['ismod']):
        out.add('new-reported')
    return sorted(out)


CLAUSES = {
    'C09': {'construct', 'result', 'partners', 'duplicate', 'order'},
    'C10': {'construct', 'result', 'partners', 'ids', 'ids-order', 'unreported', 'new-reported'},
    'C11': {'construct', 'result', 'partners', 'graph', 'graph-self', 'pool'},
}
POP = {'oo': 'LLRR', 'om': 'LLRR', 'mm': 'LLRR', 'lm': 'LLRR', 'lo': 'LLRR', 'twin': 'LLRRR', 'twin1': 'LLRRR', 'eq': 'LLRR', 'eqm': 'LLRR',
       'two': 'LLR', 'tree': 'LLL', 'way': 'LRR', 'mix': 'LRC'}
DEPTH = {'oo': 4, 'om': 3, 'mm': 3, 'lm': 2, 'lo': 2, 'twin': 2, 'twin1': 4, 'eq': 3, 'eqm': 3, 'two': 3, 'tree': 2, 'way': 2, 'mix': 3}
DEEP = {'oo': 6, 'om': 4, 'mm': 4, 'lm': 3, 'lo': 3, 'twin': 3, 'twin1': 5, 'eq': 4, 'eqm': 4, 'two': 4, 'tree': 4, 'way': 3, 'mix': 4}


def population(spec: str) -> dict[str, str]:
    cnt: dict[str, int] = {}
    out = {}
    for c in spec:
        cnt[c] = cnt.get(c, 0) + 1
        out[f'{c.lower()}{cnt[c]}'] = c
    return out


def twins(shape: str, obj: dict[str, str]) -> dict[str, str]:
    ident = {o: o for o in obj}
    if shape in ('eq', 'eqm'):
        ident = {o: '' if c == 'R' else o for o, c in obj.items()}
    if shape.startswith('twin'):
        for o in obj:
            if o in ('r2', 'r4'):
                ident[o] = 'r1' if o == 'r2' else 'r3'
    return ident


def walk(job) -> dict | None:
    shape, st0, path = job
    try:
        w = World(shape, st0['obj'], st0['pers'], st0['ident'])
    except Exception as e:
        return {'shape': shape, 'faults': ['construct'], 'got': repr(e)}
    done = []
    for tr in path:
        done.append(tr['o'])
        out = w.do(tr['o'])
        bad = [] if out == tr['r'] else ['result']
        try:
            obs = w.observe()
            bad += faults(shape, tr['s'], tr['o'], tr['t'], obs)
        except Exception as e:
            obs = repr(e)
            bad.append('construct')
        if bad == ['order-opp']:      # left open by the specification: this
            return None               # walk cannot be followed any further
        if bad:
            return {'shape': shape, 'pers': st0['pers'], 'obj': st0['obj'], 'ops': done,
                    'faults': bad, 'expected': {'out': tr['r'], 'st': tr['t']},
                    'got': {'out': out, 'obs': obs}}
    return None


def rnd_op(rng, w: World) -> dict:
    if rng.random() < 0.05:
        return {'name': 'mark', 'o': next(iter(w.o)), 'f': ''}
    o = rng.choice([i for i, c in w.objmap.items() if ends(w.shape, c)])
    e = rng.choice(ends(w.shape, w.objmap[o]))
    T = [i for i, c in w.objmap.items() if c == e['to']]
    x = w.o[o]
    b = {'o': o, 'f': e['name']}
    def sub(n, extra=()):
        pool = T + list(extra)
        return rng.sample(pool, rng.randint(0, min(n, len(pool))))
    if e['kind'] == 'one':
        if e['store'] == 'local' and rng.random() < 0.35:
            return {**b, 'name': 'ids', 'ps': rng.choice([[], [rng.choice(T)], ['zz']])}
        return {**b, 'name': 'one', 'ps': rng.choice([[], [rng.choice(T)], [rng.choice(T)]])}
    if e['store'] == 'local' and rng.random() < 0.3:
        n = rng.choice(['ids', 'idsappend', 'idsremove'])
        ids = getattr(x, idname(e))
        if n == 'ids':
            return {**b, 'name': n, 'ps': sub(3, ['zz', 'yy'])}
        if n == 'idsappend':
            c = [i for i in ['zz', 'yy'] if i not in ids]
            if c:
                return {**b, 'name': n, 'p': rng.choice(c)}
        return {**b, 'name': 'idsremove', 'p': rng.choice(list(ids) or T)}
    cur = [w._id(y) for y in getattr(x, e['name']) or []]
    free = [i for i in T if i not in cur]
    n = rng.choice(['assign', 'append', 'extend', 'iadd', 'insert', 'remove', 'pop', 'clear',
                    'reverse', 'setitem', 'delitem', 'setslice', 'delslice'])
    if n in ('append', 'insert') and not free:
        n = 'pop'
    op = {**b, 'name': n}
    if n == 'assign': op['ps'] = sub(4)
    if n in ('append', 'insert'): op['p'] = rng.choice(free)
    if n in ('extend', 'iadd'): op['ps'] = rng.sample(free, rng.randint(0, min(2, len(free))))
    if n in ('insert', 'pop', 'delitem'): op['i'] = rng.randint(-len(cur) - 1, len(cur) + 1)
    if n == 'remove': op['p'] = rng.choice(T)
    if n == 'setitem':
        if not cur:
            return {**b, 'name': 'clear'}
        i = rng.randint(-len(cur), len(cur) - 1)
        op['i'] = i
        op['p'] = rng.choice(free + [cur[i]])
    if n in ('setslice', 'delslice'):
        a = rng.randint(0, len(cur))
        z = rng.randint(a, len(cur))
        op['a'], op['b'] = a, z
        if n == 'setslice':
            ok = free + cur[a:z]
            op['ps'] = rng.sample(ok, rng.randint(0, min(3, len(ok))))
    return op


def record(job) -> dict:
    shape, seed, length, size = job
    rng = random.Random(seed)
    kinds = sorted(set(POP[shape]))
    obj = population(''.join(c * rng.randint(2, size) for c in kinds))
    pers = rng.random() < 0.5
    ident = twins(shape, obj)
    tr: dict = {'obj': obj, 'ident': ident, 'pers': pers, 'steps': []}
    try:
        w = World(shape, obj, pers, ident)
        for _ in range(length):
            op = rnd_op(rng, w)
            out = w.do(op)
            tr['steps'].append({'op': op, 'out': out, 'obs': w.observe()})
            if out[0] == 'exc' and out[1] not in ('ValueError', 'IndexError'):
                break
    except Exception as e:
        tr['crash'] = repr(e)
    return tr


MC_CFG = ('SPECIFICATION Spec\nCONSTANTS Depth = {d}\n Emitting = TRUE\nVIEW View\n'
          'ACTION_CONSTRAINT Emit\nINVARIANT Symmetric\nINVARIANT Keys\nINVARIANT Graphs\n'
          'INVARIANT Pools\nINVARIANT NewQuiet\nPROPERTY Failing\n')
SHAPES_OF = {'C09': [s for s in SHAPES if 'twin' not in s], 'C10': ['oo', 'om', 'lm', 'lo', 'two', 'way', 'tree'],
             'C11': ['twin', 'twin1', 'om', 'mm', 'lm', 'two', 'mix']}


def _vals(e):
    return e.values() if isinstance(e, dict) else []   # TLC prints [] for no ends


def _initial(s: dict) -> bool:
    return not s['must'] and all(not x for e in s['v'].values() for x in _vals(e)) \
        and all(not x for e in s['k'].values() for x in _vals(e)) \
        and all(not x for e in s['pool'].values() for x in _vals(e)) \
        and all(len(g) == 1 for g in s['grp'].values())


def mc_job(job):
    shape, depth = job
    return shape, tlc.run('MC_Links', cfg=MC_CFG.format(d=depth), workers=2,
                          data={'schema.json': {'schema': SHAPES[shape][0],
                                                'obj': population(POP[shape]),
                                                'ident': twins(shape, population(POP[shape]))}})


def run(prop: str, chk) -> None:
    from concurrent.futures import ThreadPoolExecutor
    wanted = CLAUSES[prop]
    shapes = SHAPES_OF[prop]
    jobs = [(s, (DEEP if chk.thorough else DEPTH)[s]) for s in shapes]
    with ThreadPoolExecutor(4) as ex:
        results = list(ex.map(mc_job, jobs))
    for shape, res in results:
        chk.model(res, f'MC_Links/{shape}')
        g = Graph(res.emitted)
        walks = [(shape, a, b) for a, b in g.walks(_initial, 40)]
        for b in pmap(walk, walks):
            report(chk, b, wanted, 'replay')
        chk.traced(g.edges, f'transitions replayed: {shape}')
        if walks:
            chk.sample({'shape': shape, 'ops': [t['o'] for t in walks[0][2]][:5]})
    n, length, size = chk.pick((50, 30, 3), (800, 80, 5))
    recs = pmap(record, [(shape, f'{chk.seed}:{prop}:{shape}:{i}', length, size)
                         for shape in shapes for i in range(n)])
    sets = [(shape, recs[j * n:(j + 1) * n]) for j, shape in enumerate(shapes)]
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(trace_job, sets))
    for (shape, traces), res in zip(sets, outs):
        validate(chk, shape, traces, res, wanted)
    if prop == 'C11':        # one object per class and id inside one input: JCore
        from drivers import core, core_models
        for m in core_models.MODELS['C11']():
            core.explore(chk, m)
        core.decide(chk, 'C11', chk.pick(500, 10000), 8)


def report(chk, b, wanted, kind):
    if b and wanted & set(b['faults']):
        key = f'{kind}:{b["shape"]}:' + ','.join(sorted(wanted & set(b['faults'])))
        if 'ops' in b:
            key += ':' + b['ops'][-1]['name']
        chk.violation({'kind': kind, **b}, key)


def trace_job(job):
    shape, traces = job
    ok = [t for t in traces if 'crash' not in t]
    if not ok:
        return None
    return tlc.run('Trace_Links', workers=2,
                   cfg='SPECIFICATION Spec\nINVARIANT Symmetric\nINVARIANT Keys\nINVARIANT Graphs\nINVARIANT Pools\n',
                   data={'traces.json': {'schema': SHAPES[shape][0], 'traces': ok}})


def validate(chk, shape, traces, res, wanted):
    for t in traces:
        if 'crash' in t:
            report(chk, {'shape': shape, 'faults': ['construct'], 'got': t['crash'],
                         'ops': [s['op'] for s in t['steps']]}, wanted, 'trace')
    traces = [t for t in traces if 'crash' not in t]
    if res is None:
        return
    chk.model(res, f'Trace_Links/{shape}')
    chk.traced(len(traces), f'recorded traces: {shape}')
    for bad in res.emitted:
        tr = traces[bad['t'] - 1]
        k = bad['k']
        report(chk, {'shape': shape, 'faults': bad['faults'], 'pers': tr['pers'], 'obj': tr['obj'],
                     'ops': [s['op'] for s in tr['steps'][:k]],
                     'got': tr['steps'][k - 1], 'expected': bad['expected']}, wanted, 'trace')
