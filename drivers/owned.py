"""C06, C07, C08: owned containers, change tracking, previous values.
Specification: spec/JOwned.tla."""
from __future__ import annotations
import random
from typing import Any, Optional
from jsonclasses import jsonclass, types
from lib.values import enc, dec, plain
from lib.conform import Graph, pmap, time_limit, Hang
from lib import tlc

FIELDS = ['l', 'd', 'x', 't']


def _classes():
    @jsonclass(class_graph='vf_owned')
    class OwnPlain:
        l: Optional[list[Any]] = types.listof(types.any)
        d: Optional[dict[str, Any]] = types.dictof(types.any)
        x: Optional[int]
        t: Optional[int] = types.int.temp

    @jsonclass(class_graph='vf_owned', reset_all_fields=True)
    class OwnReset:
        l: Optional[list[Any]] = types.listof(types.any)
        d: Optional[dict[str, Any]] = types.dictof(types.any)
        x: Optional[int]
        t: Optional[int] = types.int.temp
    return OwnPlain, OwnReset


CLS: Any = None


def make(new: bool, rst: bool, f: dict) -> Any:
    global CLS
    if CLS is None:
        CLS = _classes()
    obj = CLS[1 if rst else 0](**{k: dec(plain(v)) for k, v in f.items()})
    if not new:
        obj._mark_unmodified()
    return obj


def container(obj: Any, op: dict) -> Any:
    cur = getattr(obj, op['f'])
    for p in op.get('path', []):
        cur = cur[p[1]]
    return cur


def slc(s: list) -> slice:
    return slice(*[dec(b) for b in s])


def apply(obj: Any, op: dict) -> Any:
    n = op['name']
    if n == 'assign':
        setattr(obj, op['f'], dec(op['v']))
        return None
    if n == 'set':
        r = obj.set(**{op['f']: dec(op['v'])})
        return None if r is obj else r
    if n == 'update':
        r = obj.update(**{op['f']: dec(op['v'])})
        return None if r is obj else r
    if n == 'swap':
        old = getattr(obj, op['f'])
        setattr(obj, op['f'], dec(op['v']))
        old.append(99)
        return None
    if n == 'mark':
        return obj._mark_unmodified()
    if n == 'renew':
        return obj._mark_new()
    if n == 'reset':
        return obj.reset()
    c = container(obj, op)
    v = dec(op['v']) if 'v' in op else None
    i = op.get('i')
    vs = [dec(x) for x in op['vs']] if 'vs' in op else None
    ps = [(k, dec(x)) for k, x in op['ps']] if 'ps' in op else None
    k = op.get('k')
    if n == 'append': return c.append(v)
    if n == 'extend': return c.extend(vs)
    if n == 'extend_gen': return c.extend(e for e in vs)
    if n == 'extend_tuple': return c.extend(tuple(vs))
    if n == 'extend_self': return c.extend(c)
    if n in ('iadd', 'iadd_gen'):
        arg = vs if n == 'iadd' else (e for e in vs)
        if not op.get('path'):
            if op['f'] == 'l':
                obj.l += arg
            else:
                obj.d += arg
        else:
            r = c.__iadd__(arg)
            assert r is c
        return None
    if n == 'insert': return c.insert(i, v)
    if n == 'remove': return c.remove(v)
    if n == 'pop': return c.pop(i)
    if n == 'pop0': return c.pop()
    if n == 'clear': return c.clear()
    if n == 'reverse': return c.reverse()
    if n == 'sort': return c.sort(reverse=True) if i else c.sort()
    if n == 'imul':
        if not op.get('path') and op['f'] == 'l':
            obj.l *= i
        else:
            assert c.__imul__(i) is c
        return None
    if n == 'setitem':
        c[i] = v
        return None
    if n == 'delitem':
        del c[i]
        return None
    if n == 'setslice':
        c[slc(op['s'])] = vs
        return None
    if n == 'delslice':
        del c[slc(op['s'])]
        return None
    if n == 'getitem': return c[i]
    if n == 'getslice': return c[slc(op['s'])]
    if n == 'add': return c + vs
    if n == 'mul': return c * i
    if n in ('copy', 'dcopy'): return c.copy()
    if n in ('len', 'dlen'): return len(c)
    if n == 'contains': return v in c
    if n == 'count': return c.count(v)
    if n == 'index': return c.index(v)
    if n == 'dset':
        c[k] = v
        return None
    if n == 'ddel':
        del c[k]
        return None
    if n == 'dpop': return c.pop(k)
    if n == 'dpopd': return c.pop(k, v)
    if n == 'dpopitem': return list(c.popitem())
    if n == 'dclear': return c.clear()
    if n == 'dsetdefault': return c.setdefault(k, v)
    if n == 'dsetdefault1': return c.setdefault(k)
    if n == 'dupdate': return c.update(dict(ps))
    if n == 'dupdate_pairs': return c.update(e for e in ps)
    if n == 'dupdate_kw': return c.update(**dict(ps))
    if n in ('dior', 'dior_pairs'):
        arg = dict(ps) if n == 'dior' else list(ps)
        if not op.get('path') and op['f'] == 'd':
            obj.d |= arg
        else:
            assert c.__ior__(arg) is c
        return None
    if n == 'dget': return c.get(k)
    if n == 'dgetitem': return c[k]
    if n == 'dcontains': return k in c
    if n == 'dkeys': return list(c.keys())
    if n == 'dvalues': return list(c.values())
    if n == 'dor': return c | dict(ps)
    raise KeyError(n)


def do(obj: Any, op: dict) -> list:
    try:
        with time_limit(10):
            return ['ok', enc(apply(obj, op))]
    except Hang:
        return ['exc', 'Hang']
    except Exception as e:
        return ['exc', type(e).__name__]


def observe(obj: Any) -> dict:
    def kp(names):
        return sorted([n.split('.')[0], n] for n in names)
    try:
        pm = kp(obj.persisted_modified_fields)
    except Exception as e:
        pm = [['exc', type(e).__name__]]
    return {'f': {n: enc(getattr(obj, n)) for n in FIELDS},
            'mod': kp(obj.modified_fields), 'pmod': pm,
            'ismod': bool(obj.is_modified), 'new': bool(obj.is_new),
            'prev': [[k, enc(v)] for k, v in obj.previous_values.items()]}


def faults(st: dict, o: dict) -> list[str]:
    """ObsFaults of JOwned.tla, for states that came out of TLC."""
    out = []
    must = [tuple(e) for e in st['must']]
    may = set(st['may'])
    mod = {tuple(e) for e in o['mod']}
    if any(o['f'][n] != plain(st['f'][n]) for n in FIELDS):
        out.append('value')
    if o['new'] != st['new']:
        out.append('is_new')
    mf = {e[0] for e in mod}
    if not all((e[0] in mf) if e[1] == '*' else e in mod for e in must):
        out.append('modified-missing')
    wild = {e[0] for e in must if e[1] == '*'} | may
    if not all(e in must or e[0] in wild for e in mod):
        out.append('modified-spurious')
    if o['ismod'] != bool(mod):
        out.append('is_modified')
    if {tuple(e) for e in o['pmod']} != {e for e in mod if e[0] != 't'}:
        out.append('persisted-modified')
    prev = dict((k, v) for k, v in o['prev'])
    if not st['new']:
        if st['rst'] and not {e[0] for e in must} <= set(prev):
            out.append('previous-missing')
        if any(v != st['base'][k] for k, v in prev.items()):
            out.append('previous-wrong')
    if not st['rst'] and prev:
        out.append('previous-unasked')
    return out


def walk(job) -> dict | None:
    st0, path = job
    try:
        obj = make(st0['new'], st0['rst'], st0['f'])
    except Exception as e:
        return {'init': st0, 'faults': ['construct'], 'got': repr(e)}
    done = []
    for tr in path:
        done.append(tr['o'])
        out = do(obj, tr['o'])
        bad = [] if out == tr['r'] else ['result']
        obs = observe(obj)
        bad += faults(tr['t'], obs)
        if bad:
            return {'init': {k: st0[k] for k in ('new', 'rst', 'f')},
                    'ops': done, 'faults': bad, 'expected': {'out': tr['r'], 'st': tr['t']},
                    'got': {'out': out, 'obs': obs}}
    return None


#: clauses that count for each property
CLAUSES = {
    'C06': {'result', 'value', 'construct'},
    'C07': {'result', 'value', 'construct', 'is_new', 'modified-missing',
            'modified-spurious', 'is_modified', 'persisted-modified'},
    'C08': {'result', 'value', 'construct', 'previous-missing',
            'previous-wrong', 'previous-unasked', 'modified-spurious'},
}
FAMILIES = {
    'C06': [('list', 3, 6), ('slice', 2, 8), ('dict', 3, 8), ('nest', 2, 14)],
    'C07': [('list', 2, 6), ('slice', 1, 8), ('dict', 2, 8), ('nest', 2, 14), ('obj', 4, 8)],
    'C08': [('list', 2, 6), ('slice', 1, 8), ('dict', 2, 8), ('nest', 2, 14), ('obj', 4, 8)],
}
DEEP = {'list': 4, 'slice': 3, 'dict': 3, 'nest': 3, 'obj': 6}


def cfg(fam: str, depth: int, maxlen: int, emit: bool) -> str:
    return (f'SPECIFICATION Spec\nCONSTANTS Family = "{fam}"\n Depth = {depth}\n'
            f' MaxLen = {maxlen}\n Emitting = {"TRUE" if emit else "FALSE"}\n'
            'VIEW View\nCONSTRAINT Bound\nACTION_CONSTRAINT Emit\n'
            'INVARIANT Tracking\nINVARIANT ResetOk\nPROPERTY Unchanged\n')


# ---------------------------------------------------------------- recordings
def rnd_val(rng, depth=0):
    r = rng.random()
    if depth >= 3 or r < 0.55:
        return rng.choice([None, 1, 2, 3, 'a', 'b', '', 7, -1, True, False])
    if r < 0.8:
        return [rnd_val(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {k: rnd_val(rng, depth + 1)
            for k in rng.sample(['a', 'b', 'k', 'z'], rng.randint(0, 3))}


def rnd_intval(rng, depth=0):
    """Values without bool: Python equates True with 1."""
    v = rnd_val(rng, depth)
    def fix(x):
        if isinstance(x, bool):
            return 5
        if isinstance(x, list):
            return [fix(i) for i in x]
        if isinstance(x, dict):
            return {k: fix(i) for k, i in x.items()}
        return x
    return fix(v)


def rnd_slice(rng):
    b = lambda: rng.choice([['none'], ['int', rng.randint(-5, 6)]])
    step = rng.choice([['none']] * 3 + [['int', 1], ['int', 2], ['int', -1], ['int', -2], ['int', 3]])
    return [b(), b(), step]


def rnd_op(rng, obj, rst):
    if rng.random() < 0.16:
        n = rng.choice(['assign'] * 3 + ['set', 'update', 'mark', 'mark', 'renew', 'reset'])
        if rng.random() < 0.15 and isinstance(obj.l, list):
            v = [rnd_intval(rng, 1) for _ in range(rng.randint(0, 4))]
            if v != obj.l:
                return {'name': 'swap', 'f': 'l', 'v': enc(v)}
        if n == 'renew' and rng.random() < 0.7:
            n = 'mark'
        f = rng.choice(FIELDS)
        op = {'name': n, 'f': f}
        if n in ('assign', 'set', 'update'):
            if f == 'l':
                v = [rnd_intval(rng, 1) for _ in range(rng.randint(0, 4))]
            elif f == 'd':
                v = {k: rnd_intval(rng, 1) for k in rng.sample('abkz', rng.randint(0, 3))}
            else:
                v = rng.choice([None, 1, 2, 3])
            if rng.random() < 0.08:
                v = None
            if rng.random() < 0.15:   # an equal value
                cur = getattr(obj, f)
                v = dec(enc(cur))
            if n == 'set' and f in 'ld' and _has_none(v):
                op['name'] = 'assign'
            op['v'] = enc(v)
        return op
    f = rng.choice(['l', 'l', 'd'])
    cur = getattr(obj, f)
    path = []
    while isinstance(cur, (list, dict)) and rng.random() < 0.55:
        subs = [(['i', i], c) for i, c in enumerate(cur) if isinstance(c, (list, dict))] \
            if isinstance(cur, list) else \
            [(['k', k], c) for k, c in cur.items() if isinstance(c, (list, dict))]
        if not subs:
            break
        p, cur = rng.choice(subs)
        path.append(p)
    if not isinstance(cur, (list, dict)):
        return {'name': 'mark', 'f': 'x'}
    op = {'f': f, 'path': path}
    if isinstance(cur, list):
        big = len(cur) > 6
        n = rng.choice(['pop', 'pop0', 'clear', 'delslice', 'delitem'] if big else
                       ['append', 'extend', 'extend_gen', 'extend_tuple', 'extend_self', 'iadd',
                        'iadd_gen', 'insert', 'insert', 'remove', 'pop', 'pop0', 'clear',
                        'reverse', 'sort', 'imul', 'setitem', 'setitem', 'delitem',
                        'setslice', 'setslice', 'delslice', 'getitem', 'getslice',
                        'add', 'mul', 'copy', 'len', 'contains', 'count', 'index'])
        if n == 'sort' and not all(type(x) is int for x in cur):
            n = 'reverse'
        if n in ('append', 'insert', 'setitem'):
            op['v'] = enc(rnd_intval(rng, len(path) + 1))
        if n in ('remove', 'contains', 'count', 'index'):
            v = rng.choice(list(cur)) if cur and rng.random() < 0.8 else rnd_intval(rng, 2)
            op['v'] = enc(v)
        if n in ('extend', 'extend_gen', 'extend_tuple', 'iadd', 'iadd_gen', 'setslice', 'add'):
            op['vs'] = [enc(rnd_intval(rng, len(path) + 1)) for _ in range(rng.randint(0, 3))]
        if n in ('insert', 'pop', 'setitem', 'delitem', 'getitem'):
            op['i'] = rng.randint(-len(cur) - 2, len(cur) + 2)
        if n in ('imul', 'mul'):
            op['i'] = rng.choice([-1, 0, 1, 2, 2])
        if n == 'sort':
            op['i'] = rng.randint(0, 1)
        if n in ('setslice', 'delslice', 'getslice'):
            op['s'] = rnd_slice(rng)
            if n == 'setslice' and op['s'][2] not in (['none'], ['int', 1]) and rng.random() < .7:
                need = len(list(cur)[slc(op['s'])])
                op['vs'] = [enc(rnd_intval(rng, len(path) + 1)) for _ in range(need)]
    else:
        n = rng.choice(['dset', 'dset', 'ddel', 'dpop', 'dpopd', 'dpopitem', 'dclear',
                        'dsetdefault', 'dsetdefault1', 'dupdate', 'dupdate_pairs',
                        'dupdate_kw', 'dior', 'dior_pairs', 'dget', 'dgetitem',
                        'dcontains', 'dlen', 'dkeys', 'dvalues', 'dor', 'dcopy'])
        if n in ('dset', 'ddel', 'dpop', 'dpopd', 'dsetdefault', 'dsetdefault1',
                 'dget', 'dgetitem', 'dcontains'):
            op['k'] = rng.choice(['a', 'b', 'k', 'z'])
        if n in ('dset', 'dpopd', 'dsetdefault'):
            op['v'] = enc(rnd_intval(rng, len(path) + 1))
        if n in ('dupdate', 'dupdate_pairs', 'dupdate_kw', 'dior', 'dior_pairs', 'dor'):
            op['ps'] = [[k, enc(rnd_intval(rng, len(path) + 1))]
                        for k in rng.sample(['a', 'b', 'k', 'z'], rng.randint(0, 3))]
    op['name'] = n
    return op


def _has_none(v):
    if v is None:
        return False
    items = v if isinstance(v, list) else v.values()
    return any(i is None for i in items)


def record(seed: str, length: int) -> dict:
    rng = random.Random(seed)
    rst, new = rng.random() < 0.6, rng.random() < 0.2
    f = {'l': [rnd_intval(rng, 1) for _ in range(rng.randint(0, 4))],
         'd': {k: rnd_intval(rng, 1) for k in rng.sample('abkz', rng.randint(0, 3))},
         'x': rng.choice([None, 1, 2]), 't': None}
    f['l'] = [0 if i is None else i for i in f['l']]
    f['d'] = {k: 0 if i is None else i for k, i in f['d'].items()}
    ef = {k: enc(v) for k, v in f.items()}
    steps = []
    try:
        obj = make(new, rst, ef)
    except Exception as e:
        return {'new': new, 'rst': rst, 'f': ef, 'steps': [], 'crash': repr(e)}
    for _ in range(length):
        op = rnd_op(rng, obj, rst)
        out = do(obj, op)
        steps.append({'op': op, 'out': out, 'obs': observe(obj)})
        if out == ['exc', 'Hang'] or out == ['exc', 'RecursionError']:
            break
    return {'new': new, 'rst': rst, 'f': ef, 'steps': steps}


def _rec(job):
    return record(*job)


def run(prop: str, chk) -> None:
    wanted = CLAUSES[prop]
    for fam, depth, maxlen in FAMILIES[prop]:
        if chk.thorough:
            depth = DEEP[fam]
        res = tlc.run('MC_Owned', cfg=cfg(fam, depth, maxlen, True), workers=4)
        chk.model(res, f'MC_Owned/{fam}/depth{depth}')
        g = Graph(res.emitted)
        walks = g.walks(lambda s: s['must'] == [] and s['may'] == []
                        and all(plain(s['f'][n]) == s['base'][n] for n in FIELDS))
        bads = [b for b in pmap(walk, walks) if b]
        chk.traced(g.edges, f'transitions replayed: {fam}')
        for b in bads:
            if wanted & set(b['faults']):
                chk.violation({'kind': 'replay', 'family': fam, **b},
                              'replay:' + ','.join(sorted(wanted & set(b['faults'])))
                              + ':' + b['ops'][-1]['name'] if 'ops' in b else 'construct')
        if walks:
            chk.sample({'model': fam, 'init': walks[0][0], 'ops': [t['o'] for t in walks[0][1]][:6]})
    n, length = chk.pick((240, 30), (4000, 60))
    jobs = [(f'{chk.seed}:{prop}:{i}', length) for i in range(n)]
    traces = pmap(_rec, jobs)
    check_traces(chk, traces, wanted)


def check_traces(chk, traces, wanted, batch=500):
    for tr in traces:
        if 'crash' in tr:
            chk.violation({'kind': 'construct', **tr}, 'construct')
    traces = [t for t in traces if 'crash' not in t]
    for a in range(0, len(traces), batch):
        part = traces[a:a + batch]
        res = tlc.run('Trace_Owned', cfg='SPECIFICATION Spec\nINVARIANT Tracking\nINVARIANT ResetOk\n',
                      data={'traces.json': part}, workers=8)
        chk.model(res, 'Trace_Owned')
        chk.traced(len(part), 'recorded traces')
        if part:
            chk.sample({'recorded': [s['op'] for s in part[0]['steps'][:5]]})
        for bad in res.emitted:
            fs = set(bad['faults'])
            if wanted & fs:
                tr = part[bad['t'] - 1]
                k = bad['k']
                chk.violation({'kind': 'trace', 'faults': sorted(fs),
                               'init': {x: tr[x] for x in ('new', 'rst', 'f')},
                               'ops': [s['op'] for s in tr['steps'][:k]],
                               'got': tr['steps'][k - 1], 'expected': bad['expected']},
                              'trace:' + ','.join(sorted(wanted & fs)) + ':' +
                              tr['steps'][k - 1]['op']['name'])
