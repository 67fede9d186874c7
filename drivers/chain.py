"""Modifier chains (JChain): order, eager part, checked part, presave part."""
from __future__ import annotations
import itertools, random
from typing import Any
from lib import tlc
from lib.conform import Graph, Hang, pmap, time_limit
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException

_count = itertools.count()
LETTERS = 'xyz'


def pyval(v: list) -> Any:
    if v[0] == 'none':
        return None
    if v[0] == 's':
        return '|'.join(v[1])
    if v[0] == 'int':
        return v[1]
    if v[0] == 'list':
        return [pyval(x) for x in v[1]]
    return {k: pyval(x) for k, x in v[1]}


def specval(v: Any) -> list:
    if v is None:
        return ['none']
    if isinstance(v, str):
        return ['s', v.split('|') if v else []]
    if isinstance(v, list):
        return ['list', [specval(x) for x in v]]
    if isinstance(v, dict):
        return ['dict', [[k, specval(x)] for k, x in v.items()]]
    if type(v) is int:
        return ['int', v]
    return ['other', repr(v)]


def grow(v: Any, c: str) -> Any:
    return (v + '|' + c if v else c) if isinstance(v, str) else v


class Build:
    """Type descriptions out of chain elements; their callbacks write to `log`."""

    def __init__(self) -> None:
        self.log: list = []

    def note(self, *a):
        self.log.append([*a[:2], specval(a[2])] if len(a) == 3 else list(a))

    def trans(self, i):
        def f(v):
            self.note('t', i, v)
            return grow(v, i)
        return f

    def valid(self, el):
        def f(v):
            self.note('v', el['id'], v)
            if not isinstance(v, str):
                return True
            q = v.split('|')
            return not (any(c in el['has'] for c in q) or q[-1] in el['ends'])
        return f

    def setter(self, el):
        i = el['id']
        if el['n'] == 0:
            def z():
                self.note('s', i)
                return i
            return z

        def f(v):
            self.note('s', i, v)
            return i if v is None else grow(v, i)
        return f

    def hook(self, kind, i):
        def f(v):
            self.note(kind, i, v)
        return f

    def chain(self, ch: list, start=None):
        t = types if start is None else start
        skip = False
        for el in ch:
            k = el['k']
            if k in ('E', 'P'):      # written by the modifier that follows
                continue
            if k == 'str':
                t = t.str
            elif k == 'req':
                t = t.required
            elif k == 'def':
                t = t.default(pyval(el['v']))
            elif k == 't':
                t = t.transform(self.trans(el['id']))
            elif k == 'v':
                t = t.validate(self.valid(el))
            elif k == 's':
                t = t.setonsave(self.setter(el))
            elif k == 'f':
                t = t.fsetonsave(self.setter(el))
            elif k == 'o':
                t = t.onsave(self.hook('o', el['id']))
            elif k == 'w':
                t = t.onwrite(self.hook('w', el['id']))
            elif k == 'nt':
                t = t.transform(self.chain(el['ch']))
            elif k == 'nv':
                t = t.validate(self.chain(el['ch']))
            elif k == 'ns':
                t = t.setonsave(self.chain(el['ch']))
        return t


class World:
    def __init__(self, schema: list) -> None:
        self.b = Build()
        self.schema = schema
        ns: dict = {'__annotations__': {}}
        for f in schema:
            if f['coll'] == '':
                t, a = self.b.chain(f['ch']), str
            else:
                # the item chain ends with the required mark the collection adds
                ch = f['ch'][:-1] if f['ch'][-1]['k'] == 'req' else f['ch']
                start = types if f['ch'][-1]['k'] == 'req' else types.nullable
                it = self.b.chain(ch, start)
                t, a = (types.listof(it), list) if f['coll'] == 'list' else (types.dictof(it), dict)
            ns[f['n']] = t
            ns['__annotations__'][f['n']] = a
        world = self

        def write(o):
            world.b.log.append(['write'])
        ns['_database_write'] = write
        i = next(_count)
        cls = type(f'Chain{i}', (), ns)
        self.cls = jsonclass(class_graph=f'chain{i}')(cls)
        self.cls._database_write = write
        self.o = None

    def run(self, op: dict) -> None:
        n, o = op['name'], self.o
        if n == 'new':
            self.o = self.cls(**{k: pyval(v) for k, v in op['in']})
        elif n == 'set':
            o.set(**{k: pyval(v) for k, v in op['in']})
        elif n == 'assign':
            setattr(o, op['f'], pyval(op['v']))
        elif n == 'mark':
            o._mark_not_new()
            o._modified_fields = set()
            o._is_modified = False
        elif n == 'validate':
            o.validate(all_fields=op['all'])
        elif n == 'json':
            o.tojson()
        elif n == 'save':
            o.save(validate_all_fields=op['all'], skip_validation=op['skip'])

    def step(self, op: dict) -> dict:
        del self.b.log[:]
        bad: list = []
        try:
            with time_limit(5):
                self.run(op)
        except ValidationException as e:
            bad = [k.split('.') for k in e.keypath_messages]
        except Hang:
            raise
        except Exception as e:
            bad = [['!', type(e).__name__]]
        o = self.o
        obs = [] if o is None else [o.is_new, sorted(o._modified_fields),
                                    {f['n']: specval(getattr(o, f['n'])) for f in self.schema}]
        return {'op': op, 'log': list(self.b.log), 'bad': bad, 'obs': obs}


# ------------------------------------------------------------ exhaustive part
def walk(path: list) -> dict | None:
    w = World(path[0]['c'])
    for i, tr in enumerate(path):
        g = w.step(tr['o'])
        t = tr['t']['o']
        want = [] if 'none' in t else [t['new'], sorted(t['mod']), t['f']]
        faults = [n for n, a, b in (('calls', g['log'], tr['r']['log']), ('content', g['obs'], want),
                                    ('verdict', sorted(g['bad']), sorted(tr['r']['bad']))) if a != b]
        if faults:
            return {'kind': 'replay', 'faults': faults, 'chain': tr['s']['m'], 'history': [x['o'] for x in path[:i + 1]],
                    'expected': {'log': tr['r']['log'], 'bad': tr['r']['bad'], 'obs': want}, 'got': g}
    return None


KINDS = ['t', 'vx', 'vd', 'req', 'def', 's', 's0', 'f', 'o', 'w', 'nv', 'nt', 'ns']


def explore(chk, kinds: list, maxlen: int, depth: int) -> None:
    res = tlc.run('MC_Chain', cfg='SPECIFICATION Spec\nINVARIANT Promised\nVIEW View\nACTION_CONSTRAINT Emit\n'
                  f'CONSTANTS MaxLen = {maxlen} Depth = {depth} Emitting = TRUE Kinds = {{{", ".join(chr(34) + k + chr(34) for k in kinds)}}}\n',
                  heap='16g')
    chk.model(res, f'MC_Chain/len{maxlen}/depth{depth}/{len(kinds)} kinds')
    g = Graph(res.emitted)
    walks = [p for _, p in g.walks(lambda s: 'none' in s['o'], 40)]
    bad = [b for b in pmap(walk, walks) if b]
    chk.traced(g.edges, f'replayed-transitions/len{maxlen}')
    for b in bad[:200]:
        chk.violation(b, f"{b['history'][-1]['name']}:{'+'.join(b['faults'])}:{','.join(b['chain'])}")


# ---------------------------------------------------------------- random part
def rand_chain(rng: random.Random, n: int, ids, nest: int = 1) -> list:
    out: list = []
    if rng.random() < .6:
        out.append({'k': 'str'})
    for _ in range(n):
        i = str(next(ids))
        k = rng.choice(['t', 't', 'v', 'v', 'v', 'req', 'def', 's', 's', 'f', 'o', 'w'] + ['nt', 'nv', 'ns'] * nest)
        v = {'k': 'v', 'id': i, 'has': rng.choice([[], [], ['x'], ['y']]),
             'ends': rng.choice([[], [], ['y'], ['z'], [str(rng.randint(1, 9))]])}
        if k == 't':
            out += [{'k': 'E'}, {'k': 't', 'id': i}]
        elif k == 'v':
            out.append(v)
        elif k == 'def':
            out.append({'k': 'def', 'v': ['s', [rng.choice(LETTERS)]]})
        elif k in 'sf':
            out += [{'k': 'P'}, {'k': k, 'id': i, 'n': rng.choice([1, 1, 0])}]
        elif k in ('o', 'w'):
            out.append({'k': k, 'id': i})
        elif k in ('nt', 'nv', 'ns'):
            sub = {'k': k, 'ch': [e for e in rand_chain(rng, rng.randint(1, 4), ids, 0) if e['k'] not in ('w',)]}
            out += ([{'k': 'E'}] if k == 'nt' else [{'k': 'P'}] if k == 'ns' else []) + [sub]
        else:
            out.append({'k': k})
    return out


def rand_val(rng: random.Random, coll: str = '', top: bool = True) -> list:
    if coll and top:
        if rng.random() < .12:
            return rng.choice([['none'], ['int', 1]])
        vs = [rand_val(rng, '', False) for _ in range(rng.randint(0, 3))]
        return ['list', vs] if coll == 'list' else ['dict', [[f'k{i}', v] for i, v in enumerate(vs)]]
    r = rng.random()
    if r < .15:
        return ['none']
    if r < .2:
        return ['int', rng.randint(0, 3)]
    return ['s', [rng.choice(LETTERS) for _ in range(rng.randint(1, 2))]]


def record(arg: tuple) -> dict:
    seed, length = arg
    rng = random.Random(seed)
    schema = []
    for n in ['a', 'b', 'c'][:rng.randint(1, 3)]:
        coll = rng.choice(['', '', 'list', 'dict'])
        ids = itertools.count(1)
        ch = rand_chain(rng, rng.randint(0, 6), ids)
        if coll:
            ch = [{**e, 'k': 's'} if e['k'] == 'f' else e for e in ch if e['k'] != 'w']
            if rng.random() < .6:
                ch.append({'k': 'req'})
            elif not ch or ch[-1]['k'] == 'req':
                ch.append({'k': 'o', 'id': str(next(ids))})
        for e in ch:                       # ids unique over the fields
            for q in [e, *e.get('ch', [])]:
                if 'id' in q:
                    q['id'] = n + q['id']
        schema.append({'n': n, 'coll': coll, 'ch': ch})
    w = World(schema)
    steps = []

    def inp():
        return [[f['n'], rand_val(rng, f['coll'])] for f in schema if rng.random() < .75]
    for _ in range(length):
        k = 'new' if w.o is None else rng.choice(['new', 'set', 'set', 'set', 'assign', 'mark', 'validate', 'validate', 'save', 'save', 'save', 'json'])
        f = rng.choice(schema)
        op = {'name': k}
        if k in ('new', 'set'):
            op['in'] = inp()
        elif k == 'assign':
            op.update(f=f['n'], v=rand_val(rng, f['coll']))
        elif k == 'validate':
            op['all'] = rng.random() < .5
        elif k == 'save':
            op.update(all=rng.random() < .3, skip=rng.random() < .5)
        steps.append(w.step(op))
    return {'seed': seed, 'schema': schema, 'steps': steps}


def decide(chk, count: int, length: int) -> None:
    traces = pmap(record, [(f'{chk.seed}:chain:{i}', length) for i in range(count)])
    part = 4000
    for a in range(0, len(traces), part):
        batch = traces[a:a + part]
        res = tlc.run('Trace_Chain', cfg='SPECIFICATION Spec\n', data={'traces.json': batch})
        chk.model(res, f'Trace_Chain/{a // part}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            st = t['steps'][e['k'] - 1]
            chk.violation({'kind': 'trace', 'faults': e['faults'], 'seed': t['seed'], 'schema': t['schema'],
                           'history': [s['op'] for s in t['steps'][:e['k']]], 'expected': e['expected'], 'got': st},
                          f"{st['op']['name']}:{'+'.join(sorted(e['faults']))}")
    chk.sample(traces[0]['steps'][:2])


def run(prop: str, chk) -> None:
    explore(chk, KINDS, 2, 4)
    if chk.thorough:
        explore(chk, KINDS, 3, 3)
        explore(chk, ['t', 'vx', 'vd', 's', 'o'], 4, 3)
    else:
        explore(chk, ['t', 'vx', 'vd', 's', 'o'], 3, 3)
    decide(chk, chk.pick(2000, 40000), 14)
