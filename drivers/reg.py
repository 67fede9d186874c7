"""Class graphs, names, references by name, inherited fields, options (JReg: C15)."""
from __future__ import annotations
import itertools, random, sys
from enum import Enum
from types import ModuleType
from typing import Any, List, Optional, Union
from lib import tlc
from lib.conform import Graph, Hang, pmap, time_limit
from jsonclasses import jsonclass, jsonenum, types
from jsonclasses.cgraph import CGraph
from jsonclasses.keypath import camelize_key, identical_key, underscore_key
from jsonclasses.excs import AbstractJSONClassException, ValidationException, JSONClassResetNotEnabledError

sys.modules['elsewhere'] = ModuleType('elsewhere')
_count = itertools.count()
OPTIONS = ('strict', 'camel', 'nulls', 'all', 'abstract', 'reset')


class World:
    """The real registry: every world has its own graphs; `default` is the graph
    used when none is given (there the names are made unique instead)."""

    def __init__(self, rng: random.Random) -> None:
        self.no = next(_count)
        self.rng = rng
        self.defs: list[Any] = []        # accepted definitions

    def graph(self, g: str) -> str:
        return 'default' if g == 'default' else f'reg{self.no}_{g}'

    def name(self, g: str, n: str) -> str:
        return f'R{self.no}{n}'

    def where(self, g: str, fn: Any, **kw: Any) -> Any:
        if g == 'default':
            return fn(**kw) if self.rng.random() < .7 else fn(class_graph=self.rng.choice([None, 'default']), **kw)
        return fn(class_graph=self.graph(g), **kw)

    def field(self, g: str, r: dict) -> tuple:
        n, how, rng = self.name(g, r['n']), r['how'], self.rng
        if how == 'objof':
            return object, rng.choice([types.objof(n), types.objof(n).required])
        if how == 'listof':
            return object, rng.choice([types.listof(n), types.listof(types.objof(n))])
        if how == 'enumof':
            return object, types.enum(n)
        if how == 'text':
            return n, None
        if how == 'opt':
            return rng.choice([f'{n} | None', f'Optional[{n}]', Optional[n], f'None | {n}', f'Union[{n}, None]']), None
        if how == 'list':
            return rng.choice([f'list[{n}]', list[n], List[n], f'List[{n}]', f'list[Optional[{n}]]']), None
        if how == 'dict':
            return rng.choice([f'dict[str, {n}]', dict[str, n]]), None
        return rng.choice([f'{n} | int', Union[n, int], f'Union[{n}, int]', f'{n}|int']), None   # union

    def guard(self, f: Any) -> list:
        try:
            with time_limit(5):
                return f()
        except AbstractJSONClassException:
            return ['abstract']
        except Hang:
            return ['exc', 'Hang']
        except Exception as e:
            if 'RedefinitionException' in type(e).__name__:
                return ['redefined']
            return ['no', type(e).__name__, str(e)[:150]]

    def options(self, opts: dict) -> dict:
        kw: dict = {}
        rng = self.rng
        for q, b in opts.items():
            if q == 'camel':
                kw.update(rng.choice([{'output_key_strategy': camelize_key}, {'output_key_strategy': 'camelize'}, {'camelize_json_keys': True}] if b else
                                     [{'camelize_json_keys': False}, {'output_key_strategy': 'identical'}, {'output_key_strategy': identical_key},
                                      {'output_key_strategy': 'identical', 'input_key_strategy': 'identical'}]))
            else:
                kw[{'strict': 'strict_input', 'nulls': 'output_null', 'all': 'validate_all_fields', 'abstract': 'abstract', 'reset': 'reset_all_fields'}[q]] = b
        return kw

    def do(self, o: dict) -> list:
        return self.guard(lambda: getattr(self, 'do_' + o['op'])(o))

    def do_class(self, o: dict) -> list:
        # looking for the source of a class is slow
        ns: dict = {'__annotations__': {}, '__module__': __name__ if self.rng.random() < .03 else 'elsewhere'}
        if not o['parent']:
            ns.update(my_field=types.int, other_field=types.int)
            ns['__annotations__'].update(my_field=object, other_field=object)
        for r in o['refs']:
            ann, default = self.field(o['g'], r)
            ns['__annotations__'][r['f']] = ann
            ns[r['f']] = default
            if default is None:
                del ns[r['f']]
        bases = (self.defs[o['parent'] - 1],) if o['parent'] else ()
        cls = type(self.name(o['g'], o['n']), bases, ns)
        kw = self.options(o['opts'])
        made = jsonclass(cls) if o['g'] == 'default' and not kw and self.rng.random() < .5 else self.where(o['g'], jsonclass, **kw)(cls)
        self.defs.append(made)
        return ['ok']

    def do_enum(self, o: dict) -> list:
        cls = Enum(self.name(o['g'], o['n']), [('M', 1), ('N', 2)], module=__name__ if self.rng.random() < .03 else 'elsewhere')
        made = jsonenum(cls) if o['g'] == 'default' and self.rng.random() < .5 else self.where(o['g'], jsonenum)(cls)
        self.defs.append(made)
        return ['ok']

    def of(self, cls: Any) -> list:
        for i, d in enumerate(self.defs):
            if d is cls:
                return ['of', i + 1]
        return ['no', 'stranger', repr(cls)]

    def do_find(self, o: dict) -> list:
        g, n = CGraph(self.graph(o['g'])), self.name(o['g'], o['n'])
        has = g.has(n) if o['kind'] == 'class' else g.has_enum(n)
        if not has:
            try:
                g.fetch(n) if o['kind'] == 'class' else g.fetch_enum(n)
            except Exception as e:
                return ['no'] if 'NotFound' in type(e).__name__ else ['exc', type(e).__name__]
            return ['exc', 'found']
        return self.of(g.fetch(n).cls if o['kind'] == 'class' else g.fetch_enum(n))

    def do_make(self, o: dict) -> list:
        v: Any = {} if o['give'] == 'obj' else 'M'
        how = o['how']
        cls = self.defs[o['i'] - 1]
        try:
            cls()
        except AbstractJSONClassException:
            return ['abstract']
        try:
            obj = cls(**{o['f']: [v] if how in ('list', 'listof') else {'k': v} if how == 'dict' else v})
        except AbstractJSONClassException:
            return ['no', 'abstract']
        got = getattr(obj, o['f'])
        got = got[0] if how in ('list', 'listof') else got['k'] if how == 'dict' else got
        return self.of(type(got)) if isinstance(got, Enum) or hasattr(type(got), '__is_jsonclass__') else ['no', 'raw']

    def do_fields(self, o: dict) -> list:
        return ['fields', sorted(f.name for f in self.defs[o['i'] - 1].cdef.fields if f.name not in ('my_field', 'other_field'))]

    def do_opts(self, o: dict) -> list:
        cls, q = self.defs[o['i'] - 1], o['ask']
        if q == 'abstract':
            try:
                cls()
            except AbstractJSONClassException:
                return ['is', True]
            return ['is', False]
        if q == 'strict':
            cls()
            try:
                cls(**{'zz': 1})
            except ValidationException:
                return ['is', True]
            return ['is', False]
        if q == 'camel':
            js = cls(my_field=1).tojson()
            return ['is', 'myField' in js] if ('myField' in js) != ('my_field' in js) else ['no', str(js)]
        if q == 'nulls':
            return ['is', any(v is None for v in cls(my_field=1).tojson().values())]
        obj = cls()
        if q == 'all':
            obj.my_field, obj.other_field = 'x', 'y'
            try:
                obj.validate()
            except ValidationException as e:
                return ['is', len(e.keypath_messages) > 1]
            return ['no', 'valid']
        obj.my_field = 1
        obj._mark_not_new()
        obj.my_field = 2
        try:
            obj.reset()
        except JSONClassResetNotEnabledError:
            return ['is', False]
        return ['is', obj.my_field == 1]


def same(exp: list, got: list) -> bool:
    if exp == ['any']:
        return True
    if exp[0] == 'fields':
        return got[0] == 'fields' and sorted(exp[1]) == sorted(got[1])
    return exp == got or exp == ['no'] == got[:1]


# ---------------------------------------------------------------- spec -> code
def hows(W: list, i: int) -> dict:
    d = W[i - 1]
    return {**(hows(W, d['parent']) if d['parent'] else {}), **{r['f']: r['how'] for r in d['refs']}}


def walk(path: list) -> Any:
    w = World(random.Random(str(len(path)) + str(path[-1]['o'])))
    for k, tr in enumerate(path):
        o = dict(tr['o'])
        if o['op'] == 'make':
            o['how'] = hows(tr['s'], o['i'])[o['f']]
        got = w.do(o)
        if not same(tr['r'], got):
            return {'kind': 'replay', 'history': [p['o'] for p in path[:k + 1]], 'expected': tr['r'], 'got': got}
    return None


def d_(kind: str, g: str, n: str, refs: list = [], parent: int = 0, **opts: bool) -> dict:
    return {'op': kind, 'g': g, 'n': n, 'parent': parent, 'refs': [{'f': f, 'how': h, 'n': t} for f, h, t in refs], 'opts': opts}


def models() -> list:
    m1 = [d_('class', g, 'A', [('r', h, 'B')]) for g in ('g1', 'g2') for h in ('text', 'list', 'objof')]
    m1 += [d_('class', g, 'B', rs) for g in ('g1', 'g2') for rs in ([], [('r', 'opt', 'A')], [('r', 'union', 'K')])]
    m1 += [d_('enum', g, 'K') for g in ('g1', 'g2')]
    m2 = [d_('class', 'g1', 'A', [('r', 'text', 'K')]), d_('class', 'g1', 'A', [('r', 'dict', 'B')], strict=False), d_('class', 'g2', 'A', [('r', 'listof', 'A')], nulls=True),
          d_('class', 'g1', 'B', [], 1), d_('class', 'g1', 'B', [('s', 'enumof', 'K')], 1, camel=False), d_('class', 'g2', 'B', [('r', 'objof', 'B')], 1, all=True), d_('class', 'g1', 'B', [], 0, abstract=True),
          d_('class', 'g1', 'C', [], 2, reset=True), d_('class', 'g2', 'C', [('r', 'listof', 'B')], 2, strict=True, nulls=False), d_('class', 'g1', 'C', [('r', 'objof', 'B')], all=False, reset=False),
          d_('enum', 'g1', 'K'), d_('enum', 'g2', 'K')]
    m3 = [d_('class', 'default', 'A', [('r', 'text', 'B')]), d_('class', 'default', 'B', [('r', 'list', 'A'), ('s', 'text', 'K')], camel=True), d_('enum', 'default', 'K'), d_('class', 'g1', 'A', [('r', 'union', 'B')]),
          d_('class', 'g1', 'B', [], abstract=True), d_('class', 'g1', 'B', [], abstract=False), d_('enum', 'g1', 'K'), d_('class', 'default', 'A', [('r', 'dict', 'K')], strict=False)]
    return [dict(name='names', defs=m1, depth=(2, 3)), dict(name='options', defs=m2, depth=(3, 4)), dict(name='default', defs=m3, depth=(3, 4))]


def explore(chk, m: dict) -> None:
    depth = chk.pick(*m['depth'])
    res = tlc.run('MC_Reg', cfg='SPECIFICATION Spec\nINVARIANT Promised\nVIEW View\nACTION_CONSTRAINT Emit\n'
                  f'CONSTANTS Depth = {depth} Emitting = TRUE\n', data={'model.json': m}, heap='10g')
    chk.model(res, f"MC_Reg/{m['name']}/depth{depth}")
    g = Graph(res.emitted)
    walks = [p for _, p in g.walks(lambda s: s == [], 40)]
    bad = [b for b in pmap(walk, walks) if b]
    chk.traced(g.edges, f"replayed-transitions/{m['name']}")
    for b in bad[:200]:
        chk.violation(b, f"{b['history'][-1]['op']}:{b['expected']}:{b['got'][:2]}")


# ---------------------------------------------------------------- code -> spec
HOWS = ['text', 'opt', 'list', 'dict', 'union', 'objof', 'listof', 'enumof']


def record(seed: str) -> dict:
    rng = random.Random(seed)
    w = World(rng)
    graphs = rng.sample(['g1', 'g2', 'g3', 'default'], rng.randint(1, 3))
    names, enums = list('ABCDE')[:rng.randint(2, 5)], ['K', 'L'][:rng.randint(0, 2)]
    defs: list = []
    steps: list = []

    def do(o: dict) -> list:
        got = w.do(o)
        steps.append({'op': o, 'out': got[:1] if got[0] == 'no' else got, 'detail': got})
        return got
    for _ in range(rng.randint(8, 26)):
        cs = [i for i, d in enumerate(defs, 1) if d['op'] == 'class']
        x = rng.random()
        g = rng.choice(graphs)
        if x < .4 or not cs:
            if enums and rng.random() < .25:
                o = d_('enum', g, rng.choice(enums))
            else:
                refs = []
                parent = rng.choice(cs) if cs and rng.random() < .3 else 0
                # Python: a default given by a parent class stays unless replaced by a default
                fixed = {f for f, h in hows(defs, parent).items() if h in HOWS[5:]} if parent else set()
                for f in rng.sample(['r', 's', 'q'], rng.choice([0, 1, 1, 2, 2, 3])):
                    h = rng.choice(HOWS[5:] if f in fixed else HOWS)
                    t = rng.choice(enums) if enums and (h == 'enumof' or h not in ('objof', 'listof') and rng.random() < .3) else rng.choice(names)
                    refs.append((f, h, t))
                o = d_('class', g, rng.choice(names), refs, parent,
                       **{q: rng.random() < .5 for q in OPTIONS if rng.random() < (.08 if q == 'abstract' else .25)})
            if do(o) == ['ok']:
                defs.append(o)
        elif x < .5:
            k = rng.choice(['class', 'enum']) if enums else 'class'
            do({'op': 'find', 'g': g, 'n': rng.choice(names if k == 'class' else enums), 'kind': k})
        elif x < .6:
            do({'op': 'fields', 'i': rng.choice(cs)})
        elif x < .75:
            do({'op': 'opts', 'i': rng.choice(cs), 'ask': rng.choice(OPTIONS)})
        else:
            i = rng.choice(cs)
            hs = hows(defs, i)
            if hs:
                f = rng.choice(sorted(hs))
                do({'op': 'make', 'i': i, 'f': f, 'how': hs[f], 'give': rng.choice(['obj', 'obj', 'member'])})
    return {'seed': seed, 'steps': steps}


def decide(chk, count: int) -> None:
    traces = pmap(record, [f'{chk.seed}:C15:{i}' for i in range(count)])
    for a in range(0, len(traces), 5000):
        batch = traces[a:a + 5000]
        res = tlc.run('Trace_Reg', cfg='SPECIFICATION Spec\n', data={'traces.json': batch})
        chk.model(res, f'Trace_Reg/{a // 5000}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            last = t['steps'][e['k'] - 1]
            chk.violation({'kind': 'trace', 'seed': t['seed'], 'steps': t['steps'][:e['k']], 'expected': e['expected']}, f"{last['op']['op']}:{e['expected']}:{last['detail'][:2]}")
    chk.sample(traces[0])


def run(prop: str, chk) -> None:
    for m in models():
        explore(chk, m)
    decide(chk, chk.pick(3000, 40000))
