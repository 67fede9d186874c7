"""Enum fields (JEnum: C19)."""
from __future__ import annotations
import itertools, random
from enum import Enum, IntEnum
from typing import Any
from lib import tlc
from lib.conform import Hang, pmap, time_limit
from jsonclasses import jsonclass, jsonenum, types
from jsonclasses.excs import ValidationException

_count = itertools.count()
IN = ['inputname', 'inputlname', 'inputvalue', 'inputall']
OUT = ['outputname', 'outputlname', 'outputvalue']


def S(s: str) -> list:
    return ['str', list(map(ord, s))]


class Foreign(Enum):
    RED = 1
    X = 'x'


ENUMS = [dict(kind='Enum', m=[('RED', 1), ('GREEN', 2), ('BLUE', 3)]),
         dict(kind='Enum', m=[('Red', 'red'), ('RED', 'R'), ('green', 'GREEN'), ('G2', 'GREEN'), ('GREEN', 'x')]),
         dict(kind='Enum', m=[('A', 'B'), ('B', 'A'), ('c', 'C')]),
         dict(kind='IntEnum', m=[('ONE', 1), ('TWO', 2), ('UNO', 1)]),
         dict(kind='str', m=[('X', 'x'), ('Y', 'X'), ('z', 'Y')]),
         dict(kind='Enum', m=[('ZERO', 0), ('EMPTY', ''), ('Été', 'É')])]


def build(d: dict) -> type:
    return {'Enum': lambda: Enum('Kind', d['m']), 'IntEnum': lambda: IntEnum('Kind', d['m']), 'str': lambda: Enum('Kind', d['m'], type=str)}[d['kind']]()


def entries(d: dict) -> list:
    return [{'n': list(map(ord, n)), 'v': enc(v)} for n, v in d['m']]


def enc(v: Any, E: Any = None) -> list:
    if E is not None and isinstance(v, E):
        return ['m', 1 + list(E.__members__).index(v.name)]
    if v is None:
        return ['none']
    if type(v) is bool:
        return ['bool', v]
    if type(v) is int:
        return ['int', v]
    if type(v) is str:
        return S(v)
    if isinstance(v, list):
        return ['list', []]
    return ['other', type(v).__name__, str(v)[:40]] if not isinstance(v, Foreign) else ['foreign']


def dec(v: list, E: Any) -> Any:
    k = v[0]
    return {'none': lambda: None, 'bool': lambda: v[1], 'int': lambda: v[1], 'str': lambda: ''.join(map(chr, v[1])), 'list': lambda: [],
            'foreign': lambda: Foreign.RED, 'm': lambda: list(E.__members__.values())[v[1] - 1]}[k]()


def inputs(d: dict, E: Any) -> list:
    out = [['none'], ['list', []], ['foreign'], ['bool', True], ['bool', False], ['int', 7], S('no such')]
    for n, v in d['m']:
        out += [S(n), S(n.lower()), S(n.upper()), S(n.swapcase()), S(n + ' '), enc(v), S(str(v))]
        if isinstance(v, str):
            out += [S(v.lower()), S(v.upper())]
    out += [enc(m, E) for m in E]
    res = []
    for v in out:
        if v not in res:
            res.append(v)
    return res


class World:
    def __init__(self, d: dict, marks: list, where: str, ref: str) -> None:
        self.E, self.where = build(d), where
        g = f'enum{next(_count)}'
        target: Any = self.E
        if ref == 'name':
            jsonenum(class_graph=g)(self.E)
            target = 'Kind'
        t = types
        for m in marks:
            t = t.enum(target) if m == 'enum' else getattr(t, m)
        fields: dict = {'x': {'field': lambda: t, 'list': lambda: types.listof(t.nullable), 'dict': lambda: types.dictof(t.nullable), 'deep': lambda: types.dictof(types.listof(t.nullable))}[where]()}
        self.cls = jsonclass(class_graph=g)(type('Holder', (), {'__annotations__': {n: object for n in fields}, **fields}))
        self.obj: Any = None

    def wrap(self, v: Any) -> Any:
        return {'field': lambda: v, 'list': lambda: [v], 'dict': lambda: {'k': v}, 'deep': lambda: {'k': [v]}}[self.where]()

    def inner(self, x: Any) -> Any:
        return {'field': lambda: x, 'list': lambda: x[0], 'dict': lambda: x['k'], 'deep': lambda: x['k'][0]}[self.where]()

    def guard(self, f) -> list:
        try:
            with time_limit(5):
                return f()
        except ValidationException as e:
            want = {'field': 'x', 'list': 'x.0', 'dict': 'x.k', 'deep': 'x.k.0'}[self.where]
            return ['err'] if list(e.keypath_messages) == [want] else ['err', *map(str, e.keypath_messages)]
        except Hang:
            return ['exc', 'Hang']
        except Exception as e:
            return ['exc', type(e).__name__, str(e)[:100]]

    def input(self, val: Any, how: str = 'new') -> list:
        def f():
            if how == 'new' or self.obj is None:
                self.obj = self.cls(x=self.wrap(val))
            else:
                self.obj.x = None
                self.obj.set(x=self.wrap(val))
            return enc(self.inner(self.obj.x), self.E)
        return self.guard(f)

    def assign(self, val: Any) -> list:
        def f():
            if self.obj is None:
                self.obj = self.cls()
            self.obj.x = None
            self.obj.x = self.wrap(val)
            return enc(self.inner(self.obj.x), self.E)
        return self.guard(f)

    def validate(self) -> list:
        def f():
            self.obj.validate()
            return ['ok']
        return self.guard(f)

    def json(self) -> list:
        return self.guard(lambda: enc(self.inner(self.obj.tojson().get('x'))))


def mark_lists(n: int) -> list:
    out = []
    for k in range(n + 1):
        for extra in itertools.product(IN + OUT, repeat=k):
            for pos in range(k + 1):
                ms = [*extra[:pos], 'enum', *extra[pos:]]
                if ms not in out:
                    out.append(ms)
    return out


_CASES: dict = {}


def replay(i: int) -> list:
    marks, d, exps, where, ref = _CASES[i]
    w = World(d, marks, where, ref)
    bad, n = [], 0

    def judge(v, step, exp, got):
        nonlocal n
        n += 1
        if exp != got:
            bad.append({'kind': 'replay', 'marks': marks, 'enum': d, 'where': where, 'ref': ref, 'value': v, 'step': step, 'expected': exp, 'got': got})
        return exp == got
    for e in exps:
        v = e['v']
        for way, put in (('in', w.input), ('set', w.assign)):
            w.obj = None
            if not judge(v, way, e[way], put(dec(v, w.E))) or way + '!' not in e:
                continue
            if not judge(v, way + ' validate', ['ok'] if e[way + '!'] else ['err'], w.validate()):
                continue
            if way == 'in':
                if judge(v, 'json', e['out'][0], w.json()):
                    judge(v, 'reread', e['out'][1], w.input(dec(e['out'][0], w.E)))
    return [n, bad]


def explore(chk) -> None:
    marks = mark_lists(2)
    if not chk.thorough:
        full = [m for m in mark_lists(1)]
        marks = full + chk.rng.sample([m for m in marks if m not in full], 60)
    es = [{'entries': entries(d), 'vals': inputs(d, build(d))} for d in ENUMS]
    res = tlc.run('MC_Enum', cfg='SPECIFICATION Spec\nINVARIANT Reads\nINVARIANT Keeps\nINVARIANT Valid\nINVARIANT RoundTrip\nINVARIANT Marks\nACTION_CONSTRAINT Emit\nCONSTANT Emitting = TRUE\n',
                  data={'model.json': {'marks': marks, 'enums': es}}, heap='10g')
    chk.model(res, 'MC_Enum')
    table: dict = {}
    for e in res.emitted:
        r = table.setdefault((e['c'] - 1, e['e'] - 1), {}).setdefault(repr(e['v']), {'v': e['v']})
        s = e['s']
        r[s] = e['x'] if s in ('in', 'set') else (e['js'], e['back']) if s == 'out' else e['ok']
    _CASES.clear()
    for k, ((c, e), rs) in enumerate(sorted(table.items())):
        _CASES[k] = (marks[c], ENUMS[e], list(rs.values()), ['field', 'list', 'dict', 'deep'][(c + e) % 4], ['class', 'name'][(c // 2 + e) % 2])
    done = pmap(replay, sorted(_CASES), chunk=4)
    chk.traced(sum(d[0] for d in done), 'replayed')
    for d in done:
        for b in d[1]:
            chk.violation(b, f"{b['marks']}:{b['step']}:{b['where']}")


# ---------------------------------------------------------------- code -> spec
def rand_enum(rng: random.Random) -> dict:
    kind = rng.choice(['Enum', 'Enum', 'IntEnum', 'str'])
    names: list = []
    while len(names) < rng.randint(1, 6):
        n = ''.join(rng.choice('aAbBcC') for _ in range(rng.randint(1, 3)))
        if n not in names:
            names.append(n)
    val = {'Enum': lambda: rng.choice([rng.randint(0, 4), ''.join(rng.choice('aAbB') for _ in range(rng.randint(0, 2)))]),
           'IntEnum': lambda: rng.randint(0, 5), 'str': lambda: ''.join(rng.choice('aAbB') for _ in range(rng.randint(0, 2)))}[kind]
    return {'kind': kind, 'm': [(n, val()) for n in names]}


def record(seed: str) -> dict:
    rng = random.Random(seed)
    d = rand_enum(rng)
    marks = [rng.choice(IN + OUT) for _ in range(rng.randint(0, 3))]
    marks.insert(rng.randint(0, len(marks)), 'enum')
    w = World(d, marks, rng.choice(['field', 'list', 'dict', 'deep']), rng.choice(['class', 'name']))
    pool = inputs(d, w.E)
    steps: list = []
    last = None
    for _ in range(12):
        v = rng.choice(pool) if rng.random() < .8 else S(''.join(rng.choice('aAbBcC') for _ in range(rng.randint(0, 3))))
        if last is not None and rng.random() < .3:
            v = last
        op = 'input' if rng.random() < .7 else 'assign'
        out = w.input(dec(v, w.E), rng.choice(['new', 'set'])) if op == 'input' else w.assign(dec(v, w.E))
        steps.append({'op': op, 'v': v, 'out': out})
        if out == ['err']:
            continue
        if out[0] in ('err', 'exc', 'other'):
            break
        ok = w.validate()
        steps.append({'op': 'validate', 'out': ok})
        if ok == ['ok']:
            last = w.json()
            steps.append({'op': 'json', 'out': last})
            if last[0] not in ('none', 'int', 'str'):
                break
    return {'seed': seed, 'enum': d, 'entries': entries(d), 'marks': marks, 'where': w.where, 'steps': steps}


def decide(chk, count: int) -> None:
    traces = pmap(record, [f'{chk.seed}:C19:{i}' for i in range(count)])
    for a in range(0, len(traces), 8000):
        batch = traces[a:a + 8000]
        res = tlc.run('Trace_Enum', cfg='SPECIFICATION Spec\n', data={'traces.json': batch})
        chk.model(res, f'Trace_Enum/{a // 8000}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            chk.violation({'kind': 'trace', 'seed': t['seed'], 'enum': t['enum'], 'marks': t['marks'], 'where': t['where'],
                           'steps': t['steps'][:e['k']], 'expected': e['expected']}, f"{t['marks']}:{t['steps'][e['k'] - 1]['op']}:{t['where']}")
    chk.sample(traces[0])


def run(prop: str, chk) -> None:
    explore(chk)
    decide(chk, chk.pick(3000, 60000))
