"""Type annotations in every spelling (JTypes: C20)."""
from __future__ import annotations
import itertools, random, typing
from datetime import date, datetime, timezone
from enum import Enum
from typing import Any, Dict, List, Optional, Union
from lib import tlc
from lib.conform import Hang, pmap, time_limit
from jsonclasses import jsonclass, jsonenum, types
from jsonclasses.excs import ValidationException

_count = itertools.count()
STYLES = [dict(union=u, opt=o, list=li, dict=di) for u, o, li, di in
          (('|', '|None', 'list', 'dict'), ('|', 'None|', 'List', 'dict'), ('|', 'Optional', 'list', 'Dict'), ('|', 'Union', 'list', 'dict'),
           ('Union', 'Optional', 'List', 'Dict'), ('Union', '|None', 'list', 'dict'), ('Union', 'Union', 'list', 'dict'), ('Union', 'None|', 'list', 'Dict'))]
PY = {'int': int, 'str': str, 'float': float, 'bool': bool, 'date': date, 'datetime': datetime, 'Any': Any}
UNKNOWN = {'Nothing': complex, 'bytes': bytes, 'set': set, 'object': object}
D, DT = date(2020, 1, 2), datetime(2020, 1, 2, tzinfo=timezone.utc)


class Place:
    """One class graph with a class, an enum and one class per spelling."""

    def __init__(self) -> None:
        self.graph = f'anns{next(_count)}'
        self.kind = jsonenum(class_graph=self.graph)(Enum('Kind', [('A', 1), ('B', 2)]))
        self.leaf = jsonclass(class_graph=self.graph)(type('Leaf', (), {'__annotations__': {'n': object}, 'n': types.int}))
        self.n = 0

    def holder(self, ann: Any, default: Any = None) -> type:
        self.n += 1
        ns: dict = {'__annotations__': {'x': ann}}
        if default is not None:
            ns['x'] = default
        return jsonclass(class_graph=self.graph)(type(f'Holder{self.n}', (), ns))

    def dec(self, v: list) -> Any:
        k = v[0]
        return {'none': lambda: None, 'int': lambda: v[1], 'flt': lambda: float(v[1]), 'bool': lambda: v[1], 'str': lambda: v[1],
                'date': lambda: D, 'dt': lambda: DT, 'list': lambda: [self.dec(x) for x in v[1]], 'dict': lambda: {a: self.dec(b) for a, b in v[1]},
                'm': lambda: self.kind[v[1]], 'obj': lambda: self.leaf(n=self.dec(v[1]))}[k]()

    def enc(self, v: Any) -> list:
        if v is None:
            return ['none']
        for t, k in ((bool, 'bool'), (int, 'int'), (str, 'str')):
            if type(v) is t:
                return [k, v]
        if type(v) is float and v == int(v):
            return ['flt', int(v)]
        if type(v) is date:
            return ['date'] if v == D else ['other', str(v)]
        if type(v) is datetime:
            return ['dt'] if v == DT else ['other', str(v)]
        if isinstance(v, self.kind):
            return ['m', v.name]
        if isinstance(v, self.leaf):
            return ['obj', self.enc(v.n)]
        if isinstance(v, list):
            return ['list', [self.enc(x) for x in v]]
        if isinstance(v, dict):
            return ['dict', [[a, self.enc(b)] for a, b in v.items()]]
        return ['other', type(v).__name__]

    # ------------------------------------------------ evaluated annotations
    def evaluated(self, T: list, st: dict, rng: random.Random, texts: dict) -> Any:
        k = T[0]
        for clear in typing._cleanups:      # Union[a, b] == Union[b, a]: its cache mixes up orders
            clear()
        if k == 't':
            n = T[1]
            if n in PY:
                return PY[n]
            if n in ('Leaf', 'Kind'):
                return {'class': {'Leaf': self.leaf, 'Kind': self.kind}[n], 'name': n}[st['names']]
            return UNKNOWN[n]
        if k in ('l', 'd'):
            inner = spell(T[1], rng) if st['inner'] == 'text' else self.evaluated(T[1], st, rng, texts)
            if k == 'l':
                return (list if st['list'] == 'list' else List)[inner]
            return dict[str, inner] if st['dict'] == 'dict' else Dict[str, inner]
        if k == 'o':
            inner = self.evaluated(T[1], st, rng, texts)
            if st['union'] == '|' and not isinstance(inner, str) and inner is not Any:
                return inner | None if rng.random() < .5 else None | inner
            return Optional[inner]
        parts = [self.evaluated(t, st, rng, texts) for t in T[1]]
        if st['union'] == '|' and not any(isinstance(p, str) or p is Any for p in parts):
            out = parts[0]
            for p in parts[1:]:
                out = out | p
            return out
        return Union[tuple(parts)]

    # ------------------------------------------------ explicit descriptions
    def explicit(self, T: list, item: bool = False, member: bool = False) -> Any:
        opt, alts = mean(T)
        t = self.alt(alts[0], types.nullable if item and opt else types) if len(alts) == 1 else (types.nullable if item and opt else types).union([self.alt(a, types) for a in alts])
        return t if opt else t.required

    def alt(self, A: list, t: Any) -> Any:
        if A[0] == 'l':
            return t.listof(self.explicit(A[1], True))
        if A[0] == 'd':
            return t.dictof(self.explicit(A[1], True))
        if A[1] == 'Leaf':
            return t.objof(self.leaf)
        if A[1] == 'Kind':
            return t.enum(self.kind)
        return t.any if A[1] == 'Any' else getattr(t, A[1])


def mean(T: list) -> tuple:
    if T[0] == 'o':
        return True, mean(T[1])[1]
    if T[0] == 'u':
        ms = [mean(t) for t in T[1]]
        alts: list = []
        for m in ms:
            alts += [a for a in m[1] if a not in alts]
        return any(m[0] for m in ms), alts
    return False, [T]


def spell(T: list, rng: random.Random) -> str:
    st = rng.choice(STYLES)
    k = T[0]
    if k == 't':
        return T[1]
    if k == 'l':
        return f"{st['list']}[{spell(T[1], rng)}]"
    if k == 'd':
        return f"{st['dict']}[str, {spell(T[1], rng)}]"
    if k == 'o':
        s = spell(T[1], rng)
        return {'Optional': f'Optional[{s}]', '|None': f'{s} | None', 'None|': f'None | {s}', 'Union': f'Union[{s}, None]'}[st['opt']]
    ss = [spell(t, rng) for t in T[1]]
    return ' | '.join(ss) if st['union'] == '|' else f"Union[{', '.join(ss)}]"


def joined(tokens: list, tight: bool) -> str:
    out = ''
    for t in tokens:
        out += {',': ',' if tight else ', ', '|': '|' if tight else ' | '}.get(t, t)
    return out


# ---------------------------------------------------------------- types and values
LEAVES = [['t', n] for n in ('int', 'str', 'float', 'bool', 'date', 'datetime', 'Any', 'Leaf', 'Kind')]
FEW = [['t', n] for n in ('int', 'str', 'date', 'Leaf', 'Kind')]


def depth1(base: list) -> list:
    return [[k, t] for k in 'ldo' for t in base] + [['u', [a, b]] for a in base for b in base if a != b]


def unknown(T: list) -> bool:
    return T[1] in UNKNOWN if T[0] == 't' else any(map(unknown, T[1])) if T[0] == 'u' else unknown(T[1])


def degenerate(T: list) -> bool:
    """A union of one type with itself."""
    if T[0] == 'u':
        return len(mean(T)[1]) < 2 or any(map(degenerate, T[1]))
    return T[0] != 't' and degenerate(T[1])


def rand_type(rng: random.Random, depth: int) -> list:
    if depth == 0 or rng.random() < .15:
        return rng.choice(LEAVES)
    k = rng.choice('lldduo')
    if k == 'u':
        return ['u', [rand_type(rng, depth - 1) for _ in range(rng.randint(2, 3))]]
    return [k, rand_type(rng, depth - 1)]


def catalogue(rng: random.Random, thorough: bool) -> list:
    one = depth1(FEW)
    two = [[k, t] for k in 'ldo' for t in one] + [['u', p] for a in FEW for b in one for p in ([a, b], [b, a])]
    out = LEAVES + depth1(LEAVES)
    out += two if thorough else rng.sample(two, 160)
    out += [rand_type(rng, rng.choice([2, 3, 3, 4])) for _ in range(1500 if thorough else 150)]
    bad = [['t', n] for n in UNKNOWN]
    out += bad + [[k, b] for b in bad for k in 'ldo'] + [['u', p] for b in bad for p in ([b, ['t', 'int']], [['t', 'int'], b], [['l', b], ['t', 'str']])] + [['l', ['d', bad[0]]], ['d', ['o', bad[1]]]]
    res: list = []
    for t in out:
        if t not in res and not degenerate(t):
            res.append(t)
    return res


POOL = [['none'], ['int', 5], ['flt', 2], ['bool', True], ['str', 'A'], ['str', 'zz'], ['str', '2020-01-02'], ['date'], ['dt'], ['m', 'B'], ['obj', ['int', 3]],
        ['list', []], ['list', [['none']]], ['dict', []], ['dict', [['n', ['int', 4]]]], ['dict', [['n', ['str', 'q']]]], ['dict', [['n', ['none']]]], ['list', [['int', 1], ['str', 'A']]]]


def aimed(T: list, rng: random.Random, depth: int = 0) -> list:
    """Mostly a value of the type."""
    if rng.random() < .12:
        return rng.choice(POOL)
    k = T[0]
    if k == 'l':
        return ['list', [aimed(T[1], rng) for _ in range(rng.randint(0, 2))]]
    if k == 'd':
        return ['dict', [[c, aimed(T[1], rng)] for c in 'ab'[:rng.randint(0, 2)]]]
    if k == 'o':
        return ['none'] if rng.random() < .3 else aimed(T[1], rng)
    if k == 'u':
        return aimed(rng.choice(T[1]), rng)
    return rng.choice({'int': [['int', 7]], 'str': [['str', 'zz'], ['str', 'A']], 'float': [['flt', 3], ['int', 3]], 'bool': [['bool', False]], 'date': [['str', '2020-01-02'], ['date'], ['dt']],
                       'datetime': [['str', '2020-01-02'], ['date'], ['dt']], 'Any': POOL[1:9], 'Leaf': [['obj', ['int', 3]], ['dict', [['n', ['int', 4]]]], ['dict', []]], 'Kind': [['m', 'A'], ['str', 'B']]}.get(T[1], POOL[1:5]))


def vals(T: list, rng: random.Random) -> list:
    res: list = []
    for v in [*rng.sample(POOL, 7), ['none'], *(aimed(T, rng) for _ in range(10)), ['list', [['int', 1]]], ['dict', [['a', ['int', 1]]]]]:
        if v not in res:
            res.append(v)
    return res


# ---------------------------------------------------------------- spec -> code
_CASES: dict = {}


def replay(i: int) -> list:
    T, texts, exps, seed = _CASES[i]
    rng = random.Random(seed)
    pl = Place()
    kinds: list = []
    for j, tok in enumerate(texts):
        kinds.append((f'text {joined(tok, j % 2 == 1)!r}', lambda tok=tok, j=j: pl.holder(joined(tok, j % 2 == 1))))
    for names in ('class', 'name'):
        for un, li, di, inner in (('|', 'list', 'dict', 'same'), ('Union', 'List', 'Dict', 'same'), ('Union', 'list', 'dict', 'text')):
            st = dict(names=names, union=un, list=li, dict=di, inner=inner)
            kinds.append((f'evaluated {un} {li} {names} {inner}', lambda st=st: pl.holder(pl.evaluated(T, st, rng, {}))))
    if not unknown(T):
        kinds.append(('explicit', lambda: pl.holder(object, pl.explicit(T))))
    bad, n = [], 0
    unk = unknown(T)

    def guard(f):
        try:
            with time_limit(5):
                return f()
        except ValidationException:
            return ['err']
        except Hang:
            return ['exc', 'Hang']
        except Exception as e:
            return ['rejected', type(e).__name__, str(e)[:120]]
    for name, make in kinds:
        cls: Any = guard(make)
        refused = isinstance(cls, list)
        for e in exps:
            v, exp = e['v'], e['in']
            if refused:
                n += 1
                if not unk:
                    bad.append({'kind': 'replay', 'type': T, 'spelling': name, 'value': v, 'step': 'definition', 'expected': exp, 'got': cls})
                    break
                continue
            if unk and exp != ['rejected']:
                continue
            box: list = []

            def feed():
                box.append(cls(x=pl.dec(v)))
                return pl.enc(box[0].x)
            got = guard(feed)
            n += 1
            if got != exp and not (exp == ['rejected'] and got[0] == 'rejected'):
                bad.append({'kind': 'replay', 'type': T, 'spelling': name, 'value': v, 'step': 'input', 'expected': exp, 'got': got})
                continue
            if 'in!' not in e:
                continue
            got = guard(lambda: box[0].validate() and ['ok'] or ['ok'])
            if got != (['ok'] if e['in!'] else ['err']):
                bad.append({'kind': 'replay', 'type': T, 'spelling': name, 'value': v, 'step': 'validate', 'expected': e['in!'], 'got': got})
                continue
            if 'saved' in e:
                got = guard(lambda: box[0].save() and pl.enc(box[0].x))
                if got != e['saved']:
                    bad.append({'kind': 'replay', 'type': T, 'spelling': name, 'value': v, 'step': 'save', 'expected': e['saved'], 'got': got})
            if 'out' in e:
                got = guard(lambda: pl.enc(box[0].tojson().get('x')))
                if got != e['out']:
                    bad.append({'kind': 'replay', 'type': T, 'spelling': name, 'value': v, 'step': 'json', 'expected': e['out'], 'got': got})
    return [n, bad]


def explore(chk) -> None:
    ts = [{'t': t, 'vals': vals(t, chk.rng)} for t in catalogue(chk.rng, chk.thorough)]
    res = tlc.run('MC_Types', cfg='SPECIFICATION Spec\nINVARIANT Spellings\nINVARIANT Again\nINVARIANT Nulls\nINVARIANT Alternatives\nINVARIANT Stable\nACTION_CONSTRAINT Emit\nCONSTANT Emitting = TRUE\n',
                  data={'model.json': {'types': ts, 'styles': STYLES}}, heap='10g')
    chk.model(res, 'MC_Types')
    texts: dict = {}
    table: dict = {}
    for e in res.emitted:
        c, s = e['c'] - 1, e['s']
        if s == 'spelled':
            texts.setdefault(c, {})[e['st']] = e['x']
        elif s != 'raw':
            r = table.setdefault(c, {}).setdefault(repr(e['v']), {'v': e['v']})
            r[s] = e['x'] if s in ('in', 'saved') else e['ok'] if s == 'in!' else e['js']
    _CASES.clear()
    for c, rs in table.items():
        _CASES[c] = (ts[c]['t'], [texts[c][k] for k in sorted(texts[c])], list(rs.values()), f'{chk.seed}:{c}')
    done = pmap(replay, sorted(_CASES), chunk=4)
    chk.traced(sum(d[0] for d in done), 'replayed')
    for d in done:
        for b in d[1]:
            chk.violation(b, f"{b['type']}:{b['spelling'].split()[0]}:{b['step']}")
    chk.sample(ts[20])


def run(prop: str, chk) -> None:
    explore(chk)
