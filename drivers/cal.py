"""Dates and times (JCal: C18)."""
from __future__ import annotations
import itertools, random, re
from datetime import date, datetime, timedelta, timezone
from typing import Any
from lib import tlc
from lib.conform import Hang, pmap, time_limit
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException

NV = 5000
_count = itertools.count()
JUNK = ['abc', '', '2020-1-1', '2020/01/01', 'T10:00:00', '20:20', 'yesterday', '-2020-01-01', '2020-01', '1', '2020-00-10T00:00:00.000Z']
FORMAT = '%Y-%m-%d %H:%M:%S.%f %j'


# ---------------------------------------------------------------- values
def tz(off: int):
    return None if off == NV else timezone.utc if off == 0 else timezone(timedelta(minutes=off))


def dec(v: list) -> Any:
    k = v[0]
    if k == 'none':
        return None
    if k in ('int', 'bool'):
        return v[1]
    if k == 'date':
        return date(*v[1:4])
    if k == 'dt':
        return datetime(*v[1:8], tzinfo=tz(v[8]))
    if k == 'junk':
        return JUNK[v[1]]
    return text(v)


def text(v: list, style: int | None = None) -> str:
    _, y, m, d, timed, h, mi, s, us, off = v
    out = f'{y:04d}-{m:02d}-{d:02d}'
    if not timed:
        return out
    out += ('T' if (style if style is not None else y + d + us) % 3 else ' ') + f'{h:02d}:{mi:02d}'
    if s or us or d % 2:
        out += f':{s:02d}'
        if us:
            out += f'.{us // 1000:03d}' if us % 1000 == 0 else f'.{us:06d}'
    if off == 0:
        out += 'Z' if (d + h) % 3 else '+00:00'
    elif off != NV:
        out += ('-' if off < 0 else '+') + f'{abs(off) // 60:02d}:{abs(off) % 60:02d}'
    return out


def enc(v: Any) -> list:
    if v is None:
        return ['none']
    if type(v) is bool:
        return ['bool', v]
    if type(v) is int:
        return ['int', v]
    if type(v) is datetime:
        o = v.utcoffset()
        return ['dt', v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, NV if o is None else int(o.total_seconds() // 60)]
    if type(v) is date:
        return ['date', v.year, v.month, v.day]
    return ['other', type(v).__name__, str(v)[:40]]


def enc_json(v: Any) -> list:
    if v is None:
        return ['none']
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)\.(\d{3})Z', v) if isinstance(v, str) else None
    return ['json', *map(int, m.groups())] if m else ['other', repr(v)[:60]]


def enc_fmt(v: Any) -> list:
    if v is None:
        return ['none']
    m = re.fullmatch(r'(\d+)-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)\.(\d{3})000 (\d{3})', v) if isinstance(v, str) else None
    return ['fmt', *map(int, m.groups())] if m else ['other', repr(v)[:60]]


class World:
    def __init__(self, base: str, chain: list, where: str = 'field', form: str = 'lit') -> None:
        self.base, self.where = base, where
        self.args: dict = {}
        t = types
        for m in chain:
            t = getattr(t, m['m'])(self.arg(dec(m['p']), m.get('form', 'lit'))) if 'p' in m else getattr(t, m['m'])
        fmt = {'lit': FORMAT, 'fn': (lambda: FORMAT), 'types': types.default(FORMAT)}[form]
        # arguments first: fields are read in class order, and arguments that
        # look at the object see only the fields read before
        fields: dict = {n: types.any for n in self.args}
        fields.update({'x': types.listof(t.nullable) if where == 'list' else t, 'f': (getattr(types, base) if base else types.any).fmtd(fmt)})
        cls = type('Cal', (), {'__annotations__': {n: object for n in fields}, **fields})
        self.cls = jsonclass(class_graph=f'cal{next(_count)}')(cls)
        self.obj: Any = None

    def arg(self, p: Any, form: str) -> Any:
        if form == 'fn0':
            return lambda: p
        if form == 'types':
            return types.default(p)
        if form == 'lit':
            return p
        n = f'arg{len(self.args)}'
        self.args[n] = p
        return {'fn1': lambda o: getattr(o, n), 'fn2': lambda o, ctx: getattr(ctx.owner, n), 'this': types.this.fval(n)}[form]

    def wrap(self, v: Any) -> Any:
        return [v] if self.where == 'list' else v

    def now(self) -> Any:
        return self.obj.x[0] if self.where == 'list' else self.obj.x

    def guard(self, f) -> list:
        try:
            with time_limit(5):
                return f()
        except ValidationException as e:
            want = 'x.0' if self.where == 'list' else 'x'
            return ['err'] if list(e.keypath_messages) == [want] else ['err', *map(str, e.keypath_messages)]
        except Hang:
            return ['exc', 'Hang']
        except Exception as e:
            return ['exc', type(e).__name__, str(e)[:100]]

    def input(self, val: Any, how: str = 'new') -> list:
        def f():
            if how == 'new' or self.obj is None:
                self.obj = self.cls(**self.args, x=self.wrap(val))
            else:
                self.obj.x = None
                self.obj.set(x=self.wrap(val))
            return enc(self.now())
        return self.guard(f)

    def assign(self, val: Any) -> list:
        def f():
            if self.obj is None:
                self.obj = self.cls(**self.args)
            self.obj.x = None
            self.obj.x = self.wrap(val)
            return enc(self.now())
        return self.guard(f)

    def validate(self) -> list:
        return self.guard(lambda: self.obj.validate() and ['ok'] or ['ok'])

    def json(self) -> list:
        def f():
            x = self.obj.tojson()['x']
            return enc_json(x[0] if self.where == 'list' else x)
        return self.guard(f)

    def fmt(self) -> list:
        def f():
            self.obj.f = None      # an equal value would be kept
            self.obj.f = self.now()
            return enc_fmt(self.obj.tojson()['f'])
        return self.guard(f)


# ---------------------------------------------------------------- spec -> code
OFFS = [NV, 0, 330, -480, -1, 840]
DATES = [(y, m, d) for y in (1, 1900, 1999, 2000, 2019, 2020, 2100, 9998) for m, d in ((1, 1), (1, 31), (2, 28), (3, 1), (4, 30), (6, 15), (10, 31), (11, 30), (12, 1), (12, 31))] + \
        [(2000, 2, 29), (2020, 2, 29), (2024, 2, 29), (9999, 12, 31), (9999, 11, 5), (9999, 1, 1)]
TIMES = [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 34, 56, 789012), (0, 0, 0, 1), (23, 0, 0, 0), (9, 59, 59, 0), (11, 0, 59, 1000)]
MOVES = [b + u for b in ('tobo', 'tonext') for u in ('sec', 'min', 'hour', 'day', 'mon', 'year')]
FORMS = ['lit', 'fn0', 'fn1', 'fn2', 'types', 'this']


def values(rng: random.Random, n: int) -> list:
    out: list = [['none'], ['int', 5], ['bool', True]] + [['junk', i] for i in range(len(JUNK))]
    out += [['date', *d] for d in DATES]
    out += [['text', *d, False, 0, 0, 0, 0, NV] for d in DATES[::3]] + [['text', *x, False, 0, 0, 0, 0, NV] for x in ((2019, 2, 29), (2020, 13, 1), (2020, 4, 31), (2020, 0, 1), (1900, 2, 29), (2020, 6, 0))]
    combos = [(d, t, o) for d in DATES for t in TIMES for o in OFFS]
    pick = combos if n >= len(combos) else rng.sample(combos, n)
    out += [['dt', *d, *t, o] for d, t, o in pick]
    for d, t, o in (combos if n >= len(combos) else rng.sample(combos, n // 2)):
        out.append(['text', *d, True, *t, o])
    out += [['text', 2020, 2, 30, True, 1, 2, 3, 0, 0], ['text', 2020, 2, 3, True, 25, 2, 3, 0, 0], ['text', 2020, 2, 3, True, 5, 60, 3, 0, NV], ['text', 2020, 2, 3, True, 5, 6, 61, 0, 60]]
    seen, res = set(), []
    for v in out:
        if repr(v) not in seen:
            seen.add(repr(v))
            res.append(v)
    return res


POINTS = [['none'], ['date', 2020, 2, 29], ['date', 2000, 1, 1], ['dt', 2020, 2, 29, 0, 0, 0, 0, NV], ['dt', 2020, 2, 29, 0, 0, 0, 0, 0], ['dt', 2020, 2, 29, 5, 30, 0, 0, 330], ['dt', 2019, 12, 31, 23, 59, 59, 999999, NV],
          ['dt', 1999, 12, 31, 16, 0, 0, 0, -480], ['date', 9998, 12, 31]]


def cases(vals: list, rng: random.Random, few: int) -> list:
    whens = [i + 1 for i, v in enumerate(vals) if v[0] in ('date', 'dt', 'none')]
    others = [i + 1 for i, v in enumerate(vals) if v[0] not in ('date', 'dt', 'none')]
    some = lambda k, L: L if k >= len(L) else sorted(rng.sample(L, k))
    near = [i + 1 for i, v in enumerate(vals) if v[0] in ('date', 'dt') and v[1:4] in ([2020, 2, 29], [2020, 2, 28], [2020, 3, 1], [2000, 1, 1], [1999, 12, 31], [2019, 12, 31], [9998, 12, 31])]
    out = []
    for base in ('date', 'datetime'):
        out.append({'base': base, 'chain': [{'m': base}], 'vals': whens + others})
    for m in MOVES:
        out.append({'base': '', 'chain': [{'m': m}], 'vals': whens + [2]})
        for base in ('date', 'datetime'):
            out.append({'base': base, 'chain': [{'m': base}, {'m': m}], 'vals': some(few, whens) + some(few, others)})
    for i, p in enumerate(POINTS):
        for j, m in enumerate(('before', 'after')):
            for base in ('date', 'datetime', ''):
                ch = ([{'m': base}] if base else []) + [{'m': m, 'p': p, 'form': FORMS[(i + 3 * j + len(base)) % 6]}]
                out.append({'base': base, 'chain': ch, 'vals': sorted(set(near + some(few, whens))) + (some(few // 2, others) if base else [])})
    for _ in range(few // 2):       # moves before and after comparisons
        base = rng.choice(('date', 'datetime'))
        ch = [{'m': base}] + [rng.choice([{'m': rng.choice(MOVES)}, {'m': rng.choice(('before', 'after')), 'p': rng.choice(POINTS), 'form': rng.choice(FORMS)}]) for _ in range(rng.randint(1, 3))]
        out.append({'base': base, 'chain': ch, 'vals': some(few // 2, near) + some(few // 2, others)})
    return out


_CASES: dict = {}


def replay(i: int) -> list:
    case, exps = _CASES[i]
    w = World(case['base'], case['chain'])
    bad, n = [], 0

    def judge(v, step, exp, got):
        nonlocal n
        n += 1
        if exp != got:
            bad.append({'kind': 'replay', 'chain': case['chain'], 'value': v, 'given': str(dec(v)), 'step': step, 'expected': exp, 'got': got})
            return False
        return True
    for e in exps:
        v = e['v']
        for way, put in (('in', lambda: w.input(dec(v))), ('set', lambda: w.assign(dec(v)))):
            if e.get(way) in (None, ['undef']):
                continue
            w.obj = None
            if not judge(v, way, e[way], put()) or way + '!' not in e:
                continue
            if not judge(v, way + ' validate', ['ok'] if e[way + '!'] else ['err'], w.validate()):
                continue
            if way + '!.' in e:
                j, f = e[way + '!.']
                if j != ['undef']:
                    judge(v, way + ' json', j, w.json())
                    judge(v, way + ' fmt', f, w.fmt())
    return [n, bad]


def explore(chk) -> None:
    vals = values(chk.rng, chk.pick(500, 4000))
    cs = cases(vals, chk.rng, chk.pick(60, 300))
    res = tlc.run('MC_Cal', cfg='SPECIFICATION Spec\nINVARIANT Boundaries\nINVARIANT Calendar\nINVARIANT RoundTrip\nINVARIANT Sides\nACTION_CONSTRAINT Emit\nCONSTANT Emitting = TRUE\n',
                  data={'model.json': {'cases': cs, 'vals': vals}}, heap='12g')
    chk.model(res, 'MC_Cal')
    table: dict = {}
    for e in res.emitted:
        r = table.setdefault((e['c'] - 1, repr(e['v'])), {'v': e['v']})
        s = e['s']
        r[s] = e['x'] if s in ('in', 'set') else e['ok'] if s.endswith('!') else (e['js'], e['fm'])
    _CASES.clear()
    for (c, _), r in table.items():
        _CASES.setdefault(c, (cs[c], []))[1].append(r)
    done = pmap(replay, sorted(_CASES), chunk=2)
    chk.traced(sum(d[0] for d in done), 'replayed')
    for d in done:
        for b in d[1]:
            chk.violation(b, f"{[m['m'] for m in b['chain']]}:{b['step']}")


# ---------------------------------------------------------------- code -> spec
def rand_when(rng: random.Random, lo: int = 1, hi: int = 9998) -> list:
    y = rng.choice([rng.randint(lo, hi), rng.randint(1990, 2030), rng.choice([1900, 2000, 2020, 2100, 2400])])
    m = rng.choice([rng.randint(1, 12), 2, 12])
    last = (date(y + m // 12, m % 12 + 1, 1) - timedelta(days=1)).day
    d = rng.choice([rng.randint(1, last), last, 1])
    if rng.random() < .3:
        return ['date', y, m, d]
    t = rng.choice([(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, rng.randint(0, 999999), rng.randint(0, 999) * 1000])), *TIMES])
    o = rng.choice([NV, 0, 0, rng.randint(-840, 840), 60 * rng.randint(-12, 12)])
    return ['dt', y, m, d, *t, o]


def rand_val(rng: random.Random) -> list:
    r = rng.random()
    if r < .5:
        return rand_when(rng)
    if r < .9:
        v = rand_when(rng)
        if v[0] == 'date':
            v = ['text', *v[1:], False, 0, 0, 0, 0, NV]
        else:
            v = ['text', *v[1:4], True, *v[4:]]
        if rng.random() < .1:
            i = rng.choice([2, 3] + ([5, 6] if v[4] else []))
            v[i] = {2: 13, 3: rng.choice([0, 31, 32]), 5: 25, 6: 60}[i]
        return v
    return rng.choice([['none'], ['int', 5], ['junk', rng.randrange(len(JUNK))]])


def record(seed: str) -> dict:
    rng = random.Random(seed)
    kind = rng.random()
    if kind < .12:
        return interval(seed, rng)
    if kind < .16:
        return stamps(seed, rng)
    base = rng.choice(['date', 'datetime', 'datetime'])
    chain = [{'m': base}]
    pivot = rand_when(rng)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < .6:
            chain.append({'m': rng.choice(MOVES)})
        else:
            p = rng.choice([pivot, pivot, rand_when(rng), ['none']])
            chain.append({'m': rng.choice(('before', 'after')), 'p': p, 'form': rng.choice(FORMS)})
    where = rng.choice(['field', 'field', 'list'])
    w = World(base, chain, where, rng.choice(['lit', 'fn', 'types']))
    steps: list = []
    for _ in range(6):
        v = rand_val(rng)
        if rng.random() < .3 and 'p' in chain[-1]:      # around the bound
            v = around(rng, pivot)
        if rng.random() < .7 or v[0] in ('text', 'junk'):
            out = w.input(dec(v), rng.choice(['new', 'set']))
            op = 'input'
        else:
            op, out = 'assign', w.assign(dec(v))
        steps.append({'op': op, 'v': v, 'given': str(dec(v)), 'out': out})
        if out == ['err']:
            continue
        if out[0] in ('err', 'exc', 'other'):
            break
        ok = w.validate()
        steps.append({'op': 'validate', 'out': ok})
        if ok[0] == 'exc':
            break
        if ok == ['ok'] and out[0] in (('date', 'dt') if base == 'date' else ('dt',)):
            steps.append({'op': 'json', 'out': w.json()})
            steps.append({'op': 'fmt', 'out': w.fmt()})
    return {'seed': seed, 'base': base, 'chain': chain, 'where': where, 'steps': steps}


def around(rng: random.Random, p: list) -> list:
    v = dec(p)
    if isinstance(v, datetime):
        v += timedelta(microseconds=rng.choice([-1, 0, 1, 1000, -1000, 60000000]))
        if v.tzinfo and rng.random() < .5:
            v = v.astimezone(timezone(timedelta(minutes=rng.choice([0, 60, -90, 345]))))
    elif rng.random() < .5:
        v += timedelta(days=rng.choice([-1, 0, 1]))
    else:
        v = datetime(v.year, v.month, v.day, tzinfo=rng.choice([None, timezone.utc])) + timedelta(microseconds=rng.choice([-1, 0, 1]))
    return enc(v)


def interval(seed: str, rng: random.Random) -> dict:
    """umininterval on an object that was read from storage."""
    gap = rng.choice([timedelta(0), timedelta(days=1), timedelta(hours=5, microseconds=7), timedelta(days=29, seconds=3), timedelta(microseconds=1)])
    cls = type('Iv', (), {'__annotations__': {'x': object}, 'x': types.datetime.umininterval(gap)})
    cls = jsonclass(class_graph=f'cal{next(_count)}')(cls)
    steps = []
    for _ in range(4):
        old = rand_when(rng, 100, 9000)
        while old[0] != 'dt':
            old = rand_when(rng, 100, 9000)
        new = enc(dec(old) + rng.choice([gap, gap + timedelta(microseconds=1), gap - timedelta(microseconds=1), timedelta(days=rng.randint(-40, 40)), -gap]))
        if old[8] != NV and rng.random() < .4:
            new = enc(dec(new).astimezone(timezone(timedelta(minutes=rng.randint(-700, 700)))))
        if rng.random() < .1:
            old = ['none']
        o = cls()
        o.x = dec(old)
        o._mark_not_new()
        w = World.__new__(World)
        w.where, w.obj = 'field', o
        rng.choice([lambda: setattr(o, 'x', dec(new)), lambda: o.set(x=dec(new))])()
        out = w.validate()
        if dec(old) == dec(new):
            continue        # nothing was updated
        steps.append({'op': 'interval', 'old': old, 'v': new, 'gap': [gap.days, gap.seconds, gap.microseconds], 'out': out})
    return {'seed': seed, 'base': 'datetime', 'chain': [{'m': 'datetime'}], 'where': 'field', 'steps': steps}


def stamps(seed: str, rng: random.Random) -> dict:
    """tscreated and tsupdated against the clock."""
    cls = type('St', (), {'__annotations__': {n: object for n in 'cuz'}, 'c': types.datetime.tscreated.required, 'u': types.datetime.tsupdated.required, 'z': types.int})
    cls._database_write = lambda self: None
    cls = jsonclass(class_graph=f'cal{next(_count)}')(cls)
    now = lambda: enc(datetime.now(timezone.utc))
    steps = []

    def stamp(lo, val, hi):
        steps.append({'op': 'stamp', 'lo': lo, 'val': enc(val), 'hi': hi, 'out': ['ok']})
    lo = now()
    o = cls(z=1)
    hi = now()
    stamp(lo, o.c, hi)
    stamp(lo, o.u, hi)
    first = o.c
    for k in range(3):
        if rng.random() < .7:
            o.z = 10 + k
        touched = bool(o.is_new or o.is_modified)
        a = now()
        o.save()
        b = now()
        if touched:
            stamp(a, o.u, b)
        stamp(enc(first), o.c, enc(first))
        o._mark_not_new()
    given = datetime(2001, 2, 3, 4, 5, 6, tzinfo=timezone.utc)
    p = cls(c=given, u=given)
    stamp(enc(given), p.c, enc(given))
    stamp(enc(given), p.u, enc(given))
    return {'seed': seed, 'base': 'datetime', 'chain': [{'m': 'datetime'}], 'where': 'field', 'steps': steps}


def decide(chk, count: int) -> None:
    traces = pmap(record, [f'{chk.seed}:C18:{i}' for i in range(count)])
    for a in range(0, len(traces), 6000):
        batch = traces[a:a + 6000]
        res = tlc.run('Trace_Cal', cfg='SPECIFICATION Spec\n', data={'traces.json': batch})
        chk.model(res, f'Trace_Cal/{a // 6000}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            chk.violation({'kind': 'trace', 'fault': e['fault'], 'seed': t['seed'], 'chain': t['chain'], 'where': t['where'],
                           'steps': t['steps'][:e['k']], 'expected': e['expected']},
                          f"{[m['m'] for m in t['chain']]}:{t['steps'][e['k'] - 1]['op']}")
    chk.sample(traces[0])


def run(prop: str, chk) -> None:
    explore(chk)
    decide(chk, chk.pick(4000, 60000))
