"""C01, C02, C03, C05, C14, C21 (and C11 inside inputs): taking input, assigning,
validating, JSON.  Specification: spec/JCore.tla."""
from __future__ import annotations
import itertools, random
from datetime import date, datetime, timezone
from enum import Enum
from typing import Any, Optional
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from lib.values import enc, dec
from lib.conform import Graph, pmap, time_limit, Hang
from lib import tlc

NONE = ['none']
LOW = -1000000
DATES = ['2020-02-29T00:00:00.000Z', '1999-12-31T00:00:00.000Z']
TIMES = ['2021-07-08T09:10:11.120Z', '1999-12-31T23:59:59.999Z', '2020-02-29T00:00:00.000Z']
MEMBERS = [('RED', 1), ('BLUE', 2), ('DARK_SKY', 3)]


# ------------------------------------------------------------------ schemas
def typ(k: str, **kw) -> dict:
    return {'k': k, 'req': False, 'nn': False, 'lo': LOW, 'hi': 99, 'def': NONE, 'item': NONE,
            'cls': '', 'sx': '', 'ms': [], 'form': '', **kw}


def enum_type(inform: str, outform: str, **kw) -> dict:
    def form(f, m):
        return {'name': ['str', m[0]], 'lname': ['str', m[0].lower()], 'value': ['int', m[1]]}[f]
    return typ('enum', ms=[[m[0], form(inform, m), form(outform, m)] for m in MEMBERS],
               form=inform + '/' + outform, **kw)


def camel(n: str) -> str:
    head, *rest = n.split('_')
    return head + ''.join(p.capitalize() for p in rest)


STRATEGY = {'camelize': camel, 'identical': lambda n: n, 'shout': lambda n: n.upper()}


def single(n: str) -> str:
    return n[:-1] if n.endswith('s') else n


def fld(n: str, t: dict, js: str, st='data', w='rw', r=True, pdef=NONE, opp='') -> dict:
    idk = (single(n) + '_ids' if t['k'] == 'list' else n + '_id') if st == 'local' else ''
    return {'n': n, 'j': STRATEGY[js](n), 'w': w, 'r': r, 'st': st, 't': t, 'pdef': pdef,
            'idk': idk, 'jidk': STRATEGY[js](idk), 'opp': opp}


def gen_scalar(rng: random.Random, p: dict, item=False) -> dict:
    k = rng.choices(['int', 'str', 'bool', 'any', 'date', 'datetime', 'enum'],
                    [4, 4, 1, 2, 1, 1, 1])[0]
    req = rng.random() < (0.75 if item else p['req'])
    if k == 'enum':
        i = rng.choice(['name', 'lname', 'value'])
        return enum_type(i, i if p['same_form'] else rng.choice(['name', 'lname', 'value']), req=req)
    t = typ(k, req=req)
    if k == 'int' and rng.random() < p['lo']:
        t['lo'] = rng.choice([0, 3])
    if k in ('int', 'str') and rng.random() < p['def']:
        t['def'] = ['int', rng.choice([3, 5])] if k == 'int' else ['str', 'dflt']
    return t


def gen_type(rng: random.Random, p: dict, embed: list[str], depth: int, item=False) -> dict:
    roll = rng.random()
    if depth <= 0 or roll < p.get('plain', 0.5):
        return gen_scalar(rng, p, item)
    req = rng.random() < (0.75 if item else p['req'])
    if roll < (0.72 if p.get('plain', 0.5) == 0.5 else 0.4) and embed:
        return typ('obj', cls=rng.choice(embed), req=req, sx='strict' if rng.random() < p['sx'] else '')
    k = 'list' if rng.random() < 0.55 else 'dict'
    t = typ(k, req=req, nn=rng.random() < 0.25, item=gen_type(rng, p, embed, depth - 1, True))
    if k == 'list' and rng.random() < p['lo']:
        t['hi'] = rng.choice([0, 1, 1, 2])
    if not t['nn'] and rng.random() < p['def'] * 0.6 and t['item']['k'] in ('any', 'str'):
        t['def'] = ['list', [['str', 'd1']]] if k == 'list' else ['dict', [['dk', ['str', 'd1']]]]
    return t


NAMES = ['alpha', 'beta_two', 'gamma', 'delta_x', 'eps', 'zeta_long_name', 'eta', 'theta']


def gen_schema(rng: random.Random, p: dict) -> dict:
    js = rng.choices(['camelize', 'identical', 'shout'], [5, 2, 2])[0]
    ncls = rng.randint(1, 3)
    classes: dict[str, dict] = {}
    names = [f'K{i}' for i in range(ncls)]
    for i, c in enumerate(names):
        embed = names[i + 1:]
        fields = []
        haspk = rng.random() < 0.7
        if haspk:
            pkname = rng.choice(['id', 'id', 'the_key'])
            fields.append(fld(pkname, typ('str'), js))
        for n in rng.sample(NAMES, rng.randint(1, 4)):
            t = gen_type(rng, p, embed, 2)
            w = rng.choices(['rw', 'ro', 'once', 'nonnull'], [10, p['mark'], p['mark'], p['mark']])[0]
            st = 'temp' if rng.random() < p['temp'] else 'data'
            r = rng.random() >= p['hide']
            pdef = NONE
            if t['k'] in ('int', 'str') and t['def'] == NONE and t['lo'] == LOW \
                    and (w, st, r) == ('rw', 'data', True) and rng.random() < p['def']:
                pdef = ['int', 4] if t['k'] == 'int' else ['str', 'pd']
            fields.append(fld(n, t, js, st=st, w=w, r=r, pdef=pdef))
        rng.shuffle(fields)
        if haspk:
            fields.sort(key=lambda f: f['n'] != pkname)
        classes[c] = dict(strict=rng.random() < p['strict'], onull=rng.random() < 0.3,
                          allf=rng.random() < 0.5, pk=pkname if haspk else '', fields=fields)
    # relations
    pk = [c for c in names if classes[c]['pk']]
    if pk and rng.random() < p['rel']:
        for r_i in range(rng.randint(1, 2)):
            a, b = rng.choice(pk), rng.choice(pk)
            one, many = f'head{r_i}', f'tail_of{r_i}s'
            kind = rng.choice(['way', 'om', 'oo', 'lway'])
            w = rng.choices(['rw', 'ro', 'once'], [6, p['mark'] / 3, p['mark'] / 3])[0]
            rd = rng.random() >= p['hide']
            req = rng.random() < p['req'] / 2
            sx = 'strict' if rng.random() < p['sx'] else ''
            if kind == 'lway':
                classes[a]['fields'].append(fld(many, typ('list', nn=rng.random() < .5, item=typ('obj', cls=b, req=True, sx=sx)),
                                                js, st='local', w=w, r=rd))
                continue
            classes[a]['fields'].append(fld(one, typ('obj', cls=b, req=req, sx=sx), js, st='local', w=w, r=rd,
                                            opp='' if kind == 'way' else many))
            if kind == 'om':
                classes[b]['fields'].append(fld(many, typ('list', nn=rng.random() < .5, item=typ('obj', cls=a, req=True)),
                                                js, st='foreign', opp=one))
            elif kind == 'oo':
                classes[b]['fields'].append(fld(many, typ('obj', cls=a), js, st='foreign', opp=one))
    return {'js': js, 'classes': classes}


# ------------------------------------------------------------ real classes
_ENUM = Enum('Shade', MEMBERS)
_N = itertools.count()


def shout(k: str) -> str:
    return k.upper() if isinstance(k, str) else k


def mk(t: dict, item: bool = False) -> Any:
    x = types
    if t['nn']:
        x = x.nonnull
    if t['sx'] == 'strict':
        x = x.strict
    k = t['k']
    if k == 'obj':
        x = x.objof(t['cls'])
    elif k == 'list':
        if t['hi'] % 2 == 0:      # limits are written before or after the type
            x = x.maxlength(t['hi'])
        x = x.listof(mk(t['item'], True))
        if t['hi'] % 2 and t['hi'] < 99:
            x = x.maxlength(t['hi'])
    elif k == 'dict':
        x = x.dictof(mk(t['item'], True))
    elif k == 'enum':
        i, o = t['form'].split('/')
        x = getattr(getattr(x, 'input' + i), 'output' + o).enum(_ENUM)
    else:
        x = getattr(x, k)
    if t['lo'] != LOW:
        x = x.min(t['lo'])
    if t['def'] != NONE:
        x = x.default(dec(t['def']))
    if item and not t['req']:
        x = x.nullable
    if t['req'] and not item:
        x = x.required
    return x


PY = {'int': int, 'str': str}


def build(schema: dict) -> dict[str, type]:
    graph = f'vf_core_{next(_N)}'
    out = {}
    for c, d in schema['classes'].items():
        ann, ns = {}, {}
        order = [f for f in d['fields']]
        for f in order:
            n = f['n']
            if f['pdef'] != NONE:
                ann[n] = PY[f['t']['k']] if f['t']['req'] else Optional[PY[f['t']['k']]]
                ns[n] = dec(f['pdef'])
                continue
            x = mk(f['t'])
            if n == d['pk']:
                x = types.str.primary
            if f['w'] == 'ro' and not f['r']:
                x = x.internal
            elif f['w'] == 'ro':
                x = x.readonly
            elif f['w'] == 'once':
                x = x.writeonce
            elif f['w'] == 'nonnull':
                x = x.writenonnull
            if not f['r'] and f['w'] != 'ro':
                x = x.writeonly
            if f['st'] == 'temp':
                x = x.temp
            elif f['st'] == 'local':
                x = x.linkto
            elif f['st'] == 'foreign':
                x = x.linkedby(f['opp'])
            ann[n] = Any
            ns[n] = x
        ns['__annotations__'] = ann
        ns['__module__'] = __name__
        cls = type(c, (), ns)
        js = {'camelize': None, 'identical': 'identical', 'shout': shout}[schema['js']]
        kw: dict[str, Any] = {} if js is None else {'output_key_strategy': js}
        out[c] = jsonclass(cls, class_graph=graph, strict_input=d['strict'], output_null=d['onull'],
                           validate_all_fields=d['allf'], **kw)
    return out


# ------------------------------------------------------------- observation
def encj(v: Any) -> list:
    """Encode a value of a field or of JSON output."""
    if isinstance(v, datetime):
        if v.tzinfo is not None:
            v = v.astimezone(timezone.utc)
        return ['datetime', v.strftime('%Y-%m-%dT%H:%M:%S.') + f'{v.microsecond // 1000:03d}Z']
    if isinstance(v, date):
        return ['date', v.strftime('%Y-%m-%d') + 'T00:00:00.000Z']
    if isinstance(v, Enum):
        return ['enum', v.name]
    if isinstance(v, (list, tuple)):
        return ['list', [encj(i) for i in v]]
    if isinstance(v, dict):
        return ['dict', [[str(k), encj(i)] for k, i in v.items()]]
    return enc(v)


class Dumper:
    def __init__(self, schema: dict, cls: dict[str, type]) -> None:
        self.schema, self.cls = schema, cls
        self.name = {v: k for k, v in cls.items()}

    def tree(self, objs: list) -> list:
        seen: list = []

        def val(v):
            c = self.name.get(type(v))
            if c is not None:
                for i, s in enumerate(seen):
                    if s is v:
                        return ['ref', i + 1]
                seen.append(v)
                fs = self.schema['classes'][c]['fields']
                vals = [val(getattr(v, f['n'])) for f in fs]
                return ['obj', c, vals, [encj(getattr(v, f['idk'])) for f in fs if f['st'] == 'local']]
            if isinstance(v, list):
                return ['list', [val(i) for i in v]]
            if isinstance(v, dict):
                return ['dict', [[str(k), val(i)] for k, i in v.items()]]
            return encj(v)
        return [val(o) for o in objs]


class World:
    def __init__(self, schema: dict, nvars: int) -> None:
        self.schema = schema
        self.cls = build(schema)
        self.vars: list = [None] * nvars
        self.given: list = []
        self.scramble = False     # spoil what was handed in or out once the call is over
        self.dumper = Dumper(schema, self.cls)

    def obs(self) -> list:
        return self.dumper.tree(self.vars)

    def reach(self, o) -> list:
        seen: list = []
        todo = [o]
        while todo:
            v = todo.pop()
            if isinstance(v, list):
                todo.extend(v)
            elif isinstance(v, dict):
                todo.extend(v.values())
            elif type(v) in self.dumper.name and not any(s is v for s in seen):
                seen.append(v)
                c = self.dumper.name[type(v)]
                todo.extend(getattr(v, f['n']) for f in self.schema['classes'][c]['fields'])
        return seen

    def kwargs(self, inp: dict) -> dict:
        kw = {k: pyval(v) for k, v in inp['m']}
        for e in inp['c']:
            kw[e['key']] = pyval(e['v'])
        self.given.extend(kw.values())
        return kw

    def value(self, v: list) -> Any:
        self.given.append(pyval(v))
        return self.given[-1]

    def inner(self, op: dict) -> Any:
        v = getattr(self.vars[op['x'] - 1], op['f'])
        for _, k in op.get('at', []):
            v = v[k]
        return v

    def run(self, op: dict) -> list:
        n = op['name']
        x = op['x'] - 1
        o = self.vars[x]
        if n == 'new':
            self.vars[x] = self.cls[op['cls']](**self.kwargs(op['in']))
            return ['ok']
        if n == 'set':
            return ['ok'] if o.set(**self.kwargs(op['in'])) is o else ['other', 'set returned something else']
        if n == 'update':
            return ['ok'] if o.update(**self.kwargs(op['in'])) is o else ['other', 'update returned something else']
        if n == 'assign':
            setattr(o, op['f'], self.value(op['v']))
            return ['ok']
        if n == 'link':
            setattr(o, op['f'], self.vars[op['y'] - 1])
            return ['ok']
        if n == 'copy':         # what another field holds, itself
            v = getattr(self.vars[op['y'] - 1], op['g'])
            setattr(o, op['f'], v) if op['how'] == 'assign' else o.update(**{op['f']: v})
            return ['ok']
        if n == 'append':
            self.inner(op).append(self.value(op['v']))
            return ['ok']
        if n == 'put':
            self.inner(op)[op['key']] = self.value(op['v'])
            return ['ok']
        if n in ('pick', 'omit'):
            getattr(o, n)(list(op['names']))
            return ['ok']
        if n == 'mark':
            for r in self.reach(o):
                r._mark_unmodified()
            return ['ok']
        if n in ('json', 'again'):
            j = self.tojson(o, op['opt'])
            if n == 'json':
                r = ['json', encj(j)]
                self.given.append(j)
                return r
            self.vars[op['y'] - 1] = type(o)(**j)
            return ['ok']
        if n == 'validate':
            r = o.validate(**({} if op['all'] == 'class' else {'all_fields': op['all'] == 'yes'}))
            return ['ok'] if r is o else ['other', 'validate returned something else']
        if n == 'isvalid':
            return ['bool', o.is_valid]
        raise ValueError(n)

    def tojson(self, o, opt):
        kw = {}
        if opt['null'] != 'class':
            kw['output_null'] = opt['null'] == 'yes'
        return o.tojson(ignore_writeonly=opt['wo'], reverse_relationship=opt['rev'], **kw)

    def step(self, op: dict) -> list:
        self.given = []
        try:
            return self.tried(op)
        finally:
            if self.scramble:
                spoil(self.given)

    def tried(self, op: dict) -> list:
        try:
            with time_limit(5):
                return self.run(op)
        except ValidationException as e:
            return ['exc', 'ValidationException', sorted(e.keypath_messages)]
        except Hang as e:
            return ['exc', 'Hang', [str(e)]]
        except RecursionError:
            return ['exc', 'RecursionError', []]
        except Exception as e:
            return ['exc', type(e).__name__, [str(e)[:80]] if not isinstance(e, (ValueError, IndexError, KeyError)) else []]


def pyval(t: list) -> Any:
    if t[0] == 'enum':
        return _ENUM[t[1]]
    if t[0] == 'list':
        return [pyval(i) for i in t[1]]
    if t[0] == 'dict':
        return {k: pyval(i) for k, i in t[1]}
    if t[0] in ('date', 'datetime'):
        d = datetime.strptime(t[1], '%Y-%m-%dT%H:%M:%S.%fZ').replace(tzinfo=timezone.utc)
        return d.date() if t[0] == 'date' else d
    return dec(t)


# -------------------------------------------------------------- generation
class Gen:
    """Random histories.  `p` tells what to stress."""

    def __init__(self, rng: random.Random, schema: dict, p: dict, nvars: int) -> None:
        self.rng, self.schema, self.p, self.nvars = rng, schema, p, nvars
        self.serial = 0
        self.kind: dict[int, str] = {}
        self.tainted: set[int] = set()

    def scalar(self, t: dict, junk: float) -> list:
        r = self.rng
        k = t['k']
        if r.random() < junk:
            return r.choice([['str', 'nope'], ['int', 1], ['int', 7], ['bool', True]])
        if k == 'int':
            return ['int', r.choice([0, 1, 3, 4, 9, -2])]
        if k == 'str':
            return ['str', r.choice(['', 'x', 'yy'])]
        if k == 'bool':
            return ['bool', r.random() < 0.5]
        if k == 'date':
            return ['str', r.choice(DATES)]
        if k == 'datetime':
            return ['str', r.choice(TIMES)]
        if k == 'enum':
            return r.choice(t['ms'])[1]
        return r.choice([['int', 2], ['str', 'any'], ['list', [['int', 1]]], ['dict', [['a', ['int', 1]]]]])

    def value(self, t: dict, depth: int, ids: list[str], cls_path=()) -> list:
        r = self.rng
        if r.random() < self.p['null']:
            return NONE
        k = t['k']
        junk = self.p['junk']
        if k == 'list':
            if r.random() < junk:
                return self.scalar(t, 1)
            return ['list', [self.value(t['item'], depth - 1, ids) for _ in range(r.randint(0, 3 if depth > 0 else 1))]]
        if k == 'dict':
            if r.random() < junk:
                return self.scalar(t, 1)
            ks = r.sample(['ka', 'kb_c', 'kD', 'id'], r.randint(0, 2))
            return ['dict', [[q, self.value(t['item'], depth - 1, ids)] for q in ks]]
        if k == 'obj':
            if r.random() < junk:
                return self.scalar(t, 1)
            if depth < -1:
                return NONE
            return ['dict', self.mapping(t['cls'], depth - 1, ids, nested=True)]
        return self.scalar(t, junk)

    def mapping(self, c: str, depth: int, ids: list[str], nested: bool, withid: bool = True) -> list:
        r = self.rng
        d = self.schema['classes'][c]
        pairs = []
        if d['pk'] and withid:
            # a class taking part in relations always gets an identity
            if nested and ids and r.random() < self.p['sameid']:
                i = r.choice(ids)
            else:
                self.serial += 1
                i = f'n{self.serial}'
                ids.append(i)
            pairs.append([r.choice([d['pk'], pkj(d)]), ['str', i]])
        for f in d['fields']:
            if f['n'] == d['pk']:
                continue
            if r.random() > self.p['fill']:
                continue
            if f['st'] == 'local' and r.random() < 0.35:
                self.serial += 1
                v = ['str', f'r{self.serial}'] if f['t']['k'] == 'obj' else ['list', [['str', f'r{self.serial}']]]
                if r.random() < 0.1:
                    v = NONE
                pairs.append([r.choice([f['idk'], f['jidk']]), v])
                if r.random() < 0.8:
                    continue
            if f['st'] in ('local', 'foreign') and depth <= 0:
                continue
            v = self.value(f['t'], depth, ids)
            if f['st'] in ('local', 'foreign') and f['t']['k'] == 'list' and v[0] == 'list':
                # one object at most once in a list of references
                seen, items = set(), []
                for it in v[1]:
                    key = str(idof(self.schema, f['t']['item']['cls'], it)) if it[0] == 'dict' else str(it)
                    if key not in seen and it != NONE:
                        seen.add(key)
                        items.append(it)
                v = ['list', items]
            names = [f['n']] if f['n'] == f['j'] or r.random() < 0.5 else [f['j']]
            if f['n'] != f['j'] and r.random() < 0.06:
                names = [f['n'], f['j']]
                pairs.append([f['n'], self.value(f['t'], -1, []) if f['st'] in ('data', 'temp') and not has_obj(f['t']) else NONE])
                pairs.append([f['j'], v])
                continue
            pairs.append([names[0], v])
        r.shuffle(pairs)
        if r.random() < self.p['unknown']:
            pairs.insert(r.randint(0, len(pairs)), [r.choice(['bogus', 'Alpha', 'beta_Two', 'idx', 'head0_ids']), ['int', 1]])
        return pairs

    def compound(self, c: str) -> dict:
        """One key path entry (bracketed or dotted)."""
        r = self.rng
        parts: list[str] = []
        cur = c
        t: dict | None = None
        for _ in range(r.randint(2, 4)):
            if t is None:
                d = self.schema['classes'][cur]
                fs = [f for f in d['fields'] if f['n'] != d['pk'] and (f['t']['k'] in ('obj', 'list', 'dict') or r.random() < 0.2)
                      and not (f['st'] in ('local', 'foreign') and f['t']['k'] == 'list')]
                if not fs or r.random() < 0.04:
                    fs2 = [f for f in d['fields'] if f['n'] != d['pk'] and not f['st'] in ('local', 'foreign')]
                    if not fs2 or r.random() < .3:
                        parts.append('bogus')
                        break
                    fs = fs2
                f = r.choice(fs)
                parts.append(r.choice([f['n'], f['j']]))
                t = f['t']
            if t['k'] == 'obj':
                cur, t = t['cls'], None
                if len(parts) > 1 and r.random() < 0.3:
                    pass
                continue
            if t['k'] == 'list':
                parts.append(r.choice(['0', '0', '1', '2', 'x']))
                t = t['item']
                if t['k'] == 'obj':
                    cur, t = t['cls'], None
                continue
            if t['k'] == 'dict':
                parts.append(r.choice(['ka', 'kb_c', 'kD', 'kz']))
                t = t['item']
                if t['k'] == 'obj':
                    cur, t = t['cls'], None
                continue
            break
        last: list
        if t is None:            # ends inside an object: name one of its fields
            d = self.schema['classes'][cur]
            fs = [f for f in d['fields'] if f['n'] != d['pk'] and f['st'] in ('data', 'temp')]
            if not fs:
                parts.append('bogus')
                last = ['int', 1]
            else:
                f = r.choice(fs)
                parts.append(r.choice([f['n'], f['j']]))
                last = self.value(f['t'], 0, [])
        else:
            last = self.value(t, 0, []) if not has_obj(t) else NONE
        if len(parts) == 1:
            parts.append('bogus')
        # spelled in one of the accepted ways
        key = parts[0]
        for q in parts[1:]:
            key += f'[{q}]' if r.random() < 0.4 else f'.{q}'
        return {'parts': parts, 'v': last, 'key': key}

    def inp(self, c: str, top_id: bool) -> dict:
        r = self.rng
        m = self.mapping(c, 2, [], nested=False, withid=top_id)
        comp = []
        if r.random() < self.p['path']:
            comp = [self.compound(c) for _ in range(r.randint(1, 2))]
            keys = {e['key'] for e in comp}
            if len(keys) < len(comp):
                comp = comp[:1]
        return {'m': dedup(m), 'c': comp}

    def opt(self) -> dict:
        r = self.rng
        return {'null': r.choice(['class', 'class', 'yes', 'no']), 'wo': r.random() < 0.25, 'rev': r.random() < 0.25}

    def op(self, k: int) -> dict:
        r = self.rng
        names = list(self.schema['classes'])
        used = list(self.kind)
        if not used or (len(used) < self.nvars and r.random() < 0.35):
            x = len(used) + 1
            c = names[0] if x == 1 else r.choice(names)
            return {'name': 'new', 'x': x, 'cls': c, 'in': self.inp(c, True)}
        name = r.choices(list(self.p['ops']), list(self.p['ops'].values()))[0]
        x = r.choice(used)
        c = self.kind[x]
        d = self.schema['classes'][c]
        fs = [f for f in d['fields'] if f['n'] != d['pk']]
        plainf = [f for f in fs if f['st'] in ('data', 'temp') and not has_obj(f['t'])]
        if name == 'new':
            return {'name': 'new', 'x': x, 'cls': c, 'in': self.inp(c, True)}
        if name == 'set':
            return {'name': 'set', 'x': x, 'in': self.inp(c, False)}
        if name == 'update':
            m = []
            for f in plainf:
                if r.random() < 0.6:
                    m.append([f['n'], self.stored(f['t'])])
            if r.random() < 0.1:
                m.append(['bogus', ['int', 1]])
            return {'name': 'update', 'x': x, 'in': {'m': m, 'c': []}}
        if name == 'assign' and plainf:
            f = r.choice(plainf)
            return {'name': 'assign', 'x': x, 'f': f['n'], 'v': self.stored(f['t'])}
        if name == 'link':
            cand = [(f, y) for f in fs for y in used if f['t']['k'] == 'obj' and self.kind[y] == f['t']['cls']
                    and y not in self.tainted and x not in self.tainted]
            if cand:
                f, y = r.choice(cand)
                return {'name': 'link', 'x': x, 'f': f['n'], 'y': y}
        if name == 'copy':
            cand = [(f, y, h['n']) for f in plainf for y in used for h in self.schema['classes'][self.kind[y]]['fields']
                    if h['st'] in ('data', 'temp') and h['t'] == f['t'] and (y != x or h['n'] != f['n'])]
            cand = [q for q in cand if q[0]['t']['k'] in ('list', 'dict', 'any')] or cand
            if cand:
                f, y, h = r.choice(cand)
                return {'name': 'copy', 'x': x, 'f': f['n'], 'y': y, 'g': h, 'how': r.choice(['assign', 'update'])}
        if name == 'append':
            cand = [f for f in plainf if f['t']['k'] == 'list']
            if cand:
                f = r.choice(cand)
                return {'name': 'append', 'x': x, 'f': f['n'], 'v': self.stored(f['t']['item'])}
        if name == 'put':
            cand = [f for f in plainf if f['t']['k'] == 'dict']
            if cand:
                f = r.choice(cand)
                return {'name': 'put', 'x': x, 'f': f['n'], 'key': r.choice(['ka', 'kb_c', 'kq']), 'v': self.stored(f['t']['item'])}
        if name in ('pick', 'omit'):
            return {'name': name, 'x': x, 'names': [f['n'] for f in d['fields'] if r.random() < 0.5]}
        if name == 'mark':
            return {'name': 'mark', 'x': x}
        if name == 'validate':
            return {'name': 'validate', 'x': x, 'all': r.choice(['class', 'yes', 'no'])}
        if name == 'isvalid':
            return {'name': 'isvalid', 'x': x}
        if name == 'again':
            y = r.choice([i for i in range(1, self.nvars + 1) if i <= len(used) + 1])
            return {'name': 'again', 'x': x, 'y': y, 'opt': self.opt()}
        return {'name': 'json', 'x': x, 'opt': self.opt()}

    def stored(self, t: dict) -> list:
        """A value as it is kept in a field (after input)."""
        r = self.rng
        if r.random() < self.p['null']:
            return NONE
        k = t['k']
        if r.random() < self.p['junk']:
            return self.scalar(typ('any'), 1)
        if k == 'list':
            return ['list', [self.stored(t['item']) for _ in range(r.randint(0, 3))]]
        if k == 'dict':
            return ['dict', [[q, self.stored(t['item'])] for q in r.sample(['ka', 'kb_c', 'kD'], r.randint(0, 2))]]
        if k in ('date', 'datetime'):
            return [k, r.choice(DATES if k == 'date' else TIMES)]
        if k == 'enum':
            return ['enum', r.choice(MEMBERS)[0]]
        if k == 'any':
            return r.choice([['int', 2], ['str', 'any'], ['list', [['int', 1]]]])
        return self.scalar(t, 0)

    def note(self, op: dict, out: list) -> None:
        if op['name'] == 'new' and out == ['ok']:
            self.kind[op['x']] = op['cls']
            self.tainted.discard(op['x'])
        if op['name'] == 'again':
            # objects now exist twice under one identity
            if out == ['ok']:
                self.kind[op['y']] = self.kind[op['x']]
            self.tainted |= {op['y'], op['x']}


def has_obj(t: dict) -> bool:
    return t['k'] == 'obj' or (isinstance(t['item'], dict) and has_obj(t['item']))


def pkj(d: dict) -> str:
    return next(f['j'] for f in d['fields'] if f['n'] == d['pk'])


def idof(schema: dict, cls: str, it: list) -> Any:
    d = schema['classes'][cls]
    m = dict(it[1])
    return m.get(pkj(d), m.get(d['pk']))


def dedup(pairs: list) -> list:
    seen, out = set(), []
    for k, v in pairs:
        if k not in seen:
            seen.add(k)
            out.append([k, v])
    return out


BASE = dict(req=0.3, lo=0.3, mark=2, temp=0.06, hide=0.12, strict=0.25, sx=0.2, rel=0.6, null=0.12, junk=0.06,
            fill=0.7, sameid=0.2, unknown=0.06, path=0.15, same_form=True, **{'def': 0.2},
            ops={'new': 2, 'set': 5, 'update': 1, 'assign': 2, 'link': 2, 'append': 1, 'put': 1,
                 'pick': .5, 'omit': .5, 'mark': 1.5, 'json': 3, 'validate': 3, 'isvalid': 1, 'again': 1})


def profile(prop: str) -> dict:
    p = dict(BASE)
    if prop == 'C01':
        p.update(mark=7, path=0.35, unknown=0.02, junk=0.03, strict=.1, sameid=.3,
                 ops={'new': 3, 'set': 8, 'update': 1, 'assign': 2, 'link': 2, 'mark': .5})
    elif prop == 'C02':
        p.update(strict=0.55, sx=0.5, unknown=0.25, path=0.15, junk=.03,
                 ops={'new': 4, 'set': 8, 'assign': 1, 'link': 1})
    elif prop == 'C03':
        p.update(hide=0.35, temp=.15, path=0.05, unknown=0.02, junk=0.01, mark=1, sameid=.3, rel=.8,
                 ops={'new': 2, 'set': 2, 'assign': 2, 'link': 3, 'pick': 2, 'omit': 2, 'json': 9})
    elif prop == 'C05':
        p.update(req=0.5, lo=.5, junk=0.12, null=.2, mark=.5, rel=.8, sameid=.3, path=.05, unknown=.01, strict=.05,
                 ops={'new': 2, 'set': 3, 'update': 1, 'assign': 3, 'link': 3, 'append': 2, 'put': 2, 'mark': 2,
                      'validate': 10, 'isvalid': 2})
    elif prop == 'C14':
        p.update(hide=0.03, temp=.02, mark=.4, junk=0.0, unknown=0, path=0.03, sameid=.05, rel=.35,
                 ops={'new': 3, 'set': 2, 'assign': 2, 'json': 3, 'again': 8})
    elif prop == 'C21':
        p.update(**{'def': 0.8, 'plain': .25, 'mark': .5, 'junk': .02, 'unknown': .02, 'path': .3, 'fill': .35, 'rel': .3},
                 ops={'new': 5, 'set': 3, 'append': 5, 'put': 5, 'assign': 2, 'copy': 4, 'link': 1, 'json': 1, 'pick': .5, 'omit': .7})
    elif prop == 'C11':
        p.update(rel=1.0, sameid=0.6, mark=.3, junk=.02, unknown=0.02, path=.05, fill=.8,
                 ops={'new': 6, 'set': 6, 'json': 1, 'link': 1})
    return p


def spoil(v: Any) -> None:
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v['spoilt'] = 1
    elif isinstance(v, list):
        for x in list(v):
            spoil(x)
        v.append('spoilt')


def deeper(w: World, op: dict, rng: random.Random) -> dict:
    """The same kind of change, further inside."""
    inner: list = []

    def look(v: Any, at: list) -> None:
        if at and isinstance(v, (list, dict)):
            inner.append((at, v))
        for k, x in (enumerate(v) if isinstance(v, list) else v.items() if isinstance(v, dict) else ()):
            look(x, at + [['i' if isinstance(v, list) else 'k', k]])
    look(getattr(w.vars[op['x'] - 1], op['f'], None), [])
    if not inner:
        return op
    at, v = rng.choice(inner)
    base = {'x': op['x'], 'f': op['f'], 'at': at, 'v': rng.choice([['int', 7], ['str', 'in'], ['list', [['int', 8]]]])}
    return {'name': 'append', **base} if isinstance(v, list) else {'name': 'put', 'key': rng.choice(['ka', 'kq']), **base}


def record(arg: tuple) -> dict:
    seed, prop, length = arg
    rng = random.Random(seed)
    p = profile(prop)
    nvars = 3
    schema = gen_schema(rng, p)
    w = World(schema, nvars)
    w.scramble = prop == 'C21'
    g = Gen(rng, schema, p, nvars)
    steps = []
    for k in range(length):
        op = g.op(k)
        if op['name'] in ('append', 'put') and rng.random() < .5:
            op = deeper(w, op, rng)
        out = w.step(op)
        obs = w.obs()
        steps.append({'op': op, 'out': out, 'obs': obs})
        g.note(op, out)
        if out[:2] == ['exc', 'Hang'] or len(repr(obs)) > 6000:
            break
    return {'schema': schema['classes'], 'js': schema['js'], 'dates': sorted(set(DATES + TIMES)), 'nvars': nvars,
            'steps': steps, 'seed': seed}


def canon(v: list) -> Any:
    if v[0] == 'list':
        return ['list', [canon(i) for i in v[1]]]
    if v[0] == 'dict':
        return ['dict', sorted([[k, canon(i)] for k, i in v[1]], key=lambda e: e[0])]
    return v


def out_faults(m: dict, op: dict, want: list, got: list) -> set[str]:
    """OutFaults of JCore."""
    n = op['name']
    if n == 'json':
        return set() if got[0] == 'json' and canon(got[1]) == canon(want[1]) else {'json'}
    if n == 'validate' and want[0] == 'exc':
        if got[:2] != want[:2]:
            return {'accepted'}
        ks, ws = set(got[2]), set(want[2])
        allf = {c['allf'] for c in m['schema'].values()}
        full = op['all'] == 'yes' or (op['all'] == 'class' and allf == {True})
        some = op['all'] == 'no' or (op['all'] == 'class' and allf == {False})
        bad = set()
        if not ks or not ks <= ws:
            bad.add('keys')
        if full and ks != ws:
            bad.add('keys-missing')
        if some and len(ks) != 1:
            bad.add('keys-extra')
        return bad
    if n in ('validate', 'isvalid'):
        return set() if got == want else {'rejected' if n == 'validate' else 'isvalid'}
    if want[0] == 'exc':
        if got[:2] != want[:2]:
            return {'not-refused'}
        return set() if set(want[2]) == {'*'} or set(want[2]) == set(got[2]) else {'keys'}
    return set() if got[0] == want[0] else {'refused'}


_MODEL: dict = {}


def walk(path: list) -> dict | None:
    m = _MODEL['m']
    w = World({'classes': m['schema'], 'js': m['js']}, m['nvars'])
    w.scramble = m['name'] in ('shared', 'held')
    done = []
    for tr in path:
        got = w.step(tr['o'])
        obs = w.obs()
        done.append(tr['o'])
        bad = out_faults(m, tr['o'], tr['r'], got) | (set() if obs == tr['d'] else {'content'})
        if bad:
            return {'kind': 'replay', 'model': m['name'], 'faults': sorted(bad), 'seed': '', 'js': m['js'], 'schema': m['schema'],
                    'history': done, 'expected': {'out': tr['r'], 'obs': tr['d']}, 'got': got, 'got_obs': obs}
    return None


def explore(chk, m: dict) -> None:
    """Model-check one small world, then take the code through all of it."""
    depth = chk.pick(*m['depth'])
    res = tlc.run('MC_Core', cfg=f'SPECIFICATION Spec\nINVARIANT Promised\nVIEW View\nACTION_CONSTRAINT Emit\n'
                  f'CONSTANTS Depth = {depth} Emitting = TRUE\n',
                  data={'model.json': m}, heap='12g')
    chk.model(res, f"MC_Core/{m['name']}/depth{depth}")
    graph = Graph(res.emitted)
    walks = [p for _, p in graph.walks(lambda s: s['W']['h'] == [] and not any(s['vars']), 40)]
    _MODEL['m'] = m
    bad = [b for b in pmap(walk, walks) if b]
    chk.traced(graph.edges, f"replayed-transitions/{m['name']}")
    for b in bad[:50]:
        chk.violation(b, f"{b['history'][-1]['name']}:{'+'.join(b['faults'])}:{b['got'][:2]}")


def decide(chk, prop: str, count: int, length: int) -> None:
    seeds = [(f'{chk.seed}:{prop}:{i}', prop, length) for i in range(count)]
    traces = pmap(record, seeds)
    part = 4000
    for a in range(0, len(traces), part):
        batch = traces[a:a + part]
        res = tlc.run('Trace_Core', cfg='SPECIFICATION Spec\n', data={'traces.json': batch})
        chk.model(res, f'Trace_Core/{a // part}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            st = t['steps'][e['k'] - 1]
            chk.violation({'kind': 'trace', 'faults': e['faults'], 'seed': t['seed'], 'js': t['js'], 'schema': t['schema'],
                           'history': [s['op'] for s in t['steps'][:e['k']]],
                           'expected': e['expected'], 'got': st['out'], 'got_obs': st['obs']},
                          f"{st['op']['name']}:{'+'.join(sorted(e['faults']))}:{st['out'][:2]}")
    if traces:
        chk.sample(traces[0]['steps'][:3])


def run(prop: str, chk) -> None:
    from drivers.core_models import MODELS
    for m in MODELS[prop]():
        explore(chk, m)
    decide(chk, prop, chk.pick(1200, 30000), 14)
