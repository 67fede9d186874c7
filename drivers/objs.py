"""Computed fields, and rules that look at the object and at who acts on it
(JObj: C23, C24)."""
from __future__ import annotations
import itertools, json, random
from typing import Any
from lib import tlc
from lib.conform import Graph, Hang, pmap, time_limit
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException, UnauthorizedActionException

_count = itertools.count()
NULL = ['null']


def person(cls: str, id: str, a: Any, p: Any = NULL) -> dict:
    return {'cls': cls, 'id': id, 'a': NULL if a is None else ['int', a], 'p': p}


# 1-3 may be linked; 4 stands for the same user as 1; 5, 6 are not stored yet; 7 is of another class
PEOPLE = [person('U', '1', 1, ['o', 2]), person('U', '2', 2), person('U', '3', None, ['o', 1]), person('U', '1', 9, ['o', 2]),
          person('U', '', 4), person('U', '', 4), person('V', '1', 1)]
for _p in PEOPLE:
    _p['rep'] = 1 + next(i for i, q in enumerate(PEOPLE) if (q['cls'], q['id']) == (_p['cls'], _p['id']) and (q['id'] or q is _p))


def w_mark(o: Any) -> None:
    o._mark_unmodified()


class Found:
    """The answer of the store."""
    def __init__(self, obj: Any) -> None:
        self.obj = obj

    def exec(self) -> Any:
        return self.obj


class World:
    def __init__(self, cfg: dict, seed: str) -> None:
        self.cfg, self.rng = cfg, random.Random(seed)
        rng, g, w = self.rng, f'objs{next(_count)}', self
        mk = lambda name, fields, bases=(): type(name, bases, {'__annotations__': {n: object for n in fields}, **fields})  # noqa: E731
        pf = lambda: {'id': types.str.primary, 'a': types.int, 'p': types.objof('U').linkto}  # noqa: E731
        self.U, self.V = [jsonclass(class_graph=g)(mk(n, pf())) for n in ('U', 'V')]
        self.people = [{'U': self.U, 'V': self.V}[q['cls']](id=q['id'] or None, a=self.val(q['a'])) for q in cfg['people']]
        for q, o in zip(cfg['people'], self.people):
            if q['p'] != NULL:
                o.p = self.people[q['p'][1] - 1]
        own = types.objof('U').linkto
        own = {'none': lambda: own, 'direct': lambda: own.asopd,
               'same': lambda: own.asop(rng.choice([lambda o: o, lambda o, d: o])), 'boss': lambda: own.asop(lambda o: o.p)}[cfg['asop']]()
        data = {**pf(), 'b': types.int, 'own': own}
        calc = {}
        for c in cfg['calc']:
            t = types.int.getter(self.typed(c['get']) if rng.random() < .6 else (lambda st: lambda o: w.runs(st, o, None, o))(c['get']))
            if c['set']:
                to, st = c['set']
                t = t.setter(types.this.assign(to, self.given(st)) if rng.random() < .6 else
                             (lambda to, st: lambda v, o: setattr(o, to, w.runs(st, o, v, o)))(to, st))
            for s in c['check']:
                t = t.max(s[1]) if s[0] == 'max' else t.present
            calc[c['name']] = t.writeonly if c['hidden'] else t
        kw = {}
        if cfg['check']:
            for act in cfg['guard']:
                kw['can_' + act] = self.typed(cfg['check'])
        if cfg['hook']:
            to, st = cfg['hook']
            for on in ('on_create', 'on_update', 'on_delete'):
                kw[on] = rng.choice([types.this.assign(to, self.given(st)), types.assign(to, self.given(st)), [types.this.assign(to, self.given(st))],
                                     lambda o: setattr(o, to, w.runs(st, o, None, o)), lambda o, by: setattr(o, to, w.runs(st, o, None, o))])
        if rng.random() < .3:      # some of it inherited
            items = list({**data, **calc}.items())
            cut = rng.randint(1, len(items))
            B = jsonclass(class_graph=g)(mk('B', dict(items[:cut])))
            D = jsonclass(class_graph=g, **kw)(mk('D', dict(items[cut:]), (B,)))
        else:
            D = jsonclass(class_graph=g, **kw)(mk('D', {**data, **calc}))
        if kw and rng.random() < .4:    # the same checks have decided for a class of that name on another graph before
            g2 = g + 'twin'
            U2, V2 = [jsonclass(class_graph=g2)(mk(n, pf())) for n in ('U', 'V')]
            D2 = jsonclass(class_graph=g2, **kw)(mk('D', {**pf(), 'b': types.int, 'own': types.objof('U').linkto}))
            U2.id = staticmethod(lambda rid: Found(U2(id=rid)))
            for by in (U2(id='1', a=1), V2(id='1', a=1)):
                d = D2(id='d1', own_id='1')
                try:
                    d.opby(by).tojson()
                except UnauthorizedActionException:
                    pass
        self.U.id = staticmethod(lambda rid: Found(w.fetch(rid)))
        D._database_write = w_mark
        self.D = D
        self.docs = [D(id=i or None) for i in cfg['ids']]

    def val(self, v: list) -> Any:
        if v == NULL:
            return None
        return {'int': lambda: v[1], 'o': lambda: self.people[v[1] - 1], 'd': lambda: self.docs[v[1] - 1],
                'id': lambda: self.cfg['people'][v[1] - 1]['id']}[v[0]]()

    def enc(self, v: Any) -> list:
        if v is None:
            return NULL
        if type(v) is int:
            return ['int', v]
        for kind, lst in (('o', self.people), ('d', self.docs)):
            for i, o in enumerate(lst):
                if o is v:
                    return [kind, i + 1]
        return ['other', repr(v)[:50]]

    def fetch(self, i: Any) -> Any:
        return None if i is None else self.people[next(k for k, q in enumerate(self.cfg['people']) if q['cls'] == 'U' and q['id'] == i)]

    def given(self, steps: list) -> Any:
        if steps[0][0] == 'const':
            n = None if steps[0][1] == NULL else steps[0][1][1]
            return self.rng.choice([n, lambda: n])
        return self.typed(steps)

    def typed(self, steps: list) -> Any:
        t: Any = types
        for s in steps:
            k = s[0]
            if k in ('fval', 'fobj'):
                t = getattr(t, k)(s[1] if self.rng.random() < .8 else (lambda n: lambda: n)(s[1]))
            elif k in ('add', 'sub', 'mul', 'default', 'max', 'eq'):
                t = getattr(t, k)(s[1])
            elif k == 'addf':
                t = t.add(types.this.fval(s[1]).default(0) if self.rng.random() < .5 else (lambda f: lambda o: getattr(o, f) or 0)(s[1]))
            elif k == 'isobj':
                t = t.isobj(self.typed(s[1]))
            elif k == 'isobjof':
                t = t.isobjof(s[1] if s[1] == 'D' or self.rng.random() < .7 else {'U': self.U, 'V': self.V}[s[1]])
            else:
                t = getattr(t, k)
        return t

    def runs(self, steps: list, o: Any, inp: Any, v: Any) -> Any:
        for s in steps:
            k = s[0]
            if k == 'const':
                v = None if s[1] == NULL else s[1][1]
            elif k in ('this', 'getop', 'passin'):
                v = {'this': o, 'getop': o._operator, 'passin': inp}[k]
            elif k == 'default':
                v = s[1] if v is None else v
            elif v is not None:
                v = {'fval': lambda: getattr(v, s[1]), 'add': lambda: v + s[1], 'mul': lambda: v * s[1], 'sub': lambda: v - s[1],
                     'addf': lambda: v + (getattr(o, s[1]) or 0)}[k]()
        return v

    def attempt(self, op: dict) -> list:
        o = self.docs[op['j'] - 1]
        k = op['k']
        if k in ('assign', 'update', 'input'):
            try:
                v = self.val(op['v'])
                if k == 'assign':
                    setattr(o, op['f'], v)
                elif k == 'update':
                    o.update(**{op['f']: v})
                else:
                    o.set(**{op['f']: v})
            except ValidationException:
                return ['exc', 'Validation']
            except (AttributeError, TypeError, KeyError, IndexError, NameError) as e:
                return ['exc', type(e).__name__, str(e)[:80]]
            except Exception:
                return ['error']
        elif k == 'id':
            o.own_id = self.val(op['v'])
        elif k == 'opby':
            o.opby(self.val(op['v']))
        elif k == 'mark':
            w_mark(o)
        elif k == 'validate':
            o.validate(all_fields=True)
        elif k == 'save':
            o.save(validate_all_fields=True)
        elif k == 'delete':
            o.delete()
        elif k == 'read':
            r = o.tojson()
            ids = {q['id']: q['rep'] for q in self.cfg['people'] if q['cls'] == 'U' and q['id']}
            get = lambda n: ['int', r[n]] if r.get(n) is not None else NULL  # noqa: E731
            return ['json', [get('a'), get('b'), [get(c['name']) for c in self.cfg['calc']], ids.get(r.get('ownId'), 0)]]
        return ['ok']

    def see(self, o: Any) -> dict:
        own = self.enc(o.own)
        if own == NULL and o.own_id is not None:
            own = ['id', next((i + 1 for i, q in enumerate(self.cfg['people']) if q['cls'] == 'U' and q['id'] == o.own_id), 0)]
        return {'a': self.enc(o.a), 'b': self.enc(o.b), 'p': self.enc(o.p), 'own': own, 'new': o.is_new, 'mod': sorted(set(o.modified_fields)),
                'calc': [self.enc(getattr(o, c['name'])) for c in self.cfg['calc']]}

    def step(self, op: dict) -> dict:
        try:
            with time_limit(10):
                try:
                    out = self.attempt(op)
                except ValidationException as e:
                    out = ['invalid', sorted(e.keypath_messages)]
                except UnauthorizedActionException:
                    out = ['unauthorized']
                except Hang:
                    raise
                except Exception as e:
                    out = ['exc', type(e).__name__, str(e)[:80]]
                return {'out': out, 'obs': [self.see(o) for o in self.docs]}
        except Hang:
            return {'out': ['hang'], 'obs': []}
        except Exception as e:
            return {'out': ['exc', type(e).__name__, str(e)[:80]], 'obs': []}


# ---------------------------------------------------------------- small worlds
def cfg_(calc=(), asop='none', check=(), guard=(), hook=(), ids=('d1', 'd2')) -> dict:
    return {'people': PEOPLE, 'ids': list(ids), 'calc': [{'name': f'c{i + 1}', 'set': [], 'check': [], 'hidden': False, **c} for i, c in enumerate(calc)],
            'asop': asop, 'check': list(check), 'guard': list(guard), 'hook': list(hook)}


I = lambda n: ['int', n]  # noqa: E731,E741
THIS, GETOP, PASSIN = ['this'], ['getop'], ['passin']
GETS = [[['fval', 'a']], [THIS, ['fval', 'a'], ['mul', 2], ['add', 1]], [['fval', 'a'], ['default', 3], ['addf', 'b']], [['fval', 'p'], ['fval', 'a']],
        [GETOP, ['fval', 'a']], [THIS, ['fval', 'p'], ['fval', 'p'], ['fval', 'a'], ['sub', 1]], [['fval', 'b'], ['mul', -1], THIS, ['fval', 'b']]]
SETS = [[], ['a', [PASSIN]], ['b', [PASSIN, ['mul', 2]]], ['a', [PASSIN, ['addf', 'b']]], ['b', [GETOP, ['fval', 'a'], ['default', 7]]], ['a', [THIS, ['fval', 'b']]], ['b', [['const', I(7)]]], ['a', [['const', NULL]]]]
CHECKS = [[GETOP, ['isobj', [THIS, ['fval', 'own']]]], [THIS, ['fval', 'own'], ['isobj', [GETOP]]], [GETOP, ['isthis']], [GETOP, ['isobjof', 'U']], [GETOP, ['isobjof', 'D']],
          [GETOP, ['fval', 'a'], ['max', 1], ['present']], [THIS, ['fobj', 'own'], ['fval', 'a'], ['eq', 2]], [THIS, ['fobj', 'own'], ['fval', 'p'], ['isobj', [GETOP]]],
          [THIS, ['fval', 'p'], ['isobj', [GETOP, ['fval', 'p']]]], [['fval', 'b'], ['present'], ['max', 1]], [GETOP, ['isobjof', 'V']],
          [THIS, ['isthis'], ['isobj', [GETOP]], ['isobjof', 'D']], [GETOP, ['isobj', [GETOP]]], [GETOP, ['isobj', [THIS]]]]
HOOKS = [[], ['b', [THIS, ['fval', 'a'], ['mul', 2]]], ['a', [GETOP, ['fval', 'a'], ['default', 5]]], ['b', [['fval', 'b'], ['default', 0], ['add', 1]]], ['b', [['const', I(4)]]], ['a', [['const', I(0)]]]]


def calc_ops(c: dict, js=(1,)) -> list:
    ops = []
    for j in js:
        ops += [{'k': 'assign', 'j': j, 'f': 'a', 'v': v} for v in (I(1), I(4), NULL)] + [{'k': 'assign', 'j': j, 'f': 'b', 'v': v} for v in (I(0), I(2))]
        ops += [{'k': 'assign', 'j': j, 'f': 'p', 'v': ['o', 1]}, {'k': 'mark', 'j': j}, {'k': 'read', 'j': j}, {'k': 'validate', 'j': j}, {'k': 'opby', 'j': j, 'v': ['o', 2]}]
        for f in c['calc']:
            ops += [{'k': k, 'j': j, 'f': f['name'], 'v': I(n)} for k, n in (('assign', 1), ('update', 3), ('input', 5))]
    return ops


def op_ops(c: dict) -> list:
    ks = [k for k in (1, 2, 3, 4, 5, 6, 7) if c['asop'] == 'none' or k <= 4]
    if c['asop'] == 'boss':
        ks = [k for k in ks if PEOPLE[k - 1]['p'] != NULL]
    ops = [{'k': 'opby', 'j': 1, 'v': v} for v in [['o', k] for k in ks] + [NULL] + ([['d', 1], ['d', 2]] if c['asop'] == 'none' else [])]
    ops += [{'k': 'id', 'j': 1, 'v': v} for v in (['id', 1], ['id', 2], NULL)]
    ops += [{'k': 'assign', 'j': 1, 'f': 'own', 'v': v} for v in (['o', 1], ['o', 3], NULL)] + [{'k': 'assign', 'j': 1, 'f': 'p', 'v': ['o', 2]}, {'k': 'assign', 'j': 1, 'f': 'b', 'v': I(1)}]
    return ops + [{'k': k, 'j': 1} for k in ('mark', 'validate', 'save', 'read', 'delete')]


def models(prop: str) -> list:
    out = []
    if prop == 'C23':
        for g in GETS:
            for s in SETS:
                c = cfg_([{'get': g, 'set': s, 'check': [['max', 4]]}], ids=('d1',))
                c['ops'] = calc_ops(c)
                out.append(c)
        c = cfg_([{'get': GETS[1], 'set': SETS[3]}, {'get': [['fval', 'c1'], ['default', 0], ['add', 1]], 'set': ['b', [PASSIN]], 'hidden': True},
                  {'get': [['fval', 'c2'], ['addf', 'c1']], 'check': [['present'], ['max', 6]]}])
        c['ops'] = calc_ops(c, (1, 2))
        out.append(c)
    else:
        for asop in ('none', 'direct', 'same', 'boss'):
            for i, ch in enumerate(CHECKS):
                c = cfg_(asop=asop, check=ch, guard=[['read', 'create', 'update'], ['create', 'delete'], ['read', 'update', 'delete']][i % 3], hook=HOOKS[i % len(HOOKS)])
                c['ops'] = op_ops(c)
                out.append(c)
            for h in HOOKS:
                c = cfg_(asop=asop, hook=h)
                c['ops'] = op_ops(c)
                out.append(c)
        for ids in (('', ''), ('d1', 'd1')):       # documents not stored yet, and two objects for one stored document
            c = cfg_(check=[GETOP, ['isthis']], guard=['read', 'update'], ids=ids)
            c['ops'] = op_ops(c)
            out.append(c)
            c = cfg_(check=[GETOP, ['isobj', [THIS]]], guard=['read', 'create'], ids=ids)
            c['ops'] = op_ops(c)
            out.append(c)
    return out


_M: dict = {}


def tidy(out: list) -> list:
    return ['invalid', sorted(out[1])] if out[0] == 'invalid' else out


def walk(path: list) -> dict | None:
    cfg = _M['cfgs'][path[0]['s']['c'] - 1]
    w = World(cfg, f"{_M['seed']}:{json.dumps([t['o'] for t in path])[:200]}:{len(path)}")
    for i, tr in enumerate(path):
        g = w.step(tr['o'])
        want = [{**v, 'mod': sorted(v['mod'])} for v in tr['v']]
        faults = [n for n, a, b in (('outcome', g['out'], tidy(tr['r'])), ('content', g['obs'], want)) if a != b]
        if faults:
            return {'kind': 'replay', 'cfg': {k: v for k, v in cfg.items() if k not in ('ops', 'people')}, 'history': [x['o'] for x in path[:i + 1]],
                    'faults': faults, 'expected': {'out': tr['r'], 'obs': want}, 'got': g}
    return None


def explore(chk, prop: str) -> None:
    cfgs = models(prop)
    depth = chk.pick(3, 5) if prop == 'C23' else chk.pick(3, 4)
    part = chk.pick(len(cfgs), 12)
    for a in range(0, len(cfgs), part):
        batch = cfgs[a:a + part]
        res = tlc.run('MC_Obj', cfg='SPECIFICATION Spec\nINVARIANT Promised\nVIEW Seen\nACTION_CONSTRAINT Emit\n'
                      f'CONSTANTS Depth = {depth} Emitting = TRUE\n', data={'model.json': batch}, heap='16g')
        chk.model(res, f'MC_Obj/{a}/depth{depth}')
        g = Graph(res.emitted)
        fresh = {'a': NULL, 'b': NULL, 'p': NULL, 'own': NULL, 'new': True, 'mod': [], 'op': NULL}
        walks = [p for _, p in g.walks(lambda s: all(d == fresh for d in s['W']), 30)]
        _M.update(cfgs=batch, seed=chk.seed)
        bad = [b for b in pmap(walk, walks) if b]
        chk.traced(g.edges, 'replayed-transitions')
        for b in bad[:100]:
            chk.violation(b, f"{b['history'][-1]['k']}:{'+'.join(b['faults'])}:{b['got']['out'][:2]}")


# ---------------------------------------------------------------- random worlds
def rand_get(rng: random.Random, known: list) -> list:
    r = [rng.choice([THIS])] if rng.random() < .4 else []
    src = rng.random()
    if src < .2:
        r += [['fval', 'p'], ['fval', 'a']]
    elif src < .35:
        r = [GETOP, ['fval', 'a']]
    elif src < .45:
        r += [['fval', 'p'], ['fval', 'p'], ['fval', 'a']]
    else:
        r += [['fval', rng.choice(['a', 'b', *known])]]
    return r + [rng.choice([['add', rng.randint(-3, 3)], ['mul', rng.randint(-2, 3)], ['sub', 1], ['default', rng.randint(0, 4)], ['addf', rng.choice(['a', 'b', *known])]])
                for _ in range(rng.randint(0, 3))]


def rand_check(rng: random.Random) -> list:
    if rng.random() < .4:
        return rng.choice(CHECKS)
    src = rng.choice([[GETOP], [GETOP, ['fval', 'p']], [THIS, ['fval', 'p']], [THIS, ['fobj', 'own']], [['fval', 'p'], ['fval', 'p']], [THIS]])
    other = rng.choice([[GETOP], [THIS, ['fval', 'own']], [THIS, ['fval', 'p']], [GETOP, ['fval', 'p']], [THIS]])
    tests = rng.sample([['isobj', other], ['isobjof', rng.choice('UVD')], ['isthis'], ['present'], ['isobj', other]], rng.randint(1, 2))
    return src + tests


def record(arg: tuple) -> dict:
    seed, prop, length = arg
    rng = random.Random(seed)
    calc: list = []
    for i in range(rng.randint(1, 4) if prop == 'C23' else rng.randint(0, 1)):
        st = rng.choice([[], [rng.choice(['a', 'b']), [['const', rng.choice([NULL, I(rng.randint(0, 5))])]]], [rng.choice(['a', 'b']), [rng.choice([PASSIN, PASSIN, ['fval', 'a']]), *[rng.choice([['add', 2], ['mul', 3], ['sub', 1], ['default', 1], ['addf', 'b']]) for _ in range(rng.randint(0, 2))]]]])
        calc.append({'get': rand_get(rng, [f'c{k + 1}' for k in range(i)]), 'set': st, 'hidden': rng.random() < .2,
                     'check': rng.choice([[], [], [['max', rng.randint(0, 6)]], [['present']], [['present'], ['max', 5]]])})
    guarded = rng.random() < (.15 if prop == 'C23' else .8)
    cfg = cfg_(calc, rng.choice(['none', 'none', 'direct', 'same', 'boss']) if prop == 'C24' else 'none', rand_check(rng) if guarded else [],
               rng.sample(['read', 'create', 'update', 'delete'], rng.randint(1, 4)) if guarded else [], rng.choice(HOOKS) if rng.random() < .5 else [],
               rng.choice([('d1', 'd2'), ('d1', 'd2'), ('', ''), ('d1', ''), ('d1', 'd1')]))
    w = World(cfg, seed)
    who = [k for k in range(1, 8) if cfg['asop'] == 'none' or k <= 4 and (cfg['asop'] != 'boss' or PEOPLE[k - 1]['p'] != NULL)]
    steps: list = []
    names = [c['name'] for c in cfg['calc']]
    for _ in range(length):
        j = rng.choice([1, 1, 2])
        k = rng.choices(['assign', 'update', 'input', 'ref', 'id', 'opby', 'mark', 'validate', 'save', 'read', 'delete'],
                        [6, 2, 2, 2, 1, 2, 1, 2, 2, 3, .5] if prop == 'C23' else [2, .5, .5, 3, 3, 5, 1, 2, 4, 4, 2])[0]
        op: dict = {'k': k, 'j': j}
        if k in ('assign', 'update', 'input'):
            op['f'] = rng.choice(['a', 'b', *names, *names])
            op['v'] = rng.choice([NULL, I(rng.randint(-2, 6)), I(rng.randint(-2, 6))])
            if op['f'] in names and op['v'] == NULL and k == 'input':
                op['v'] = I(1)
        elif k == 'ref':
            op = {'k': 'assign', 'j': j, 'f': rng.choice(['p', 'own']), 'v': rng.choice([NULL, ['o', 1], ['o', 2], ['o', 3]])}
        elif k == 'id':
            op['v'] = rng.choice([NULL, ['id', 1], ['id', 2], ['id', 3]])
        elif k == 'opby':
            op['v'] = rng.choice([NULL] + [['o', x] for x in who] + ([['d', 1], ['d', 2]] if cfg['asop'] == 'none' else []))
        g = w.step(op)
        steps.append({'op': op, **g})
        if g['out'][0] in ('exc', 'hang') or not g['obs']:
            break
    return {'seed': seed, 'cfg': cfg, 'steps': steps}


def decide(chk, prop: str, count: int, length: int) -> None:
    traces = pmap(record, [(f'{chk.seed}:{prop}:{i}', prop, length) for i in range(count)])
    for a in range(0, len(traces), 4000):
        batch = traces[a:a + 4000]
        res = tlc.run('Trace_Obj', cfg='SPECIFICATION Spec\n', data={'traces.json': batch}, heap='16g')
        chk.model(res, f'Trace_Obj/{a // 4000}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            last = t['steps'][e['k'] - 1]
            chk.violation({'kind': 'trace', 'seed': t['seed'], 'cfg': {k: v for k, v in t['cfg'].items() if k != 'people'}, 'steps': [s['op'] for s in t['steps'][:e['k']]],
                           'faults': e['faults'], 'expected': e['expected'], 'got': {'out': last['out'], 'obs': last['obs']}},
                          f"{last['op']['k']}:{'+'.join(e['faults'])}:{last['out'][:2]}")
    chk.sample({k: v for k, v in traces[0].items() if k != 'cfg'})


def run(prop: str, chk) -> None:
    explore(chk, prop)
    decide(chk, prop, chk.pick(1500, 12000), chk.pick(25, 40))
