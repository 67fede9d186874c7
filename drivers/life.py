"""Saving, deleting, reading and who may do it (JLife: C12, C13)."""
from __future__ import annotations
import itertools, random
from typing import Any
from lib import tlc
from lib.conform import Graph, Hang, pmap, time_limit
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException, UnauthorizedActionException

_count = itertools.count()


class Boom(Exception):
    pass


class By:
    """An operator."""
    def __init__(self, name: str) -> None:
        self.name = name
        self._id = name


BY = {n: By(n) for n in ('ann', 'bob', 'cat')}


def by_name(op: Any) -> str:
    return 'none' if op is None else op.name


class World:
    def __init__(self, classes: dict) -> None:
        self.log: list = []
        self.objs: list = []
        self.bad: set = set()
        self.fetch = 0
        cfg = classes['K']
        w = self
        g = f'life{next(_count)}'

        Sub = jsonclass(class_graph=g)(self._cls('Sub', {
            'v': types.int.validate(lambda v: v >= 0),
            's': types.int.default(0).setonsave(lambda v: w.bump(v))}))
        kw = {}
        for k, name, act in (('cc', 'can_create', 'create'), ('cu', 'can_update', 'update'),
                             ('cd', 'can_delete', 'delete'), ('cr', 'can_read', 'read')):
            if cfg[k]:
                cs = [self.check(c, act) for c in cfg[k]]
                kw[name] = cs if len(cs) > 1 or cfg[k][0].get('listed') else cs[0]
        for k, name, act in (('oc', 'on_create', 'create'), ('ou', 'on_update', 'update'), ('od', 'on_delete', 'delete')):
            if cfg[k]:
                cs = [self.callback(c, act) for c in cfg[k]]
                kw[name] = cs if len(cs) > 1 else cs[0]
        f = types.int.default(0)
        for c in cfg['fc']:
            f = f.canc(self.fcheck(c))
        for c in cfg['fu']:
            f = f.canu(self.fcheck(c))
        for c in cfg['fr']:
            f = f.canr(self.fcheck(c))
        if cfg.get('fw'):                  # one mark for both
            f = f.canw(self.fcheck(cfg['fw'][0]))
        cap = cfg['cap']
        K = jsonclass(class_graph=g, **kw)(self._cls('K', {
            'id': types.str.primary,
            'v': types.int.validate(lambda v: v >= 0).onwrite(lambda v, ctx: w.log.append(['wr', w.num(ctx.owner), v])),
            'm': types.int.default(0).compare(lambda a, b: None if b >= a else False).onupdate(
                lambda a, b, ctx: w.log.append(['upd', w.num(ctx.owner), a, b])),
            's': types.int.default(0).setonsave(lambda v: w.bump(v)).validate(lambda v: v <= cap),
            'f': f,
            'up': types.objof('K').linkto,
            'downs': types.nonnull.listof('K').linkedby('up'),
            'sub': types.objof('Sub')}))
        K._database_write = lambda o: w.write(o)
        K._orm_delete = lambda o: w.erase(o)
        K._orm_restore = lambda o: w.log.append(['restore', w.num(o)])
        K._orm_complete = lambda o: w.filled(o)
        self.K, self.Sub = K, Sub

    @staticmethod
    def _cls(name: str, fields: dict) -> type:
        return type(name, (), {'__annotations__': {n: object for n in fields}, **fields})

    def num(self, o: Any) -> int:
        return next((i + 1 for i, x in enumerate(self.objs) if x is o), -1)

    # the owner of a value being raised is found by the order of the log: the
    # callback only gets the value, so remember which objects changed instead
    def bump(self, v: int) -> int:
        self.log.append(['ss', None, v])
        return v + 1

    def write(self, o: Any) -> None:
        self.name_bumps()
        n = self.num(o)
        self.log.append(['write', n])
        if n in self.bad:
            raise Boom()
        o._mark_unmodified()
        self.snap = [getattr(x, 's') for x in self.objs]

    def erase(self, o: Any) -> None:
        self.log.append(['delete', self.num(o)])
        if self.num(o) in self.bad:
            raise Boom()

    def filled(self, o: Any) -> None:
        self.log.append(['complete', self.num(o)])
        o.v = self.fetch

    def name_bumps(self) -> None:
        """Which objects the unnamed on-save calls since the last write were for."""
        now = [getattr(x, 's') for x in self.objs]
        run = [e for e in self.log if e[0] == 'ss' and e[1] is None]
        moved = [(i + 1, a) for i, (a, b) in enumerate(zip(self.snap, now)) if a != b]
        i = next((k for k, e in enumerate(self.log) if e[0] == 'ss' and e[1] is None), None)
        ok = sorted(a for _, a in moved) == sorted(e[2] for e in run) and \
            all(now[n - 1] == a + 1 for n, a in moved)
        if i is not None:
            self.log[:] = self.log[:i] + ([['ss', n, a] for n, a in moved] if ok else [['ss?', len(run), len(moved)]]) + \
                [e for e in self.log[i:] if not (e[0] == 'ss' and e[1] is None)]
        self.snap = now

    def verdict(self, c: dict, op: Any) -> Any:
        good = by_name(op) in c['ok']
        return {'none': None, 'true': True}[c['yes']] if good else {'false': False, 'str': 'no way', 'zero': 0, 'empty': '', 'list': [1], 'obj': op, 'two': 2.5}[c['no']]

    def check(self, c: dict, act: str):
        w = self
        if c['how'] == 'fun':
            def f(o, op):
                w.name_bumps()
                w.log.append(['can', act, c['id'], w.num(o), by_name(op)])
                return w.verdict(c, op)
            return f

        def g(op, ctx):
            w.name_bumps()
            w.log.append(['can', act, c['id'], w.num(ctx.root), by_name(op)])
            return w.verdict(c, op)
        t = types.getop.validate(g)
        return t.transform(lambda x: x) if c['how'] == 'eager' else t

    def fcheck(self, c: dict):
        w = self
        if c['how'] == 'fun':
            fs = [lambda op: w.verdict(c, op), lambda op, o: w.verdict(c, op),
                  lambda op, o, v: w.verdict(c, op), lambda op, o, v, x: w.verdict(c, op)]
            return fs[c['args'] - 1]
        t = types.getop.validate(lambda op: w.verdict(c, op))
        return t.transform(lambda x: x) if c['how'] == 'eager' else t

    def callback(self, c: dict, act: str):
        w = self

        def body(o, op, named):
            w.name_bumps()
            w.log.append(['on', act, c['id'], w.num(o), by_name(op) if named else ''])
            if by_name(o._operator) in c['boom']:
                raise Boom()
        if c['two']:
            return lambda o, op: body(o, op, True)
        return lambda o: body(o, None, False)

    def run(self, op: dict) -> list:
        n = op['name']
        o = self.objs[op['o'] - 1] if 'o' in op else None
        self.bad = set(op.get('bad', []))
        if n == 'new':
            kw = {'id': f'k{len(self.objs)}', 'v': op['v']}
            if op['sub']:
                kw['sub'] = {'v': op['subv']}
            k = self.K(**kw)
            if op['sub']:
                self.objs.append(k.sub)
            self.objs.append(k)
        elif n == 'opby':
            if o.opby(None if op['by'] == 'none' else BY[op['by']]) is not o:
                return ['other']
        elif n == 'setv':
            o.v = op['v']
        elif n == 'setf':
            o.f = op['v']
        elif n == 'setm':
            o.m = op['v']
        elif n == 'subv':
            o.sub.v = op['v']
        elif n == 'up':
            o.up = self.objs[op['p'] - 1] if op['p'] else None
        elif n == 'drop':
            o.up.downs.remove(o)
        elif n == 'store':
            o._mark_unmodified()
        elif n == 'pick':
            o.pick(['id', 'v'])
        elif n == 'complete':
            self.fetch = op['v']
            o.complete()
        elif n == 'restore':
            o.restore()
        elif n == 'validate':
            o.validate()
        elif n == 'save':
            if o.save(skip_validation=op['skip'], validate_all_fields=op.get('all', False)) is not o:
                return ['other']
        elif n == 'delete':
            o.delete()
        elif n == 'json':
            j = o.tojson()
            f = j.get('f')
            return ['json', -1 if f is None else f, -99 if j['v'] is None else j['v']]
        return ['ok']

    def step(self, op: dict) -> dict:
        del self.log[:]
        self.snap = [getattr(x, 's') for x in self.objs]
        try:
            with time_limit(5):
                out = self.run(op)
        except UnauthorizedActionException:
            out = ['exc', 'Unauthorized']
        except ValidationException:
            out = ['exc', 'Validation']
        except Boom:
            out = ['exc', 'Boom']
        except Hang:
            out = ['exc', 'Hang']
        except Exception as e:
            out = ['exc', type(e).__name__]
        if op['name'] != 'new':
            self.name_bumps()
        return {'op': op, 'log': list(self.log), 'out': out, 'obs': self.obs()}

    def obs(self) -> list:
        def num(x):
            return x if type(x) is int else -99
        res = []
        for o in self.objs:
            k = type(o) is self.K

            def ref(x):
                return 0 if x is None else self.num(x)
            res.append({'c': 'K' if k else 'sub', 'new': o.is_new, 'mod': sorted(o._modified_fields), 'v': num(o.v), 's': num(o.s),
                        'f': num(o.f) if k else 0, 'm': num(o.m) if k else 0, 'up': ref(o.up) if k else 0, 'downs': [ref(x) for x in o.downs] if k and isinstance(o.downs, list) else [],
                        'sub': ref(o.sub) if k else 0,
                        'pool': [[n, [ref(x) for x in l]] for n, l in o._unlinked_objects.items() if l] if k else []})
        return res


def norm(log: list) -> list:
    """On-save calls between two other entries: as a set (who, with what)."""
    out: list = []
    for e in log:
        if e[0] in ('ss', 'wr', 'upd'):
            if out and out[-1][0] == 'ss*':
                out[-1][1].append(e)
            else:
                out.append(['ss*', [e]])
        else:
            out.append(e)
    for e in out:
        if e[0] == 'ss*':
            e[1].sort()
    return out


def shown(W: list) -> list:
    return [{k: (sorted(x[k]) if k == 'mod' else [p for p in x[k] if p[1]] if k == 'pool' else x[k])
             for k in ('c', 'new', 'mod', 'v', 's', 'f', 'm', 'up', 'downs', 'sub', 'pool')} for x in W]


_MODEL: dict = {}


def walk(path: list) -> dict | None:
    m = _MODEL['m']
    w = World(m['classes'])
    for i, tr in enumerate(path):
        g = w.step(tr['o'])
        faults = [n for n, a, b in (('calls', norm(g['log']), norm(tr['r']['log'])), ('outcome', g['out'], tr['r']['out']),
                                    ('content', g['obs'], shown(tr['t']))) if a != b]
        if faults:
            return {'kind': 'replay', 'model': m['name'], 'classes': m['classes'], 'faults': faults,
                    'history': [x['o'] for x in path[:i + 1]], 'expected': {**tr['r'], 'obs': shown(tr['t'])}, 'got': g}
    return None


def explore(chk, m: dict) -> None:
    depth = chk.pick(*m['depth'])
    res = tlc.run('MC_Life', cfg='SPECIFICATION Spec\nINVARIANT Promised\nVIEW View\nACTION_CONSTRAINT Emit\n'
                  f'CONSTANTS Depth = {depth} Emitting = TRUE\n', data={'model.json': m}, heap='16g')
    chk.model(res, f"MC_Life/{m['name']}/depth{depth}")
    g = Graph(res.emitted)
    walks = [p for _, p in g.walks(lambda s: s == [], 40)]
    _MODEL['m'] = m
    bad = [b for b in pmap(walk, walks) if b]
    chk.traced(g.edges, f"replayed-transitions/{m['name']}")
    for b in bad[:100]:
        chk.violation(b, f"{b['history'][-1]['name']}:{'+'.join(b['faults'])}:{b['got']['out']}")


# ---------------------------------------------------------------- small worlds
def chk_(i, ok, how='fun', yes='none', no='false', **k):
    return {'id': str(i), 'ok': ok, 'how': how, 'yes': yes, 'no': no, 'args': 1, **k}


def cb(i, two=False, boom=()):
    return {'id': str(i), 'two': two, 'boom': list(boom)}


def cfg(**k):
    return {**{x: [] for x in ('cc', 'cu', 'cd', 'cr', 'oc', 'ou', 'od', 'fc', 'fu', 'fr')}, 'cap': 1000, **k}


def new(v=1, sub=False, subv=1):
    return {'name': 'new', 'c': 'K', 'v': v, 'sub': sub, 'subv': subv}


def save(o, skip=False, bad=()):
    return {'name': 'save', 'o': o, 'skip': skip, 'bad': list(bad)}


def o_(name, o, **k):
    return {'name': name, 'o': o, **k}


def phases() -> list[dict]:
    K = cfg(oc=[cb(1), cb(2, True, ['cat'])], ou=[cb(3, True)], od=[cb(4), cb(5, True, ['cat'])], cu=[chk_(6, ['ann', 'cat'])], cap=3)
    ops = [new(1), new(-1), o_('opby', 1, by='ann'), o_('opby', 1, by='cat'), o_('setv', 1, v=-2), o_('setv', 1, v=2), o_('setm', 1, v=1), o_('setm', 1, v=0), o_('store', 1),
           save(1), save(1, True), save(1, False, [1]), o_('delete', 1, bad=[]), o_('delete', 1, bad=[1]), o_('restore', 1),
           o_('pick', 1), o_('complete', 1, v=7), o_('validate', 1)]
    m1 = dict(name='phases', classes={'K': K}, ops=ops, max=1, depth=(7, 10))
    K2 = cfg(ou=[cb(1, False, ['bob'])], oc=[cb(2)], cap=2)
    ops = [new(1), new(1, True, -1), o_('up', 1, p=2), o_('up', 2, p=1), o_('up', 3, p=1), o_('up', 2, p=0), o_('drop', 2), o_('drop', 3),
           o_('store', 2), o_('store', 1), o_('opby', 2, by='bob'), o_('setv', 2, v=-5), o_('setm', 2, v=1), o_('setm', 2, v=0), save(1), save(2), save(1, True), save(1, True, [2]), o_('subv', 2, v=3)]
    m2 = dict(name='linked', classes={'K': K2}, ops=ops, max=3, depth=(5, 7))
    return [m1, m2]


def guarded() -> list[dict]:
    out = []
    for how, yes, no in (('fun', 'none', 'false'), ('fun', 'true', 'str'), ('fun', 'true', 'zero'), ('fun', 'none', 'obj'), ('types', 'none', 'false'), ('eager', 'true', 'str')):
        K = cfg(cc=[chk_(1, ['ann', 'bob'], how, yes, no), chk_(2, ['ann', 'cat'], 'fun', 'none', 'str')], cu=[chk_(3, ['bob', 'ann'], how, yes, no)],
                cd=[chk_(4, ['ann'], how, yes, no, listed=True)], cr=[chk_(5, ['ann', 'cat'], how, yes, no)],
                fc=[chk_(6, ['ann', 'bob'], how, yes, 'false' if no in ('zero', 'obj') else no)], fu=[chk_(7, ['bob'], how, yes, 'str', args=3)],
                fr=[chk_(8, ['ann'], how, yes, 'false', args=2)])
        ops = [new(1), *[o_('opby', 1, by=b) for b in ('none', 'ann', 'bob', 'cat')], o_('setf', 1, v=4), o_('setv', 1, v=2), o_('store', 1),
               save(1), save(1, True), o_('delete', 1, bad=[]), o_('json', 1), o_('validate', 1)]
        out.append(dict(name=f'guarded-{how}-{yes}-{no}', classes={'K': K}, ops=ops, max=1, depth=(6, 9)))
    return out


# ---------------------------------------------------------------- random worlds
def rand_cfg(rng: random.Random, heavy: float) -> dict:
    ids = itertools.count(1)

    def checks(field=False):
        if rng.random() > heavy:
            return []
        r = []
        for _ in range(rng.randint(1, 1 if field else 3)):
            how = rng.choice(['fun', 'fun', 'types', 'eager'])
            r.append(chk_(next(ids), rng.sample(['ann', 'bob', 'cat'], rng.randint(1, 3)), how, rng.choice(['none', 'true']),
                          rng.choice(['false', 'str'] + (['zero', 'empty', 'list', 'obj', 'two'] if how == 'fun' and not field else [])), args=rng.randint(1, 4), listed=rng.random() < .5))
        return r

    def cbs():
        return [cb(next(ids), rng.random() < .5, rng.sample(['none', 'ann', 'bob', 'cat'], rng.choice([0, 0, 0, 1])))
                for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    K = cfg(cc=checks(), cu=checks(), cd=checks(), cr=checks(), oc=cbs(), ou=cbs(), od=cbs(), cap=rng.choice([2, 3, 1000]),
            fc=checks(True), fu=checks(True), fr=checks(True))
    if rng.random() < .3 and K['fc']:
        K['fw'] = [dict(K['fc'][0])]
        # the mark for both adds its check to creating and updating
        K['fc'] = K['fc'] + K['fw']
        K['fu'] = K['fu'] + K['fw']
    return K


def record(arg: tuple) -> dict:
    seed, prop, length = arg
    rng = random.Random(seed)
    K = rand_cfg(rng, .3 if prop == 'C12' else .6)
    spec = K
    if 'fw' in K:        # build: the shared mark is added once, by canw
        spec = {k: v for k, v in K.items() if k != 'fw'}
        K = {**K, 'fc': K['fc'][:-1], 'fu': K['fu'][:-1]}
    w = World({'K': K})
    steps: list = []
    weights = {'C12': {'new': 2, 'opby': 2, 'setv': 2, 'setm': 3, 'subv': 1, 'up': 5, 'drop': 2, 'store': 3, 'save': 7, 'delete': 1, 'pick': .3, 'complete': .5, 'restore': .3, 'validate': 1, 'setf': .5, 'json': .3},
               'C13': {'new': 2, 'opby': 5, 'setv': 2, 'setf': 3, 'store': 3, 'save': 5, 'delete': 3, 'json': 4, 'up': 2, 'drop': 1, 'validate': 2, 'subv': .3}}[prop]
    part: set = set()
    for _ in range(length):
        ks = [i + 1 for i, o in enumerate(w.objs) if type(o) is w.K]
        n = rng.choices(list(weights), list(weights.values()))[0]
        if not ks or (n == 'new' and len(w.objs) > 5):
            n = 'new' if not ks else 'save'
        x = rng.choice(ks) if ks else 0
        o = w.objs[x - 1] if ks else None
        op: dict = {'name': n, 'o': x}
        if n == 'new':
            op = new(rng.choice([1, 2, 2, -1]), rng.random() < .3, rng.choice([1, 1, -1]))
        elif n == 'opby':
            op['by'] = rng.choice(['none', 'ann', 'ann', 'bob', 'cat'])
        elif n in ('setv', 'setf', 'setm'):
            op['v'] = rng.choice([1, 2, 3, -1] if n == 'setv' else [0, 1, 2] if n == 'setf' else [0, 1, 2, 3])
        elif n == 'subv':
            if o.sub is None:
                continue
            op['v'] = rng.choice([1, 2, -1])
        elif n == 'up':
            op['p'] = rng.choice([0, *ks])
        elif n == 'drop':
            if o.up is None:
                continue
        elif n == 'save':
            op = save(x, rng.random() < .35, [k for k in ks if rng.random() < .1])
            op['all'] = rng.random() < .3
        elif n == 'delete':
            op['bad'] = [x] if rng.random() < .15 else []
        elif n == 'pick':
            part.add(x)
        elif n == 'complete':
            op['v'] = rng.choice([5, 6])
        elif n == 'json' and x in part:
            continue
        steps.append(w.step(op))
    return {'seed': seed, 'classes': {'K': spec}, 'steps': [{**s, 'log': s['log']} for s in steps]}


def decide(chk, prop: str, count: int, length: int) -> None:
    traces = pmap(record, [(f'{chk.seed}:{prop}:{i}', prop, length) for i in range(count)])
    for a in range(0, len(traces), 4000):
        batch = traces[a:a + 4000]
        res = tlc.run('Trace_Life', cfg='SPECIFICATION Spec\n', data={'traces.json': batch})
        chk.model(res, f'Trace_Life/{a // 4000}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            st = t['steps'][e['k'] - 1]
            chk.violation({'kind': 'trace', 'faults': e['faults'], 'seed': t['seed'], 'classes': t['classes'],
                           'history': [s['op'] for s in t['steps'][:e['k']]], 'expected': e['expected'], 'got': st},
                          f"{st['op']['name']}:{'+'.join(sorted(e['faults']))}:{st['out'][:2]}")
    chk.sample(traces[0]['steps'][:3])


def run(prop: str, chk) -> None:
    for m in (phases if prop == 'C12' else guarded)():
        explore(chk, m)
    decide(chk, prop, chk.pick(1500, 30000), 16)
