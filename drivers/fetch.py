"""Fetching references from a store (JFetch: C25)."""
from __future__ import annotations
import itertools, json, random
from typing import Any
from lib import tlc
from lib.conform import Graph, Hang, pmap, time_limit
from jsonclasses import jsonclass, types
from jsonclasses.excs import JSONClassResetError

_count = itertools.count()


class Found:
    def __init__(self, res: Any) -> None:
        self.res = res

    def exec(self) -> Any:
        return self.res


class World:
    """Real classes for a configuration, a pool of objects and a store answering with them."""

    def __init__(self, cfg: dict, seed: str) -> None:
        self.cfg, rng = cfg, random.Random(seed)
        g, w = f'fetch{next(_count)}', self
        self.written: list = []
        self.stored = [{tuple(p) for p in r['pairs']} for r in cfg['rels']]
        bodies: dict = {}
        for r in cfg['rels']:
            a, b = r['a'], r['b']
            for me, far in ((a, b), (b, a)):
                if not me['field']:
                    continue
                t = types.listof(far['cls']) if me['many'] else types.objof(far['cls'])
                if r['thru']:
                    t = t.linkedthru(far['field'])
                else:
                    t = t.linkto if me is a else t.linkedby(a['field'])
                bodies.setdefault(me['cls'], {})[me['field']] = t
        kw = {'class_graph': g, 'reset_all_fields': True}
        self.cls: dict = {}
        for n in sorted({o['cls'] for o in cfg['objs']} | {e['cls'] for r in cfg['rels'] for e in (r['a'], r['b'])}):
            fields = {'id': types.str.primary.required, 'name': types.int, 'more': types.int, **bodies.get(n, {})}
            items = list(fields.items())
            if rng.random() < .3:
                rng.shuffle(items)
            c = type(n, (), {'__annotations__': {k: object for k, _ in items}, **dict(items)})
            c = jsonclass(**kw)(c)
            self.cls[n] = c
        for n, c in self.cls.items():
            c.id = staticmethod((lambda n: lambda i, *a: Found(w.by_id(n, i)))(n))
            c.ids = staticmethod((lambda n: lambda ii, *a: Found([o for o in (w.by_id(n, i) for i in ii or []) if o is not None]))(n))
            c.one = staticmethod((lambda n: lambda **q: Found(next(iter(w.find(n, q)), None)))(n))
            c.find = staticmethod((lambda n: lambda **q: Found(w.find(n, q)))(n))
            c._database_write = w_write(w)
            c._orm_complete = w_complete(w)
        self.objs: list = []
        for i, o in enumerate(cfg['objs']):
            args = {'id': o['id'], 'name': 0}
            for r, rel in enumerate(cfg['rels']):
                if rel['a']['cls'] == o['cls'] and rel['a']['ids']:
                    ids = [cfg['objs'][q - 1]['id'] for p, q in sorted(self.stored[r]) if p == i + 1]
                    if rel['a']['many']:
                        args[self.ref(rel['a'])] = ids
                    elif ids:
                        args[self.ref(rel['a'])] = ids[0]
            obj = self.cls[o['cls']](**args)
            if o['part']:
                obj._is_partial = True
                obj._partial_picks = ['id', 'name']
            else:
                obj.more = i + 1
            if not o['new']:
                obj._mark_unmodified()
            self.objs.append(obj)

    def ref(self, end: dict) -> str:
        cdef = self.cls[end['cls']].cdef
        return cdef.jconf.ref_name_strategy(cdef.field_named(end['field']))

    def by_id(self, n: str, i: Any) -> Any:
        return next((o for o, d in zip(self.objs, self.cfg['objs']) if d['cls'] == n and d['id'] == i), None)

    def find(self, n: str, query: dict) -> list:
        """Objects of class `n` related, at the end named by the key, to the given id."""
        (key, val), = query.items()
        vals = val if isinstance(val, list) else [val]
        for r, rel in enumerate(self.cfg['rels']):
            for e, f in (('a', 0), ('b', 1)):
                if rel[e]['cls'] == n and rel[e]['field'] and self.ref(rel[e]) == key:
                    hit = {p[f] for p in self.stored[r] if self.cfg['objs'][p[1 - f] - 1]['id'] in vals}
                    return [self.objs[i - 1] for i in sorted(hit)]
        raise LookupError(key)

    def attempt(self, op: dict) -> list:
        k, o = op['k'], self.objs[op['i'] - 1]
        if k == 'include':
            r = o.include(self.cfg['rels'][op['r'] - 1][op['e']]['field'])
            return ['ok'] if r is o else ['returned', repr(r)[:40]]
        if k == 'data':
            r = o.include('name')
            return ['ok'] if r is o else ['returned', repr(r)[:40]]
        if k == 'name':
            o.name = op['v']
        elif k == 'complete':
            r = o.complete()
            return ['ok'] if r is o else ['returned', repr(r)[:40]]
        elif k == 'mark':
            o._mark_unmodified()
        elif k == 'reset':
            try:
                o.reset()
            except JSONClassResetError:
                return ['refused']
        elif k == 'read':
            return ['json', o.tojson()['name']]
        elif k == 'save':
            self.written = []
            o.save()
            return ['written', sorted(self.written)]
        elif k == 'move':
            rel = self.cfg['rels'][op['r'] - 1]
            ids = [self.cfg['objs'][q - 1]['id'] for q in op['to']]
            setattr(o, self.ref(rel['a']), ids if rel['a']['many'] else ids[0] if ids else None)
            self.stored[op['r'] - 1] = {p for p in self.stored[op['r'] - 1] if p[0] != op['i']} | {(op['i'], q) for q in op['to']}
            o._mark_unmodified()
        return ['ok']

    def see(self, i: int) -> dict:
        o, d = self.objs[i], self.cfg['objs'][i]
        num = lambda x: next((k + 1 for k, q in enumerate(self.objs) if q is x), 0)  # noqa: E731
        ends = []
        for r, rel in enumerate(self.cfg['rels']):
            for e in 'ab':
                end = rel[e]
                if not end['field'] or end['cls'] != d['cls']:
                    continue
                v = getattr(o, end['field'])
                objs = [num(x) for x in (v or [])] if end['many'] else [num(v)] if v is not None else []
                if len(set(objs)) != len(objs):
                    objs.append(-1)
                ids: list = []
                if end['ids']:
                    ids = getattr(o, self.ref(end))
                    ids = list(ids or []) if end['many'] else [ids] if ids is not None else []
                    dup = len(set(ids)) != len(ids)
                    ids = [num(self.by_id(rel['b']['cls'], x)) for x in ids] + ([-1] if dup else [])
                ends.append([r + 1, e, sorted(objs), sorted(ids)])
        mod = sorted(set(o.modified_fields))
        if o.is_modified != bool(mod):
            mod.append('!')
        prev = sorted(([k, v if isinstance(v, int) else repr(v)[:30]] for k, v in o.previous_values.items()), key=str)
        if any(o.unlinked_objects.values()):
            mod.append('unlinked')
        return {'name': o.name, 'more': o.more or 0, 'new': o.is_new, 'mod': mod, 'prev': prev, 'ends': ends}

    def step(self, op: dict) -> dict:
        try:
            with time_limit(10):
                try:
                    out = self.attempt(op)
                except Hang:
                    raise
                except Exception as e:
                    out = ['exc', type(e).__name__, str(e)[:80]]
                return {'out': out, 'obs': [self.see(i) for i in range(len(self.objs))]}
        except Hang:
            return {'out': ['hang'], 'obs': []}
        except Exception as e:
            return {'out': ['exc', type(e).__name__, str(e)[:80]], 'obs': []}


def w_complete(w: World) -> Any:
    def complete(o: Any) -> None:
        o.more = next((k + 1 for k, q in enumerate(w.objs) if q is o), 0)
        o._is_partial = False
    return complete


def w_write(w: World) -> Any:
    def write(o: Any) -> None:
        w.written.append(next((k + 1 for k, q in enumerate(w.objs) if q is o), 0))
        o._mark_unmodified()
    return write


# ---------------------------------------------------------------- worlds
def end(cls: str, field: str, many: bool, ids: bool = False) -> dict:
    return {'cls': cls, 'field': field, 'many': many, 'ids': ids}


def rel(kind: str, n: int, ca: str, cb: str, pairs: list) -> dict:
    """one: 1-1, more: n-1, own: 1-n holding ids, many: n-n, thru: n-n in a table, way: no way back."""
    x, y = f'x{n}', f'y{n}'
    am, bm = {'one': (0, 0), 'more': (0, 1), 'own': (1, 0), 'many': (1, 1), 'thru': (1, 1), 'way': (0, 1), 'ways': (1, 1)}[kind]
    return {'kind': kind, 'thru': kind == 'thru', 'a': end(ca, x, bool(am), kind != 'thru'), 'b': end(cb, '' if kind in ('way', 'ways') else y, bool(bm)), 'pairs': pairs}


def ops_of(cfg: dict, names=(1, 2), some=None) -> list:
    ops = []
    for i, o in enumerate(cfg['objs'], 1):
        for r, q in enumerate(cfg['rels'], 1):
            for e in 'ab':
                if q[e]['field'] and q[e]['cls'] == o['cls']:
                    ops.append({'k': 'include', 'i': i, 'r': r, 'e': e})
        if some is None or i in some:
            ops += [{'k': 'name', 'i': i, 'v': v} for v in names] + [{'k': k, 'i': i} for k in ('mark', 'reset', 'read', 'save', 'data', 'complete')]
    return ops


def moves(cfg: dict) -> list:
    out = []
    for i, o in enumerate(cfg['objs'], 1):
        for r, q in enumerate(cfg['rels'], 1):
            if q['a']['cls'] == o['cls'] and q['a']['ids']:
                far = [k for k, p in enumerate(cfg['objs'], 1) if p['cls'] == q['b']['cls'] and k != i]
                out += [{'k': 'move', 'i': i, 'r': r, 'to': [k]} for k in far] + [{'k': 'move', 'i': i, 'r': r, 'to': []}]
                if q['a']['many']:
                    out += [{'k': 'move', 'i': i, 'r': r, 'to': list(p)} for p in itertools.permutations(far, 2)]
    return out


def obj(cls: str, i: str, new: bool = False, part: bool = False) -> dict:
    return {'cls': cls, 'id': i, 'new': new, 'part': part}


def models() -> list:
    out = []
    pool = [obj('A', '1'), obj('A', '2'), obj('B', '1'), obj('B', '2')]
    full = {'one': [[1, 3], [2, 4]], 'more': [[1, 3], [2, 3]], 'own': [[1, 3], [1, 4]], 'many': [[1, 3], [1, 4], [2, 4]], 'thru': [[1, 3], [1, 4], [2, 4]],
            'way': [[1, 3], [2, 3]], 'ways': [[1, 3], [1, 4], [2, 4]]}
    for kind, pairs in full.items():
        for new in (False, True):
            objs = [{**o, 'new': new and i == 0 and kind != 'thru', 'part': i == 2 or not new and i == 0} for i, o in enumerate(pool)]
            cfg = {'objs': objs, 'rels': [rel(kind, 1, 'A', 'B', pairs)]}
            cfg['ops'] = ops_of(cfg, (1,), (1, 3)) + moves(cfg)
            out.append(cfg)
        if kind != 'thru':     # related to its own kind
            cfg = {'objs': [obj('A', str(i)) for i in (1, 2, 3)], 'rels': [rel(kind, 1, 'A', 'A', {'one': [[1, 2], [2, 3]], 'own': [[1, 2], [1, 3]]}.get(kind, [[1, 2], [3, 2]]))]}
            cfg['ops'] = ops_of(cfg, (1,), (1, 2))
            out.append(cfg)
    cfg = {'objs': [*pool[:3], obj('C', '1')], 'rels': [rel('more', 1, 'A', 'B', [[1, 3], [2, 3]]), rel('many', 2, 'A', 'C', [[1, 4], [2, 4]]), rel('one', 3, 'C', 'B', [[4, 3]])]}
    cfg['ops'] = ops_of(cfg, (1,), (1,))
    out.append(cfg)
    return out


_M: dict = {}


def norm(v: list) -> list:
    return [{**o, 'mod': sorted(o['mod']), 'prev': sorted(o['prev']), 'ends': sorted([r, e, sorted(a), sorted(b)] for r, e, a, b in o['ends'])} for o in v]


def walk(path: list) -> dict | None:
    cfg = _M['cfgs'][path[0]['s']['c'] - 1]
    w = World(cfg, f"{_M['seed']}:{json.dumps([t['o'] for t in path])[:200]}:{len(path)}")
    for i, tr in enumerate(path):
        g = w.step(tr['o'])
        want = norm(tr['v'])
        exp = ['written', sorted(tr['r'][1])] if tr['r'][0] == 'written' else tr['r']
        faults = [n for n, a, b in (('outcome', g['out'], exp), ('content', g['obs'], want)) if a != b]
        if faults:
            return {'kind': 'replay', 'cfg': {k: v for k, v in cfg.items() if k != 'ops'}, 'history': [x['o'] for x in path[:i + 1]],
                    'faults': faults, 'expected': {'out': exp, 'obs': want}, 'got': g}
    return None


def explore(chk) -> None:
    cfgs = models()
    depth = chk.pick(4, 6)
    res = tlc.run('MC_Fetch', cfg=f'SPECIFICATION Spec\nINVARIANT Promised\nVIEW Seen\nACTION_CONSTRAINT Emit\nCONSTANTS Depth = {depth}\n',
                  data={'model.json': cfgs}, heap='16g')
    chk.model(res, f'MC_Fetch/depth{depth}')
    g = Graph(res.emitted)
    start = lambda s: not any(s['W']['known']) and all(o['name'] == 0 and not o['mod'] and o['new'] == d['new'] and (o['more'] == 0) == d['part'] for o, d in zip(s['W']['objs'], cfgs[s['c'] - 1]['objs'])) \
        and all(sorted(p) == sorted(r['pairs']) for p, r in zip(s['W']['stored'], cfgs[s['c'] - 1]['rels']))  # noqa: E731
    walks = [p for _, p in g.walks(start, 30)]
    _M.update(cfgs=cfgs, seed=chk.seed)
    bad = [b for b in pmap(walk, walks) if b]
    chk.traced(g.edges, 'replayed-transitions')
    for b in bad[:100]:
        chk.violation(b, f"{b['history'][-1]['k']}:{'+'.join(b['faults'])}:{b['got']['out'][:2]}")


def rand_cfg(rng: random.Random) -> dict:
    kinds = rng.choice(['A', 'AB', 'ABC', 'ABC'])
    objs = [obj(rng.choice(kinds), '', x < .15, x > .6) for x in (rng.random() for _ in range(rng.randint(3, 9)))]
    if rng.random() < .06:       # many of one kind
        objs += [obj(rng.choice(kinds[-1]), '') for _ in range(rng.randint(15, 40))]
    for i, o in enumerate(objs):
        o['id'] = str(1 + sum(p['cls'] == o['cls'] for p in objs[:i]))
    rels = []
    for n in range(1, rng.randint(1, 4) + 1):
        kind, ca, cb = rng.choice(['one', 'more', 'more', 'own', 'many', 'many', 'thru', 'way', 'ways']), rng.choice(kinds), rng.choice(kinds)
        r = rel(kind, n, ca, cb, [])
        aa, bb = [[i for i, o in enumerate(objs, 1) if o['cls'] == c and (kind != 'thru' or not o['new'])] for c in (ca, cb)]
        pairs: set = set()
        for _ in range(rng.randint(0, 8) if len(objs) < 10 else 120):
            if not aa or not bb:
                break
            p = (rng.choice(aa), rng.choice(bb))
            if p[0] == p[1] or not r['a']['many'] and any(q[0] == p[0] for q in pairs) or r['b']['field'] and not r['b']['many'] and any(q[1] == p[1] for q in pairs):
                continue
            # on a relation between objects of one class the two ends stay apart
            pairs.add(p)
        r['pairs'] = sorted(map(list, pairs))
        rels.append(r)
    return {'objs': objs, 'rels': rels}


def record(arg: tuple) -> dict:
    seed, length = arg
    rng = random.Random(seed)
    cfg = rand_cfg(rng)
    w = World(cfg, seed)
    incs = [o for o in ops_of(cfg, (), ()) if o['k'] == 'include']
    mv = moves(cfg)
    steps: list = []
    for _ in range(length):
        x = rng.random()
        if x < .5 and incs:
            op = rng.choice(incs)
        elif x < .6 and mv:
            op = rng.choice(mv)
            r = op['r'] - 1
            many = [k for k, o in enumerate(cfg['objs'], 1) if o['cls'] == cfg['rels'][r]['b']['cls'] and k != op['i']]
            if cfg['rels'][r]['a']['many'] and many:
                op = {**op, 'to': rng.sample(many, rng.randint(0, len(many)))}
            known = [q for q in w.see(op['i'] - 1)['ends'] if q[0] == r + 1 and q[1] == 'a']
            b = cfg['rels'][r]['b']
            if known[0][2] or not b['many'] and any(p[0] != op['i'] and p[1] in op['to'] for p in w.stored[r]):
                continue
        else:
            op = {'k': rng.choice(['name', 'name', 'mark', 'reset', 'read', 'save', 'data', 'complete']), 'i': rng.randint(1, len(cfg['objs']))}
            if op['k'] == 'name':
                op['v'] = rng.randint(0, 3)
        g = w.step(op)
        steps.append({'op': op, **g})
        if g['out'][0] in ('exc', 'hang') or not g['obs']:
            break
    return {'seed': seed, 'cfg': cfg, 'steps': steps}


def decide(chk, count: int, length: int) -> None:
    traces = pmap(record, [(f'{chk.seed}:C25:{i}', length) for i in range(count)])
    for a in range(0, len(traces), 4000):
        batch = traces[a:a + 4000]
        res = tlc.run('Trace_Fetch', cfg='SPECIFICATION Spec\n', data={'traces.json': batch}, heap='16g')
        chk.model(res, f'Trace_Fetch/{a // 4000}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            last = t['steps'][e['k'] - 1]
            chk.violation({'kind': 'trace', 'seed': t['seed'], 'cfg': t['cfg'], 'steps': [s['op'] for s in t['steps'][:e['k']]],
                           'faults': e['faults'], 'expected': e['expected'], 'got': {'out': last['out'], 'obs': last['obs']}},
                          f"{last['op']['k']}:{'+'.join(e['faults'])}:{last['out'][:2]}")
    chk.sample({k: v for k, v in traces[0].items() if k != 'cfg'})


def run(prop: str, chk) -> None:
    explore(chk)
    decide(chk, chk.pick(1500, 12000), chk.pick(25, 40))
