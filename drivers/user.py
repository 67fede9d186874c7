"""The user's configuration file (JUser: C22)."""
from __future__ import annotations
import importlib, json, os, random, re, shutil, sys, tempfile
from typing import Any
from lib import tlc
from lib.conform import pmap
import jsonclasses.uconf  # noqa: F401

MOD = 'jsonclasses.uconf'


def raw(T: list) -> Any:
    k = T[0]
    if k == 'list':
        return [raw(t) for t in T[1]]
    if k == 'map':
        return {''.join(a): raw(b) for a, b in T[1]}
    return None if k == 'null' else ''.join(T[1]) if k == 'text' else T[1]


def enc(v: Any) -> list:
    if v is None:
        return ['null']
    if type(v) is bool:
        return ['flag', v]
    if type(v) is int:
        return ['num', v]
    if type(v) is str:
        return ['text', list(v)]
    if callable(getattr(v, 'get', None)) and not isinstance(v, dict):
        return ['conf']
    return ['other', repr(v)[:60]]


class Place:
    """A scratch working directory with a config.json and an environment; the
    configuration is loaded afresh."""

    def __init__(self, file: list | None, env: list) -> None:
        self.file, self.env = file, env

    def __enter__(self) -> 'Place':
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='verif-conf-')
        if self.file is not None:
            with open(os.path.join(self.dir, 'config.json'), 'w') as fh:
                json.dump(raw(self.file), fh)
        self.saved = dict(os.environ)
        for a, b in self.env:
            os.environ[''.join(a)] = ''.join(b)
        os.chdir(self.dir)
        return self

    def __exit__(self, *a: Any) -> None:
        os.chdir(self.old)
        os.environ.clear()
        os.environ.update(self.saved)
        shutil.rmtree(self.dir)

    def load(self) -> list:
        try:
            mod = importlib.reload(sys.modules[MOD])
            self.root = mod.uconf()
        except KeyError:
            return ['undefined']
        except Exception as e:
            return ['exc', type(e).__name__, str(e)[:100]]
        return ['conf']


def spell(path: list, rng: random.Random) -> str:
    out = ''
    for k in map(''.join, path):
        out += f'[{k}]' if rng.random() < .35 else ('.' if out else '') + k
    return out


def ask(handle: Any, path: list, rng: random.Random) -> tuple:
    text: Any = spell(path, rng)
    if len(path) == 1 and text.isdigit() and rng.random() < .5:
        text = int(text)
    try:
        v = handle[text] if rng.random() < .5 else handle.get(text)
    except Exception as e:
        return ['exc', type(e).__name__, str(e)[:100]], None, text
    return enc(v), v, text


# ---------------------------------------------------------------- spec -> code
_CASES: dict = {}


def replay(i: int) -> list:
    case, loaded, exps, seed = _CASES[i]
    rng = random.Random(seed)
    bad, n = [], 1
    with Place(case['file'], case['env']) as p:
        got = p.load()
        if got != loaded:
            return [1, [{'kind': 'replay', 'file': raw(case['file']), 'env': case['env'], 'step': 'load', 'expected': loaded, 'got': got}]]
        if loaded != ['conf']:
            return [1, []]
        for rnd in (1, 2):                         # a second time: nothing has changed
            handles = {'[]': p.root}
            for path, exp in exps:
                n += 1
                want = ['conf'] if exp[0] in ('map', 'list') else exp
                for up in (0, len(path) - 1):       # from the root, and from the value one step above
                    h = handles.get(json.dumps(path[:up]))
                    if h is None:
                        continue
                    got, v, text = ask(h, path[up:], rng)
                    if got != want:
                        bad.append({'kind': 'replay', 'file': raw(case['file']), 'env': case['env'], 'step': f'round {rnd}', 'path': text, 'within': [''.join(k) for k in path[:up]], 'expected': exp, 'got': got})
                    elif got == ['conf']:
                        handles[json.dumps(path)] = v
    return [n, bad]


T = list


def tx(s: str) -> list:
    return ['text', list(s)]


def mp(**kw: Any) -> list:
    return ['map', [[list(k), v] for k, v in kw.items()]]


ENV = [[list('HOME_X'), list('v1')], [list('a'), list('')], [list("N"), list('12')], [list('E'), list("environ['HOME_X']")]]


def cases() -> list:
    texts = [tx(s) for s in ("environ['HOME_X']", 'environ["a"]', "environ['N']", "environ['E']", "environ['GONE']", "xenviron['a']", "environ['a']x", "environ[a]", "environ['']", 'plain', '', "environ", "environ['a'] ")]
    scal = [['num', 0], ['num', 3], ['flag', False], ['flag', True], ['null']]
    keys = ['camelCase', 'snake_case', 'HTMLParser', 'aB2c', 'x', 'Upper', 'getURL', 'a1B', 'ABC', '_priv', 'aBCd', 'x9Y']
    out = [{'file': mp(**{k: v}), 'env': ENV} for k in keys for v in (['num', 1], mp(**{'innerKey': ['num', 2]}), ['list', [mp(deepKey=tx('z'))]])]
    for v in texts + scal:
        for shape in (lambda v: mp(x=v), lambda v: mp(x=['list', [['num', 7], v]]), lambda v: mp(x=mp(y=v)), lambda v: mp(x=['list', [['list', [v]], mp(zZ=v)]])):
            out.append({'file': shape(v), 'env': ENV})
    out.append({'file': ['map', []], 'env': []})
    out.append({'file': mp(**{'x': ['list', [['num', i] for i in range(12)]], '0': ['num', 5], '10': tx('ten')}), 'env': []})
    return out


def path_keys(T: list) -> list:
    keys = {'0', '1', '2', '11', 'zz', 'x'}

    def go(t: list) -> None:
        if t[0] == 'map':
            for a, b in t[1]:
                k = ''.join(a)
                keys.update([k, re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', re.sub(r'([A-Z]+)([A-Z][a-z])', r'\1_\2', k)).lower()])
                go(b)
        elif t[0] == 'list':
            for b in t[1]:
                go(b)
    go(T)
    return [list(k) for k in sorted(keys)]


def rand_tree(rng: random.Random, depth: int, top: bool = False) -> list:
    k = 'map' if top else rng.choice(['map', 'list', 's', 's', 's'] if depth else ['s'])
    if k == 'map':
        ks: list = []
        seen = set()
        for _ in range(rng.randint(0, 4)):
            key = ''.join(rng.choice('aAbBcC1_') for _ in range(rng.randint(1, 5)))
            s = path_keys(['map', [[list(key), ['null']]]])
            low = [''.join(x) for x in s]
            if key[0] == '_' or re.search('[A-Z]_|_[A-Z]|[A-Z][A-Z][0-9]', key) or set(low) & seen - {'0', '1', '2', '11', 'zz', 'x'} or any(''.join(a) == key for a, _ in ks):
                continue
            seen |= set(low)
            ks.append([list(key), rand_tree(rng, depth - 1)])
        return ['map', ks]
    if k == 'list':
        return ['list', [rand_tree(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
    return rng.choice([['num', rng.randint(-3, 30)], ['flag', rng.random() < .5], ['null'], tx(rng.choice(['abc', '', 'x y', "environ['HOME_X']", 'environ["a"]', "environ['N']", "environ['E']", "environ[N]", "environ['N", "environ['a.b']"]))])


def explore(chk) -> None:
    cs = cases() + [{'file': rand_tree(chk.rng, 3, True), 'env': ENV + [[list('a.b'), list('dot')]]} for _ in range(chk.pick(100, 1500))]
    for c in cs:
        c['keys'] = path_keys(c['file'])
    res = tlc.run('MC_User', cfg='SPECIFICATION Spec\nINVARIANT Snakes\nINVARIANT Found\nINVARIANT Nothing\nINVARIANT Composed\nINVARIANT Resolved\nACTION_CONSTRAINT Emit\nCONSTANT Emitting = TRUE\n',
                  data={'model.json': {'cases': cs, 'depth': 2 if not chk.thorough else 3}}, heap='8g')
    chk.model(res, 'MC_User')
    loaded: dict = {}
    table: dict = {}
    for e in res.emitted:
        if e['s'] == 'got':
            table.setdefault(e['c'] - 1, []).append((e['p'], e['v']))
        else:
            loaded[e['c'] - 1] = ['undefined'] if e['s'] == 'undefined' else ['conf']
    _CASES.clear()
    for c in loaded:
        _CASES[c] = (cs[c], loaded[c], sorted(table.get(c, []), key=lambda x: (len(x[0]), x[0])), f'{chk.seed}:{c}')
    done = pmap(replay, sorted(_CASES), chunk=8)
    chk.traced(sum(d[0] for d in done), 'replayed')
    for d in done:
        for b in d[1]:
            chk.violation(b, f"{b['step']}:{b['expected'][0]}:{b['got'][:2]}")


# ---------------------------------------------------------------- code -> spec
def record(seed: str) -> dict:
    rng = random.Random(seed)
    file = rand_tree(rng, rng.randint(1, 5), True)
    env = [e for e in ENV + [[list('a.b'), list('dot')]] if rng.random() < .93]
    none = rng.random() < .03
    steps: list = []
    with Place(None if none else file, env) as p:
        out = p.load()
        steps.append({'op': 'load', 'out': out})
        if out == ['conf']:
            handles = [p.root]
            keys = path_keys(file)
            known = [k for k in keys if ''.join(k) not in ('11', 'zz')]
            for _ in range(20):
                i = rng.randrange(len(handles))
                path = [rng.choice(known if rng.random() < .85 else keys) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4]))]
                got, v, text = ask(handles[i], path, rng)
                steps.append({'op': 'get', 'from': i + 1, 'path': path, 'text': str(text), 'out': got})
                if got == ['conf']:
                    handles.append(v)
                elif got[0] in ('exc', 'other'):
                    break
    return {'seed': seed, 'file': ['map', []] if none else file, 'env': env, 'steps': steps}


def decide(chk, count: int) -> None:
    traces = pmap(record, [f'{chk.seed}:C22:{i}' for i in range(count)])
    for a in range(0, len(traces), 5000):
        batch = traces[a:a + 5000]
        res = tlc.run('Trace_User', cfg='SPECIFICATION Spec\n', data={'traces.json': batch})
        chk.model(res, f'Trace_User/{a // 5000}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            last = t['steps'][e['k'] - 1]
            chk.violation({'kind': 'trace', 'seed': t['seed'], 'file': raw(t['file']), 'env': t['env'], 'steps': t['steps'][:e['k']], 'expected': e['expected']}, f"{last['op']}:{e['expected'][0]}:{last['out'][:2]}")
    chk.sample(traces[0])


def run(prop: str, chk) -> None:
    explore(chk)
    decide(chk, chk.pick(4000, 40000))
