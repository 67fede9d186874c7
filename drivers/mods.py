"""What each validating and transforming mark means (JMods: C16, C17)."""
from __future__ import annotations
import itertools, random
from fractions import Fraction
from typing import Any
from lib import tlc
from lib.conform import Hang, pmap, time_limit
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException

_count = itertools.count()
_salts: dict = {}


# ---------------------------------------------------------------- values
def dec(v: list) -> Any:
    k = v[0]
    if k == 'none':
        return None
    if k in ('int', 'bool'):
        return v[1]
    if k == 'flt':
        return v[1] / 2 ** v[2]
    if k == 'str':
        return ''.join(map(chr, v[1]))
    if k == 'list':
        return [dec(x) for x in v[1]]
    if k == 'tuple':
        return tuple(dec(x) for x in v[1])
    if k == 'salted':
        return salted(''.join(map(chr, v[1])))
    raise ValueError(k)


def salted(plain: str) -> str:
    import bcrypt
    if plain not in _salts:
        _salts[plain] = bcrypt.hashpw(plain.encode(), bcrypt.gensalt(4)).decode()
    return _salts[plain]


def enc(v: Any, plains: tuple = ()) -> list:
    if v is None:
        return ['none']
    if type(v) is bool:
        return ['bool', v]
    if type(v) is int:
        return ['int', v] if abs(v) < 2 ** 30 else ['big']
    if type(v) is float:
        try:
            f = Fraction(v)
        except (ValueError, OverflowError):
            return ['odd']
        k = f.denominator.bit_length() - 1
        if k <= 20 and abs(f.numerator) < 2 ** 30:
            return ['flt', f.numerator, k]
        return ['fltx', int(v * 16 // 1), int(-(-v * 16 // 1))] if abs(v) < 2 ** 24 else ['big']
    if isinstance(v, str):
        if v.startswith('$2b$'):
            import bcrypt
            for p in plains:
                if bcrypt.checkpw(p.encode(), v.encode()):
                    return ['salted', list(map(ord, p))]
        return ['str', list(map(ord, v))]
    if isinstance(v, list):
        return ['list', [enc(x) for x in v]]
    if isinstance(v, tuple):
        return ['tuple', [enc(x) for x in v]]
    return ['other', type(v).__name__]


def S(s: str) -> list:
    return ['str', list(map(ord, s))]


# ---------------------------------------------------------------- real type descriptions
class Build:
    """Arguments computed from the owner are read from its fields a1, a2, ..."""

    def __init__(self) -> None:
        self.args: list = []        # owner field values

    def owner_field(self, val: Any) -> str:
        self.args.append(val)
        return f'arg{len(self.args)}'

    def arg(self, v: list, form: str) -> Any:
        val = dec(v)
        if form == 'lit':
            return val
        if form == 'fn0':
            return lambda: val
        if form == 'types':
            return types.default(val)
        f = self.owner_field(val)
        if form == 'fn1':
            return lambda o: getattr(o, f)
        if form == 'fn2':
            return lambda o, ctx: getattr(ctx.owner, f)
        if form == 'this':
            return types.this.fval(f)
        raise ValueError(form)

    def gt(self, m: dict):
        n = dec(m['a'][0])
        yes, no = {'none': None, 'true': True}[m.get('yes', 'none')], {'false': False, 'str': 'nope'}[m.get('no', 'false')]

        def f(v):
            return (yes if v > n else no) if type(v) in (int, float) else yes
        return (lambda v, ctx: f(v)) if m['by'] == 'fn2' else (lambda v: f(v))

    def plus(self, m: dict):
        n = dec(m['a'][0])

        def f(v):
            return v + n if type(v) in (int, float) else v
        return (lambda v, ctx: f(v)) if m['by'] == 'fn2' else (lambda v: f(v))

    def pat(self, p: dict) -> str:
        cls = ''.join(('\\' if chr(c) in '\\]^-' else '') + chr(c) for c in p['cls'])
        return ('^' if p['head'] else '') + f'[{cls}]' + ('+' if p['plus'] else '') + ('$' if p['tail'] else '')

    def mark(self, t: Any, m: dict) -> Any:
        n, form = m['m'], m.get('form', 'lit')
        if n in ('map', 'filter', 'transform', 'validate'):
            n = m.get('alias', n)
            if m['by'] == 'types':
                sub = self.chain(m['chain'])
            else:
                sub = self.plus(m) if m['m'] in ('map', 'transform') else self.gt(m)
            return getattr(t, n)(sub, 'told you') if n == 'vmsg' else getattr(t, n)(sub)
        if n == 'oneisvalid':
            return t.oneisvalid([self.chain(s['chain']) if s['by'] == 'types' else self.gt(s) for s in m['subs']])
        if n == 'match':
            return t.match(self.lift(self.pat(m['pat']), form))
        if n == 'replacer':
            return t.replacer(self.lift(self.pat(m['pat']), form), self.arg(m['a'][0], form))
        if n == 'checkpw':
            plain = dec(m['a'][0])
            return t.checkpw(types.transform(lambda v: plain))
        if n == 'default':
            v = dec(m['a'][0])
            return t.default({'lit': v, 'fn0': (lambda: v)}.get(form, types.default(v)))
        if n in ('presentwith', 'presentwithout'):
            return getattr(t, n)('sib' if form == 'lit' else ['sib'])
        if not m['a']:
            r = getattr(t, n)
            return r if hasattr(r, 'modifier') else r()
        return getattr(t, n)(*[self.arg(a, form) for a in m['a']])

    def lift(self, val: Any, form: str) -> Any:
        if form in ('fn1', 'fn2', 'this'):
            f = self.owner_field(val)
            return {'fn1': lambda o: getattr(o, f), 'fn2': lambda o, ctx: getattr(o, f), 'this': types.this.fval(f)}[form]
        return {'lit': val, 'fn0': lambda: val, 'types': types.default(val)}[form]

    def chain(self, ch: list) -> Any:
        t = types
        for m in ch:
            t = self.mark(t, m)
        return t


class World:
    """One class with the chain under test; where: field, list item, dict value or a field of an embedded object."""

    def __init__(self, case: dict) -> None:
        self.where = case.get('where', 'field')
        self.sib = dec(case['sib'])
        self.plains = tuple(case.get('plains', ()))
        b = Build()
        t = b.chain(case['chain'])
        self.argvals = {f'arg{i + 1}': v for i, v in enumerate(b.args)}
        fields: dict = {n: types.any for n in self.argvals}
        fields['sib'] = types.any
        if self.where == 'list':
            t = types.listof(t.nullable)
        elif self.where == 'dict':
            t = types.dictof(t.nullable)
        fields['x'] = t
        g = f'mods{next(_count)}'
        self.cls = jsonclass(class_graph=g)(type('M', (), {'__annotations__': {n: object for n in fields}, **fields}))
        self.obj: Any = None
        self.base = {**self.argvals, 'sib': self.sib}

    def wrap(self, v: Any) -> Any:
        return [v] if self.where == 'list' else {'k': v} if self.where == 'dict' else v

    def now(self) -> Any:
        x = self.obj.x
        return x[0] if self.where == 'list' else x['k'] if self.where == 'dict' else x

    def guard(self, f) -> list:
        try:
            with time_limit(5):
                return f()
        except ValidationException as e:
            want = {'list': 'x.0', 'dict': 'x.k'}.get(self.where, 'x')
            return ['err'] if list(e.keypath_messages) == [want] else ['err', *map(str, e.keypath_messages)]
        except Hang:
            return ['exc', 'Hang']
        except Exception as e:
            return ['exc', type(e).__name__, str(e)[:120]]

    def input(self, v: list, how: str = 'new') -> list:
        def f():
            val = self.wrap(dec(v))
            if how == 'new' or self.obj is None:
                self.obj = self.cls(**self.base, x=val)
            else:
                self.obj.x = None       # an equal value would be kept as it is
                self.obj.set(x=val)
            return enc(self.now(), self.plains)
        return self.guard(f)

    def assign(self, v: list) -> list:
        def f():
            if self.obj is None:
                try:
                    self.obj = self.cls(**self.base)
                except Exception:
                    return ['none made']        # null is outside the chain's domain; input of null is compared separately
            self.obj.x = None
            self.obj.x = self.wrap(dec(v))
            return enc(self.now(), self.plains)
        return self.guard(f)

    def validate(self) -> list:
        def f():
            self.obj.validate()
            return ['ok']
        return self.guard(f)


# ---------------------------------------------------------------- the catalogue
NUMS = [['int', n] for n in (-4, -3, -2, -1, 0, 1, 2, 3, 4, 10)] + [['flt', n, k] for n, k in ((1, 1), (-1, 1), (3, 1), (5, 1), (-5, 1), (3, 0), (1, 2), (9, 2), (-7, 2), (0, 0))]
TEXTS = [S(x) for x in ('', 'a', 'A', 'b', 'ab', 'abc', 'abcd', 'ABC', ' a ', '  ', 'a b', 'aB1', '1', '12', '-3', '+7', '0.5', '-2.25', '3.', '.5', 'a1b22', '1a2b', "they're ok", 'hello WORLD',
                        'éa', 'É', 'x²', '²', '½', 'a,b,,c', ',', 'aaa', 'aXbXc', '_a', 'a-b', 'a,bX' * 13 + 'ab 1.', 'aab  ' * 9 + 'Z')]
LONG = ['list', [['int', i % 5] for i in range(23)]]
OTHERS = [['none'], ['bool', True], ['bool', False]]
LISTS = [['list', x] for x in ([], [['int', 1]], [['int', 1], ['int', 2]], [['int', 1], ['int', 2], ['int', 3]], [['int', 2], ['int', 3]], [['int', 3], ['int', 1], ['int', 2]], [S('a')], [S('a'), S('b')], [S('b'), S('a'), S('')],
                               [['none'], ['int', 2]], [['list', [['int', 1]]], ['int', -1]], [['flt', 1, 1], ['bool', True]])]
VALS = NUMS + TEXTS + OTHERS + LISTS + [LONG, ['list', [S('ab'[i % 2]) for i in range(14)]], ['int', 1000], ['int', -999], ['int', 257]]
EMAILS = [S(x) for x in ('a@b.co', 'a@b', 'a@b.c', '@b.co', 'a@.co', 'a.b+c%d@x-y.z.com', '.a@b.co', 'a@b.co.uk', 'a@b.co x', 'x a@b.co', 'a@b.co|', 'a@b.c|d', 'a@@b.co', 'a@b@c.co', 'a@b.c1', 'a@b.co1', 'a@b.co.', 'a@b..co', '_@9.zz',
                         'a@b.co.1', 'a@b.c.d', 'a b@c.de', 'a@b-.co', 'A.B@C.DE', '%a@b.co', 'a@b.co\ta', '', 'a', 'a@b.coé')]
URLS = [S(x) for x in ('http://a.co', 'https://a.co', 'ftp://a.co', 'ftps://a.co/x', 'HTTP://A.CO', 'http:/a.co', 'http://', 'http://a', 'http://a.b', 'http://a.bc.', 'http://a.co/', 'http://a.co//', 'http://a.co?x=1', 'http://a.co?', 'http://a.co:80', 'http://a.co:', 'http://a.co:8x',
                       'http://a.co:80/p q', 'http://localhost', 'http://localhost:3000/x', 'http://localhos', 'http://1.2.3.4', 'http://1.2.3', 'http://1.2.3.4444', 'http://1.2.3.4567.8', 'http://-a.co', 'http://a-.co', 'http://a-b.co', 'http://a..co', 'http://a.co ', ' http://a.co',
                       'xhttp://a.co', 'httpss://a.co', 'http://a_b.co', 'http://a.c-', 'http://a.1', 'http://a.12', 'http://.co', 'mailto:a@b.co', 'http://a.co#x', 'http://a.co/#x', 'http://a.co/a?b=c&d', 'http://1.2.3.4:99/x', 'http://a.co:80?x', '')]
PWS = [S(x) for x in ('aA1!', 'aA1', 'aA!', 'a1!', 'A1!', '!1Aa', 'w4Hsa/', 'aA1 ', 'aA1^', 'aA1%', 'aA1\\', 'aA1"', "aA1'", 'aA1-', 'aA1]', '', 'aaaa', 'é1A!', 'aA²!')]
COLORS = [S(x) for x in ('01FD6F', '#01FD6F', '##1FD6F', '01FD6', '01FD6F0', '#01FD6F0', 'zzzzzz', '01fd6g', 'abcdef', '#', '', '#12345', '123456', 'ABCDEF ')]
ARG_NUMS = [['int', -2], ['int', 0], ['int', 2], ['int', 3], ['flt', 1, 1], ['flt', -5, 1], ['flt', 3, 0]]
SMALL = [['int', n] for n in (0, 1, 2, 3, 5)]
FORMS = ['lit', 'fn0', 'fn1', 'fn2', 'types', 'this']
PATS = [dict(cls=list(map(ord, c)), plus=p, head=h, tail=t) for c, p, h, t in
        (('a', 0, 0, 0), ('abc', 1, 1, 1), ('0123456789', 1, 0, 0), ('0123456789', 0, 0, 1), ('abcdefghijklmnopqrstuvwxyz', 1, 1, 0), ('a', 1, 0, 1), ('-', 0, 0, 0))]
for _p in PATS:
    for _k in ('plus', 'head', 'tail'):
        _p[_k] = bool(_p[_k])


def mk(m: str, *a, **k) -> dict:
    return {'m': m, 'a': list(a), **k}


PRE_L = [['list', x] for x in ([], [['int', 1]], [['int', 1], ['int', 2]], [['int', 2], ['int', 3]], [['int', 3]], [S('a')])]
PRE_S = [S(x) for x in ('', 'a', 'ab', 'bc', 'abc', 'abcd', 'A')]


def validators(rng: random.Random | None = None) -> list[dict]:
    out = [mk(n) for n in ('positive', 'negative', 'nonnegative', 'nonpositive', 'even', 'odd', 'alnum', 'alpha', 'digit', 'numeric', 'hexcolor', 'email', 'url', 'securepw',
                           'str', 'int', 'float', 'bool', 'required', 'present', 'invalid')]
    for n in ('min', 'max', 'gt', 'lt', 'gte', 'lte'):
        out += [mk(n, a) for a in ARG_NUMS]
    out += [mk('range', a, b) for a, b in ((['int', -2], ['int', 2]), (['int', 0], ['int', 0]), (['flt', 1, 1], ['int', 3]), (['int', 2], ['int', 1]))]
    for n in ('minlength', 'maxlength', 'length'):
        out += [mk(n, a) for a in SMALL]
    out += [mk('length', a, b) for a, b in ((['int', 1], ['int', 2]), (['int', 0], ['int', 3]), (['int', 2], ['int', 2]), (['int', 0], ['int', 0]))]
    out += [mk('match', pat=p) for p in PATS]
    for n in ('eq', 'neq'):
        out += [mk(n, a) for a in (['int', 1], ['flt', 3, 0], S('a'), ['bool', True], ['list', [['int', 1]]], ['int', 0])]
    out += [mk('oneof', ['list', x]) for x in ([['int', 1], S('a')], [], [S('ab'), ['flt', 1, 1], ['bool', False]])]
    for n in ('hasprefix', 'hassuffix', 'isprefixof', 'issuffixof'):
        out += [mk(n, a) for a in PRE_L + PRE_S]
    out += [mk('validate', a, by=by, yes=y, no=no, alias=al) for a in (['int', 1], ['flt', 1, 1]) for by, y, no, al in
            (('fn1', 'none', 'false', 'validate'), ('fn2', 'true', 'str', 'v'), ('fn1', 'true', 'false', 'vmsg'), ('fn1', 'none', 'str', 'vmsg'))]
    out += [mk('validate', by='types', chain=c, alias=al) for al in ('validate', 'vmsg') for c in
            ([mk('int'), mk('min', ['int', 2])], [mk('min', ['int', 1]), mk('add', ['int', 1]), mk('max', ['int', 4])], [mk('required')])]
    out += [mk('oneisvalid', subs=s) for s in (
        [dict(by='types', chain=[mk('int'), mk('min', ['int', 2])]), dict(by='types', chain=[mk('str'), mk('maxlength', ['int', 1])])],
        [dict(by='fn1', a=[['int', 2]], yes='none', no='false')], [dict(by='fn2', a=[['int', 1]], yes='true', no='str'), dict(by='types', chain=[mk('negative')])],
        [dict(by='types', chain=[mk('min', ['int', 3]), mk('add', ['int', 1])]), dict(by='types', chain=[mk('required'), mk('int')])], [])]
    out += [mk('presentwith'), mk('presentwithout'), mk('presentwithout', form='listed')]
    return out


def transformers() -> list[dict]:
    out = [mk(n) for n in ('abs', 'round', 'ceil', 'floor', 'sqrt', 'inverse', 'len', 'reverse', 'trim', 'tolower', 'toupper', 'totitle', 'tocap', 'tolist', 'toint', 'tofloat', 'tostr', 'tobool',
                           'wrapintolist', 'float', 'hexcolor')]
    for n in ('add', 'sub', 'mul', 'mod'):
        out += [mk(n, a) for a in (['int', 2], ['int', -3], ['flt', 1, 1], ['flt', -3, 1])]
    out += [mk('mul', ['int', 0]), mk('add', ['int', 0])]
    out += [mk('div', a) for a in (['int', 2], ['int', -4], ['flt', 1, 1], ['int', 1])]
    out += [mk('pow', a) for a in (['int', 2], ['int', -3], ['flt', 1, 1], ['int', 1], ['int', 0])]
    for n in ('upperbond', 'lowerbond'):
        out += [mk(n, a) for a in ARG_NUMS]
    out += [mk('truncate', a) for a in SMALL]
    for n in ('padstart', 'padend'):
        out += [mk(n, S(c), a) for c, a in (('-', ['int', 3]), (' ', ['int', 0]), ('xy', ['int', 4]), ('0', ['int', 1]))]
    for n in ('append', 'prepend'):
        out += [mk(n, a) for a in (S('z'), ['int', 7], ['flt', 1, 1], S(''))]
    out += [mk('insertat', a, i) for a in (S('z'), ['int', 7]) for i in (['int', 0], ['int', 1], ['int', 2], ['int', 9], ['int', -1], ['int', -5])]
    out += [mk('split', S(x)) for x in (',', 'X', 'ab', ' ')] + [mk('join', S(x)) for x in ('', ',', ', ')]
    out += [mk('replace', S(a), S(b)) for a, b in (('a', 'b'), ('aa', 'a'), ('b', ''), (' ', '__'), ('ab', 'ba'))]
    out += [mk('replacer', S(b), pat=p) for p in PATS if not p['head'] and not p['tail'] for b in ('', '#', 'xy')]
    out += [mk('at', ['int', i]) for i in (0, 1, -1)]
    out += [mk('default', a) for a in (['int', 5], S('d'), ['bool', False], ['int', 0])]
    for n in ('map', 'transform'):
        out += [mk(n, ['int', 1], by='fn1', alias=n)] + [mk(n, by='types', chain=c, alias=n) for c in ([mk('add', ['int', 2])], [mk('min', ['int', 2]), mk('tostr')], [mk('default', ['int', 9])], [mk('toupper'), mk('reverse')])]
    out += [mk('transform', ['flt', 1, 1], by='fn2', alias='t')]
    out += [mk('filter', a, by='fn1', yes=y, no=no) for a, y, no in ((['int', 1], 'none', 'false'), (['int', 2], 'true', 'str'))]
    out += [mk('filter', by='types', chain=c) for c in ([mk('int'), mk('min', ['int', 2])], [mk('required')], [mk('min', ['int', 2]), mk('add', ['int', 1]), mk('max', ['int', 3])], [mk('str')])]
    out += [mk(n, ['int', k]) for n in ('randomdigits', 'randomalnums', 'randomalnumpuncs') for k in (0, 1, 5, 12, 100)]
    out += [mk('randomint', ['int', a], ['int', b]) for a, b in ((0, 1), (-3, 3), (5, 5), (7, 2))] + [mk('randomfloat', ['int', 0], ['int', 1]), mk('randomfloat', ['flt', -3, 1], ['flt', 1, 1])]
    return out


LITERAL_ONLY = {'randomfloat': ['lit', 'fn0', 'types']}


def vals_for(m: dict) -> list:
    extra = {'email': EMAILS, 'url': URLS, 'securepw': PWS, 'hexcolor': COLORS, 'tolist': [['tuple', [['int', 1], S('a')]]]}.get(m['m'], [])
    if m['m'].startswith('random'):
        return [['none'], ['int', 3], S('a')]
    base = VALS
    if m['m'] in ('hasprefix', 'hassuffix', 'isprefixof', 'issuffixof'):
        base = [v for v in VALS if v[0] == 'none' or v[0] in ('int', m['a'][0][0])]     # text against text, list against list
    if m['m'] == 'oneisvalid' or m['m'] == 'at':
        base = [v for v in VALS]
    return base + extra


def cases(marks: list[dict]) -> list[dict]:
    out = []
    for i, m in enumerate(marks):
        forms = ['lit']
        if (m['a'] or 'pat' in m) and 'by' not in m and m['m'] != 'checkpw' and 'form' not in m:
            f = FORMS[1 + i % 5]
            forms.append(f if m['m'] != 'default' or f in ('fn0', 'types') else 'fn0')
        for f in forms:
            out.append({'chain': [{'form': f, **m}], 'sib': ['none'], 'vals': vals_for(m)})
        if m['m'].startswith('presentw'):
            out.append({'chain': [m], 'sib': ['int', 0], 'vals': vals_for(m)})
    return out


# ---------------------------------------------------------------- spec -> code
_CASES: dict = {}


def replay(i: int) -> list:
    case, exps = _CASES[i]
    bad = []
    w = World(case)
    n = 0
    for e in exps:
        w.obj = None
        v, seen = e['v'], None
        if e['in'] is not None and e['in'] != ['undef']:
            got = w.input(v)
            n += 1
            fit = got == e['in'] or (e['in'][0] == 'rnd' and rnd_fits(e['in'], got))
            if not fit:
                bad.append({'kind': 'replay', 'case': case['chain'], 'sib': case['sib'], 'value': v, 'step': 'input', 'expected': e['in'], 'got': got})
            elif e['in!'] is not None:
                got = w.validate()
                n += 1
                if got != (['ok'] if e['in!'] else ['err']) or enc(w.now(), w.plains) != e['in']:
                    bad.append({'kind': 'replay', 'case': case['chain'], 'sib': case['sib'], 'value': v, 'step': 'input, validate', 'expected': e['in!'], 'got': got, 'now': enc(w.now(), w.plains)})
        if e['set!'] is not None:
            w.obj = None
            got = w.assign(v)
            if got == ['none made']:
                continue
            chk = w.validate() if got == v else got
            n += 1
            if chk != (['ok'] if e['set!'] else ['err']) or enc(w.now(), w.plains) != v:
                bad.append({'kind': 'replay', 'case': case['chain'], 'sib': case['sib'], 'value': v, 'step': 'assign, validate', 'expected': e['set!'], 'got': chk})
    return [n, bad]


def rnd_fits(e: list, o: list) -> bool:
    """TLC judges recorded random values (Trace_Mods); here only the kind."""
    return o[0] == {'int': 'int', 'float': o[0]}.get(e[1], 'str') and o[0] in ('int', 'flt', 'fltx', 'str')


def explore(chk, cs: list[dict], label: str) -> None:
    res = tlc.run('MC_Mods', cfg='SPECIFICATION Spec\nINVARIANT Predicates\nINVARIANT Algebra\nINVARIANT Compose\nACTION_CONSTRAINT Emit\nCONSTANT Emitting = TRUE\n',
                  data={'model.json': {'cases': cs}}, heap='12g')
    chk.model(res, f'MC_Mods/{label}')
    table: dict = {}
    for e in res.emitted:
        k = (e['c'] - 1, repr(e['v']))
        r = table.setdefault(k, {'v': e['v'], 'in': None, 'in!': None, 'set!': None})
        if e['s'] == 'in':
            r['in'] = e['x']
        elif e['s'] in ('in!', 'set!'):
            r[e['s']] = e['ok']
    _CASES.clear()
    for (c, _), r in table.items():
        _CASES.setdefault(c, (cs[c], []))[1].append(r)
    done = pmap(replay, sorted(_CASES))
    chk.traced(sum(d[0] for d in done), f'replayed/{label}')
    for d in done:
        for b in d[1]:
            chk.violation(b, f"{[m['m'] for m in b['case']]}:{b['step']}")


# ---------------------------------------------------------------- code -> spec
def rand_val(rng: random.Random, hint: str = '') -> list:
    r = rng.random()
    if hint == 'num' and r < .8:
        r = .1
    if hint == 'text' and r < .8:
        r = .4
    if hint == 'list' and r < .8:
        r = .9
    if r < .25 and rng.random() < .15:
        return ['int', rng.randint(-400, 400)] if rng.random() < .6 else enc(rng.randint(-900, 900) / 2)
    if r < .25:
        return ['int', rng.randint(-9, 12)] if rng.random() < .6 else enc(rng.randint(-40, 40) / rng.choice([2, 4, 8]))
    if r < .7:
        k = rng.random()
        if k < .15:
            return S(''.join(rng.choice(rng.choice(['ab, X', 'aB1', 'ab,'])) for _ in range(rng.randint(7, 40))))
        if k < .6:
            return S(''.join(rng.choice('abcABC019 -_,.é²½X') for _ in range(rng.randint(0, 6))))
        return rng.choice(TEXTS + EMAILS + URLS + PWS + COLORS)
    if r < .78:
        return rng.choice(OTHERS)
    return ['list', [rand_val(rng) if rng.random() < .2 else rng.choice([['int', rng.randint(-2, 4)], S(rng.choice(['a', 'b', '']))]) for _ in range(rng.randint(0, 4) if rng.random() < .8 else rng.randint(5, 24))]]


def mutate(rng: random.Random, v: list) -> list:
    s = list(v[1])
    for _ in range(rng.randint(1, 2)):
        k = rng.random()
        if k < .4 and s:
            del s[rng.randrange(len(s))]
        elif k < .7:
            s.insert(rng.randint(0, len(s)), ord(rng.choice('a1.-@/:? #ZéX_|')))
        elif s:
            s[rng.randrange(len(s))] = ord(rng.choice('a1.-@/:? #Z9'))
    return ['str', s]


def vary(rng: random.Random, m: dict) -> dict:
    """The same mark with other arguments."""
    m = dict(m)
    n = m['m']
    if n in ('min', 'max', 'gt', 'lt', 'gte', 'lte', 'upperbond', 'lowerbond', 'add', 'sub', 'mul') and rng.random() < .7:
        m['a'] = [rand_num(rng)]
    elif n == 'range' and rng.random() < .7:
        m['a'] = [rand_num(rng), rand_num(rng)]
    elif n == 'mod' and rng.random() < .7:
        m['a'] = [rng.choice([['int', 3], ['int', 5], ['int', -4], ['flt', 3, 1], ['flt', -1, 2]])]
    elif n in ('minlength', 'maxlength', 'truncate') and rng.random() < .7:
        m['a'] = [['int', rng.randint(0, 6) if rng.random() < .7 else rng.randint(7, 40)]]
    elif n in ('padstart', 'padend') and rng.random() < .5:
        m['a'] = [m['a'][0], ['int', rng.randint(0, 40)]]
    elif n == 'insertat' and rng.random() < .4:
        m['a'] = [m['a'][0], ['int', rng.randint(-25, 25)]]
    elif n in ('hasprefix', 'hassuffix', 'isprefixof', 'issuffixof', 'split', 'eq', 'neq') and rng.random() < .5:
        if m['a'][0][0] == 'str':
            m['a'] = [S(''.join(rng.choice('ab,') for _ in range(rng.randint(1, 4))))]
    if (m['a'] or 'pat' in m) and 'by' not in m and 'form' not in m and n != 'default':
        m['form'] = rng.choice(FORMS)
    return m


def rand_num(rng):
    return ['int', rng.randint(-6, 8)] if rng.random() < .6 else enc(rng.randint(-16, 16) / rng.choice([2, 4]))


NUMERIC = {'add', 'sub', 'mul', 'div', 'mod', 'abs', 'round', 'ceil', 'floor', 'upperbond', 'lowerbond', 'min', 'max', 'gt', 'lt', 'gte', 'lte', 'range', 'positive', 'negative', 'nonnegative', 'nonpositive', 'even', 'odd', 'tostr', 'float', 'int'}
LISTY = {'map', 'filter', 'join', 'append', 'prepend', 'insertat', 'reverse', 'truncate', 'len', 'at', 'minlength', 'maxlength', 'length', 'hasprefix', 'hassuffix', 'isprefixof', 'issuffixof', 'wrapintolist'}


def record(arg: tuple) -> dict:
    seed, prop = arg
    rng = random.Random(seed)
    V, T = validators(), transformers()
    main = V if prop == 'C16' else T
    length = rng.choice([1, 1, 2, 2, 3, 4])
    family = rng.choice(['num', 'text', 'list', 'any'])

    def fits(m):
        if family == 'num':
            return m['m'] in NUMERIC
        if family == 'list':
            return m['m'] in LISTY
        if family == 'text':
            return m['m'] not in NUMERIC
        return True
    chain = []
    for k in range(length):
        pool = main if rng.random() < .7 else V + T
        pool = [m for m in pool if fits(m) and m['m'] != 'invalid'] or main
        name = rng.choice(sorted({m['m'] for m in pool}))
        m = vary(rng, rng.choice([x for x in pool if x['m'] == name]))
        if name in ('pow', 'sqrt') and k:
            continue
        if name.startswith('random') and k < length - 1:
            continue
        chain.append(m)
    if {m['m'] for m in chain} & {'tolist', 'split', 'join', 'wrapintolist', 'tostr', 'at', 'default', 'transform', 'map', 'filter'}:
        chain = [m for m in chain if m['m'] not in ('hasprefix', 'hassuffix', 'isprefixof', 'issuffixof')]
    if not chain:
        chain = [mk('abs')]
    where = rng.choice(['field', 'field', 'field', 'list', 'dict'])
    sib = rng.choice([['none'], ['none'], ['int', 0]])
    if where != 'field':
        chain = [m for m in chain if not m['m'].startswith('presentw')] or [mk('abs')]
    w = World({'chain': chain, 'sib': sib, 'where': where})
    steps = []
    for _ in range(8):
        v = rand_val(rng, family)
        n0 = chain[0]['m']
        spec = {'email': EMAILS, 'url': URLS, 'securepw': PWS, 'hexcolor': COLORS}.get(n0)
        if spec and rng.random() < .8:
            v = mutate(rng, rng.choice(spec)) if rng.random() < .7 else rng.choice(spec)
        if typed(chain, v):
            continue
        if rng.random() < .6:
            out = w.input(v, rng.choice(['new', 'set']))
            steps.append({'op': 'input', 'v': v, 'out': out})
        else:
            out = w.assign(v)
            if out == ['none made']:
                continue
            steps.append({'op': 'assign', 'v': v, 'out': out})
        if out[0] in ('err', 'exc', 'other', 'big'):
            if out != ['err']:
                break
            continue
        if w.where == 'field' or w.obj.x:
            if enc(w.now(), ()) != out:
                steps[-1]['out'] = ['changed']
                break
            if typed(chain, out):
                break
            steps.append({'op': 'validate', 'out': w.validate(), 'now': enc(w.now())})
    return {'seed': seed, 'chain': chain, 'sib': sib, 'where': where, 'steps': steps}


def typed(chain: list, v: list) -> bool:
    """Text given where the argument is a list (or the reverse) has no documented meaning."""
    return any(m['m'] in ('hasprefix', 'hassuffix', 'isprefixof', 'issuffixof') and v[0] in ('str', 'list') and v[0] != m['a'][0][0] for m in chain)


def decide(chk, prop: str, count: int) -> None:
    traces = pmap(record, [(f'{chk.seed}:{prop}:{i}', prop) for i in range(count)])
    for a in range(0, len(traces), 6000):
        batch = traces[a:a + 6000]
        res = tlc.run('Trace_Mods', cfg='SPECIFICATION Spec\n', data={'traces.json': batch})
        chk.model(res, f'Trace_Mods/{a // 6000}')
        chk.traced(sum(len(t['steps']) for t in batch), 'validated-steps')
        for e in res.emitted:
            t = batch[e['t'] - 1]
            chk.violation({'kind': 'trace', 'fault': e['fault'], 'seed': t['seed'], 'chain': t['chain'], 'sib': t['sib'], 'where': t['where'],
                           'steps': t['steps'][:e['k']], 'expected': e['expected']},
                          f"{[m['m'] for m in t['chain']]}:{t['steps'][e['k'] - 1]['op']}:{e['fault']}")
    chk.sample(traces[0])


def pairs(rng: random.Random, n: int) -> list[dict]:
    V, T = validators(), [m for m in transformers() if not m['m'].startswith('random')]
    out = []
    names_t = sorted({m['m'] for m in T})
    names_v = sorted({m['m'] for m in V} - {'invalid', 'presentwith', 'presentwithout'})
    for _ in range(n):
        pick = lambda L, ns: rng.choice([m for m in L for x in [rng.choice(ns)] if True])
        a = rng.choice([m for m in T if m['m'] == rng.choice(names_t)] or T)
        b = rng.choice([m for m in (T if rng.random() < .6 else V) if m['m'] in names_t + names_v])
        ch = [a, b] if rng.random() < .8 else [b, a]
        vs = [v for v in rng.sample(VALS, 14)]
        vs = [v for v in vs if not typed(ch, v)]
        if any(m['m'] in ('hasprefix', 'hassuffix', 'isprefixof', 'issuffixof') for m in ch):
            continue
        out.append({'chain': ch, 'sib': ['none'], 'vals': vs})
    return out


def run(prop: str, chk) -> None:
    if prop == 'C16':
        explore(chk, cases(validators()), 'validators')
        salt = [{'chain': [mk('checkpw', S('secret'))], 'sib': ['none'], 'vals': [['salted', list(map(ord, p))] for p in ('secret', 'other', 'secret ')] + [['none'], ['int', 3]],
                 'plains': ['secret', 'other', 'secret ']}]
        explore(chk, salt, 'password')
    else:
        explore(chk, cases(transformers()), 'transformers')
        explore(chk, pairs(chk.rng, chk.pick(400, 4000)), 'pairs')
        explore(chk, [{'chain': [mk('salt')], 'sib': ['none'], 'vals': [S('secret'), S('x'), ['none'], ['int', 3]], 'plains': ['secret', 'x']}], 'salt')
    decide(chk, prop, chk.pick(3000, 60000))
