"""Small classes and operation sets explored exhaustively for JCore's properties."""
from __future__ import annotations
from typing import Any
from lib.values import enc
from drivers.core import typ, fld, enum_type, NONE, DATES, TIMES

INT, STR, ANY = typ('int'), typ('str'), typ('any')


def cl(fields, pk='', strict=False, onull=False, allf=False) -> dict:
    return dict(strict=strict, onull=onull, allf=allf, pk=pk, fields=fields)


def inp(m: dict | None = None, c: dict | None = None) -> dict:
    """c: {'key spelled': value} with its parts worked out."""
    import re
    return {'m': [[k, enc(v)] for k, v in (m or {}).items()],
            'c': [{'key': k, 'parts': [p for p in re.split(r'[\[\].]', k) if p], 'v': enc(v)}
                  for k, v in (c or {}).items()]}


def new(x, cls, m=None, c=None):
    return {'name': 'new', 'x': x, 'cls': cls, 'in': inp(m, c)}


def set_(x, m=None, c=None):
    return {'name': 'set', 'x': x, 'in': inp(m, c)}


def upd(x, **m):
    return {'name': 'update', 'x': x, 'in': inp(m)}


def asg(x, f, v):
    return {'name': 'assign', 'x': x, 'f': f, 'v': enc(v) if not isinstance(v, tuple) else list(v)}


def link(x, f, y):
    return {'name': 'link', 'x': x, 'f': f, 'y': y}


def val(x, all='class'):
    return {'name': 'validate', 'x': x, 'all': all}


def js(x, null='class', wo=False, rev=False):
    return {'name': 'json', 'x': x, 'opt': {'null': null, 'wo': wo, 'rev': rev}}


def again(x, y, null='class'):
    return {'name': 'again', 'x': x, 'y': y, 'opt': {'null': null, 'wo': False, 'rev': False}}


def model(name, schema, ops, depth, nvars=2, strategy='camelize', noparse=True) -> dict:
    return dict(name=name, js=strategy, schema=schema, ops=ops, depth=depth, nvars=nvars, noparse=noparse,
                dates=sorted(set(DATES + TIMES)))


def marks() -> list[dict]:
    k = 'camelize'
    S = {'K0': cl([fld('id', STR, k), fld('ro_a', typ('int', **{'def': ['int', 7]}), k, w='ro'),
                   fld('once_b', INT, k, w='once'), fld('non_c', STR, k, w='nonnull'), fld('w', STR, k),
                   fld('sub', typ('obj', cls='K1'), k),
                   fld('kids', typ('list', item=typ('obj', cls='K1', req=True)), k),
                   fld('box', typ('dict', item=typ('obj', cls='K1')), k, w='once')], pk='id'),
         'K1': cl([fld('ro_p', INT, k, w='ro'), fld('once_q', INT, k, w='once'), fld('r', INT, k)])}
    ops = [new(1, 'K0', {'id': 'a'}),
           new(1, 'K0', {'id': 'a', 'roA': 1, 'onceB': 2, 'nonC': 'x', 'w': 'w', 'sub': {'roP': 1, 'onceQ': 2, 'r': 3},
                         'kids': [{'ro_p': 1, 'once_q': 4}], 'box': {'k': {'onceQ': 5}}}),
           set_(1, {'ro_a': 5}), set_(1, {'roA': 6, 'w': 'z'}), set_(1, {'once_b': 8}), set_(1, {'onceB': None}),
           set_(1, {'nonC': None}), set_(1, {'non_c': 'y'}), set_(1, {'non_c': 'q', 'nonC': None, 'once_b': 1, 'onceB': 9}),
           set_(1, {'sub': {'ro_p': 4, 'onceQ': 6}}), set_(1, {'sub': None, 'kids': None}),
           set_(1, {'kids': [{'onceQ': 7}, {'roP': 9, 'r': 1}]}), set_(1, {'box': {'k': {'r': 2}}}),
           set_(1, c={'sub.ro_p': 3}), set_(1, c={'sub[onceQ]': 3}), set_(1, c={'kids[0].onceQ': 1}),
           set_(1, c={'kids.0.roP': 1, 'sub.r': 9}), set_(1, c={'box.k.r': 4}), set_(1, c={'ro_a.x': 1}),
           set_(1, {'w': None}, {'kids[1][r]': 5}), upd(1, ro_a=11, once_b=12), upd(1, non_c=None, once_b=None),
           asg(1, 'ro_a', 13), asg(1, 'non_c', None)]
    m1 = model("marks", S, ops, (5, 7), nvars=1)
    S2 = {'K0': cl([fld('id', STR, k), fld('own', typ('obj', cls='K0'), k, st='local', w='once'),
                    fld('boss', typ('obj', cls='K0'), k, st='local', w='ro'),
                    fld('tags', typ('list', item=typ('obj', cls='K0', req=True)), k, st='local', w='once'),
                    fld('n', INT, k, w='once')], pk='id')}
    ops = [new(1, 'K0', {'id': 'a'}), new(1, 'K0', {'id': 'a', 'ownId': 'z'}), new(2, 'K0', {'id': 'b', 'own': {'id': 'c', 'n': 1}}),
           new(2, 'K0', {'id': 'b', 'own': {'id': 'b', 'n': 4}, 'n': 2}),
           new(1, 'K0', {'id': 'a', 'own': {'id': 'd', 'n': 1}, 'tags': [{'id': 'd', 'n': 2}, {'id': 'a', 'n': 3}]}),
           set_(1, {'own_id': 'y'}), set_(1, {'ownId': 'x', 'bossId': 'w'}), set_(1, {'boss': {'id': 'e'}}),
           set_(1, {'own': {'id': 'f'}}), set_(1, {'own': None}), set_(1, {'tag_ids': ['p']}), set_(1, {'tagIds': ['q', 'r']}),
           set_(1, {'tags': [{'id': 'g'}]}), set_(1, c={'own.n': 5}), set_(1, c={'own.own.n': 6}), set_(1, {'boss_id': 'v'}, {'boss.n': 3}),
           asg(1, 'own', None), link(1, 'boss', 2), link(1, 'own', 2)]
    return [m1, model('marked-refs', S2, ops, (5, 7), nvars=2)]


def strict() -> list[dict]:
    k = 'camelize'
    S = {'K0': cl([fld('a_b', INT, k), fld('sub', typ('obj', cls='K1'), k), fld('tight', typ('obj', cls='K1', sx='strict'), k),
                   fld('many', typ('list', item=typ('obj', cls='K1', sx='strict')), k),
                   fld('box', typ('dict', item=typ('obj', cls='K2')), k), fld('bag', typ('dict', item=ANY), k)], strict=True),
         'K1': cl([fld('p_q', INT, k), fld('deep', typ('obj', cls='K2'), k)]),
         'K2': cl([fld('id', STR, k), fld('z', INT, k), fld('up', typ('obj', cls='K2'), k, st='local')], pk='id', strict=True)}
    ops = [new(1, 'K0', {'aB': 1, 'sub': {'pQ': 1}, 'bag': {'any': 1}}), new(2, 'K1', {'x': 1, 'pQ': 2}), new(2, 'K2', {'id': '1', 'upId': '2'}),
           new(1, 'K0', {'aB': 1, 'extra': 1}), set_(1, {'a_b': 2}), set_(1, {'a_b': 3, 'A_b': 1}), set_(1, {'ab': None}),
           set_(1, {'sub': {'pQ': 5, 'nope': 1}}), set_(1, {'tight': {'pQ': 5, 'nope': 1}}), set_(1, {'tight': {'p_q': 6}}),
           set_(1, {'aB': 9, 'many': [{'pQ': 1}, {'no': 1}]}), set_(1, {'many': [{'pQ': 1}, {'p_q': 2}]}),
           set_(1, {'box': {'k': {'id': '7', 'z': 1}}}), set_(1, {'box': {'k': {'z': 1, 'zz': 2}}, 'aB': 4}),
           set_(1, {'sub': {'deep': {'z': 1, 'upid': 'x'}}}), set_(1, {'sub': {'deep': {'z': 1, 'up_id': 'x', 'upId': None}, 'free': 1}}),
           set_(1, {'bag': {'weird': {'keys': 1}}}), set_(1, {'aB': 8}, {'nope.x': 1}), set_(1, c={'sub.nope': 1}), set_(1, c={'tight.pQ': 2}),
           set_(1, c={'box.k.zz': 1}), set_(2, {'junk': 1, 'z': 3}), set_(2, {'deep': {'junk': 1}}), set_(2, {'up': {'up': {'bad': 1}}})]
    return [model('strict', S, ops, (5, 8), nvars=2)]


def hidden() -> list[dict]:
    k = 'camelize'
    S = {'K0': cl([fld('id', STR, k), fld('pass_word', STR, k, r=False), fld('inner', INT, k, w='ro', r=False), fld('tmp', STR, k, st='temp'),
                   fld('seen', INT, k), fld('sub', typ('obj', cls='K1'), k), fld('subs', typ('list', item=typ('obj', cls='K1')), k),
                   fld('box', typ('dict', item=typ('obj', cls='K1')), k, r=False),
                   fld('pal', typ('obj', cls='K0'), k, st='local'), fld('spy', typ('obj', cls='K1'), k, st='local', r=False)], pk='id'),
         'K1': cl([fld('id', STR, k), fld('se_cret', STR, k, r=False), fld('open', INT, k), fld('tmp', INT, k, st='temp')], pk='id', onull=True)}
    full = {'id': 'a', 'passWord': 'p', 'tmp': 't', 'seen': 1, 'sub': {'id': 's', 'seCret': 'x', 'open': 2, 'tmp': 1},
            'subs': [{'id': 'u', 'seCret': 'y'}, None], 'box': {'k': {'id': 'v', 'open': 1}}, 'pal': {'id': 'b', 'passWord': 'q', 'sub': {'se_cret': 'n', 'id': 'w'}},
            'spy': {'id': 'y', 'open': 1}}
    ops = [new(1, 'K0', {'id': 'a'}), new(1, 'K0', full), new(2, 'K0', {'id': 'c', 'palId': 'zz', 'spyId': 'qq'}), link(1, 'pal', 2), link(2, 'pal', 1),
           link(1, 'pal', 1), asg(1, 'inner', 5), set_(1, {'passWord': None, 'seen': None}),
           {'name': 'pick', 'x': 1, 'names': ['id', 'pass_word', 'pal']}, {'name': 'pick', 'x': 1, 'names': ['seen', 'sub', 'tmp', 'spy']},
           {'name': 'omit', 'x': 1, 'names': ['pal', 'seen']}, {'name': 'omit', 'x': 2, 'names': ['id', 'spy']}, {'name': 'mark', 'x': 1}, {'name': 'mark', 'x': 2},
           js(1), js(1, 'yes'), js(1, 'no'), js(1, 'class', True), js(1, 'yes', True, True), js(2), js(2, 'yes', True), js(2, 'yes', False, True)]
    return [model('hidden', S, ops, (5, 8), nvars=2)]


def judged() -> list[dict]:
    k = 'camelize'
    S = {'K0': cl([fld('id', STR, k), fld('v_v', typ('int', lo=0, req=True), k), fld('s', STR, k),
                   fld('nxt', typ('obj', cls='K0', req=True), k, st='local', opp='prv'),
                   fld('prv', typ('list', item=typ('obj', cls='K0', req=True)), k, st='foreign', opp='nxt'),
                   fld('xs', typ('list', item=typ('int', lo=0, req=True), hi=2), k), fld('sub', typ('obj', cls='K1'), k),
                   fld('t', typ('int', req=True, lo=1), k, st='temp')], pk='id', allf=True),
         'K1': cl([fld('w_w', typ('int', req=True), k), fld('box', typ('dict', item=typ('list', item=typ('str', req=True), hi=1)), k)])}
    good = {'vV': 1, 'xs': [1], 'sub': {'wW': 1}, 't': 1}
    ops = [new(1, 'K0', {'id': 'a', **good, 'nxtId': 'q'}), new(2, 'K0', {'id': 'b', **good}), new(1, 'K0', {'id': 'a', 'vV': -1, 'xs': [1, -1, None], 'sub': {'box': {'k_k': ['a', None, 1], 'o': 3}}}),
           link(1, 'nxt', 2), link(2, 'nxt', 1), link(1, 'nxt', 1), asg(1, 'v_v', -3), asg(2, 'v_v', 'x'), asg(2, 'xs', [0, None]), asg(1, 's', 7), asg(1, 't', None),
           {'name': 'append', 'x': 1, 'f': 'xs', 'v': ['int', -4]}, set_(1, {'sub': {'wW': None}}), set_(1, {'nxt': None}), {'name': 'mark', 'x': 1}, {'name': 'mark', 'x': 2},
           val(1), val(1, 'no'), val(2, 'yes'), {'name': 'isvalid', 'x': 1}, {'name': 'isvalid', 'x': 2}]
    return [model('judged', S, ops, (5, 8), nvars=2)]


def returned() -> list[dict]:
    out = []
    for k in ('camelize', 'identical', 'shout'):
        S = {'K0': cl([fld('id', STR, k), fld('day_of', typ('date'), k), fld('at_time', typ('datetime'), k), fld('hue', enum_type('name', 'name'), k),
                       fld('hue_val', enum_type('value', 'value'), k), fld('hues', typ('list', item=enum_type('lname', 'lname')), k),
                       fld('grid', typ('list', item=typ('list', item=INT)), k), fld('bag_of', typ('dict', item=typ('dict', item=ANY)), k),
                       fld('sub_obj', typ('obj', cls='K1'), k), fld('subs', typ('dict', item=typ('list', item=typ('obj', cls='K1'))), k)], pk='id'),
             'K1': cl([fld('yes_no', typ('bool'), k), fld('n', INT, k), fld('when', typ('list', item=typ('date')), k)])}
        ops = [new(1, 'K0', {'id': '1'}), new(1, 'K0', {'id': '1', 'day_of': DATES[0], 'at_time': TIMES[1], 'hue': 'RED', 'hue_val': 2, 'hues': ['dark_sky', 'red'],
                                                        'grid': [[1, None], [], [-5]], 'bag_of': {'a_b': {'c_d': [1]}, 'E': {}}, 'sub_obj': {'yes_no': False, 'n': 0},
                                                        'subs': {'k_k': [{'when': [DATES[1], None]}, None]}}),
               asg(1, 'day_of', ('date', DATES[1])), asg(1, 'at_time', ('datetime', TIMES[0])), asg(1, 'hue', ('enum', 'DARK_SKY')), asg(1, 'hue', None),
               asg(1, 'bag_of', {}), asg(1, 'grid', [[]]), asg(1, 'grid', [None, [0]]), set_(1, {'sub_obj': {'yes_no': True, 'when': []}}), set_(1, {'subs': {}}),
               again(1, 2), again(1, 2, 'yes'), again(2, 1, 'no'), js(1), js(2, 'yes')]
        out.append(model(f'returned-{k}', S, ops, (4, 8), nvars=2, strategy=k, noparse=False))
    return out


def shared() -> list[dict]:
    k = 'camelize'
    dl = {'def': ['list', [['str', 'd']]]}
    dd = {'def': ['dict', [['k', ['list', [['int', 1]]]]]]}
    S = {'K0': cl([fld('xs', typ('list', item=STR, **dl), k), fld('box', typ('dict', item=typ('list', item=INT), **dd), k),
                   fld('ns', typ('list', nn=True, item=INT), k), fld('num', INT, k, pdef=['int', 4]), fld('sub', typ('obj', cls='K1'), k)]),
         'K1': cl([fld('ys', typ('list', item=STR, **dl), k), fld('any', ANY, k)])}
    ops = [new(1, 'K0'), new(2, 'K0'), new(2, 'K1'), new(2, 'K0', {'xs': None, 'box': None, 'sub': {}}), new(1, 'K0', {'sub': {'ys': ['q']}, 'xs': []}),
           {'name': 'append', 'x': 1, 'f': 'xs', 'v': ['str', 'n']}, {'name': 'append', 'x': 2, 'f': 'xs', 'v': ['str', 'm']},
           {'name': 'append', 'x': 1, 'f': 'ns', 'v': ['int', 1]}, {'name': 'put', 'x': 1, 'f': 'box', 'key': 'z', 'v': ['list', []]},
           {'name': 'put', 'x': 2, 'f': 'box', 'key': 'k', 'v': ['none']}, set_(1, c={'box.k.0': 9}), set_(2, c={'box[k][0]': 8, 'sub.ys.0': 'w'}),
           set_(1, c={'xs.0': 'u'}), set_(1, {'sub': {}}), set_(1, {'num': 5}), asg(1, 'xs', None), {'name': 'omit', 'x': 1, 'names': ['xs']}, js(1), js(2)]
    ops = [o for o in ops if not (o['name'] in ('append', 'put') and o['x'] == 2)] + \
          [{'name': 'append', 'x': 2, 'f': 'xs', 'v': ['str', 'm']}]
    ops += [{'name': 'copy', 'x': 2, 'f': 'xs', 'y': 1, 'g': 'xs', 'how': 'assign'}, {'name': 'copy', 'x': 1, 'f': 'box', 'y': 2, 'g': 'box', 'how': 'update'},
            {'name': 'append', 'x': 2, 'f': 'box', 'at': [['k', 'k']], 'v': ['int', 3]}]
    # variable 2 may hold either class: operations naming fields apply to K0 only
    ops = [o for o in ops if not (o['name'] == 'new' and o['cls'] == 'K1')]
    out = [model('shared', S, ops, (4, 7), nvars=2)]
    # containers handed from one object to another
    S = {'K0': cl([fld('ld', typ('list', item=typ('dict', item=INT)), k), fld('le', typ('list', item=typ('dict', item=INT)), k),
                   fld('dl', typ('dict', item=typ('list', item=INT)), k), fld('ll', typ('list', item=typ('list', item=INT)), k),
                   fld('dd', typ('dict', item=typ('dict', item=INT)), k), fld('an', ANY, k)])}
    cp = lambda x, f, y, g, how='assign': {'name': 'copy', 'x': x, 'f': f, 'y': y, 'g': g, 'how': how}  # noqa: E731
    put = lambda x, f, *at: {'name': 'put', 'x': x, 'f': f, 'at': list(map(list, at)), 'key': 'a', 'v': ['int', 2]}  # noqa: E731
    app = lambda x, f, *at: {'name': 'append', 'x': x, 'f': f, 'at': list(map(list, at)), 'v': ['int', 2]}  # noqa: E731
    full = {'ld': [{'a': 1}], 'le': [{}], 'dl': {'a': [1]}, 'll': [[1]], 'dd': {'a': {'a': 1}}, 'an': [{'a': [1]}, {}]}
    ops = [new(1, 'K0', full), new(2, 'K0', full),
           cp(2, 'ld', 1, 'ld'), cp(2, 'le', 1, 'ld', 'update'), cp(1, 'le', 1, 'ld'), cp(2, 'dl', 1, 'dl'), cp(2, 'll', 1, 'll', 'update'), cp(2, 'dd', 1, 'dd'), cp(2, 'an', 1, 'an'),
           put(1, 'ld', ('i', 0)), put(2, 'ld', ('i', 0)), put(2, 'le', ('i', 0)), put(1, 'le', ('i', 0)), app(1, 'dl', ('k', 'a')), app(2, 'dl', ('k', 'a')),
           app(1, 'll', ('i', 0)), app(2, 'll', ('i', 0)), put(1, 'dd', ('k', 'a')), put(2, 'dd', ('k', 'a')), app(1, 'an', ('i', 0), ('k', 'a')), app(2, 'an', ('i', 0), ('k', 'a')), js(1)]
    out.append(model('held', S, ops, (4, 6), nvars=2))
    return out


def identity() -> list[dict]:
    k = 'camelize'
    S = {'K0': cl([fld('the_key', STR, k), fld('n', INT, k), fld('own', typ('obj', cls='K0'), k, st='local', opp='owned'),
                   fld('owned', typ('list', nn=True, item=typ('obj', cls='K0', req=True)), k, st='foreign', opp='own'),
                   fld('other', typ('obj', cls='K1'), k, st='local')], pk='the_key'),
         'K1': cl([fld('id', STR, k), fld('back', typ('obj', cls='K0'), k, st='local'), fld('m', INT, k)], pk='id')}
    ops = [new(1, 'K0', {'theKey': 'a'}), new(1, 'K0', {'theKey': 'a', 'own': {'the_key': 'a', 'n': 1}}),
           new(1, 'K0', {'theKey': 'a', 'own': {'theKey': 'b', 'n': 1}, 'owned': [{'theKey': 'c', 'own': {'the_key': 'a'}}, {'theKey': 'b', 'n': 2}]}),
           new(2, 'K0', {'the_key': 'd', 'other': {'id': 'd', 'back': {'theKey': 'd', 'n': 5}}, 'owned': [{'theKey': 'e', 'other': {'id': 'd', 'm': 7}}]}),
           set_(1, {'other': {'id': 'x', 'back': {'theKey': 'y', 'other': {'id': 'x', 'm': 1}}}}), 
           new(3, 'K0', {'theKey': 'f', 'owned': [{'theKey': 'z', 'n': 1, 'other': {'id': 'z', 'back': {'the_key': 'z', 'n': 2}}}]}),
           new(3, 'K0', {'own': {'theKey': 'w', 'own': {'theKey': 'w2', 'other': {'id': 'w', 'back': {'theKey': 'w'}}}}, 'theKey': 'g'}),
           set_(2, {'own': None, 'n': 3}), set_(3, {'other': {'id': 'v', 'back': {'theKey': 'u', 'other': {'m': 4, 'id': 'v'}}}}),
           js(1), js(2, 'class', False, True), js(3)]
    return [model('identity', S, ops, (5, 7), nvars=3)]


MODELS = {'C01': marks, 'C02': strict, 'C03': hidden, 'C05': judged, 'C14': returned, 'C21': shared, 'C11': identity}
