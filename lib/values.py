"""Python <-> tagged-tuple values (see spec/JValues.tla)."""
from __future__ import annotations
from typing import Any

LIM = 2**31 - 1


def enc(v: Any) -> list:
    if v is None:
        return ['none']
    if v is True or v is False:
        return ['bool', v]
    if isinstance(v, int):
        return ['int', v] if abs(v) < LIM else ['big', str(v)]
    if isinstance(v, str):
        return ['str', v]
    if isinstance(v, float):
        return ['flt', repr(v)]
    if isinstance(v, (list, tuple)):
        return ['list', [enc(i) for i in v]]
    if isinstance(v, dict):
        return ['dict', [[str(k), enc(i)] for k, i in v.items()]]
    return ['other', type(v).__name__]


def dec(t: list) -> Any:
    tag = t[0]
    if tag == 'none':
        return None
    if tag in ('bool', 'int', 'str'):
        return t[1]
    if tag == 'flt':
        return float(t[1])
    if tag == 'list':
        return [dec(i) for i in t[1]]
    if tag == 'dict':
        return {k: dec(i) for k, i in t[1]}
    raise ValueError(t)


def plain(t: list) -> list:
    """Forget the attachment path of owned containers."""
    if t[0] == 'list':
        return ['list', [plain(i) for i in t[1]]]
    if t[0] == 'dict':
        return ['dict', [[k, plain(i)] for k, i in t[1]]]
    return t
