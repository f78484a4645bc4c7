"""Encoding of values for TLC (see spec/Obs.tla): 32-bit integers, and reals
as FixReal triples in units of 1e-15."""
import math
from fractions import Fraction

import numpy as np

UNIT = 10 ** 15
LIM = 2 * 10 ** 9 * 10 ** 18


def fx(v):
    """FixReal triple of a finite number."""
    n = int(round(Fraction(v) * UNIT)) if not isinstance(v, int) else v * UNIT
    n = max(-LIM, min(LIM, n))
    a, r = divmod(n, 10 ** 18)
    b, c = divmod(r, 10 ** 9)
    return [a, b, c]


def i32(v):
    return max(-2 ** 31 + 1, min(2 ** 31 - 1, int(v)))


def num(v):
    try:
        v = float(v)
    except (TypeError, ValueError):
        return {'k': 'other', 't': type(v).__name__}
    if math.isnan(v) or math.isinf(v):
        return {'k': 'num', 'fin': False, 'v': [0, 0, 0]}
    return {'k': 'num', 'fin': True, 'v': fx(v)}


def arr(a):
    """Any array-like of numbers."""
    try:
        a = np.array(np.asarray(a), dtype=float)
    except (TypeError, ValueError):
        return {'k': 'other', 't': type(a).__name__}
    fin = bool(np.isfinite(a).all())
    flat = [float(x) for x in a.ravel(order='C')]
    return {'k': 'arr', 'shape': list(a.shape), 'fin': fin,
            'v': [fx(x) if math.isfinite(x) else [0, 0, 0] for x in flat]}


def exc(x):
    return {'k': 'exc', 't': type(x).__name__,
            'mro': [c.__name__ for c in type(x).__mro__]}


def enc(x):
    if x is None:
        return {'k': 'none'}
    if isinstance(x, dict) and 'k' in x:
        return x
    if isinstance(x, (bool, np.bool_)):
        return {'k': 'bool', 'b': bool(x)}
    if isinstance(x, (int, np.integer)):
        return {'k': 'int', 'v': i32(x)}
    if isinstance(x, (float, np.floating)):
        return num(x)
    if isinstance(x, str):
        return {'k': 'str', 's': x}
    if isinstance(x, BaseException):
        return exc(x)
    if isinstance(x, np.ndarray):
        return arr(x)
    if isinstance(x, (list, tuple)):
        return {'k': 'list', 'v': [enc(y) for y in x]}
    return {'k': 'other', 't': type(x).__name__}


def attempt(f, *a, **k):
    """Encoded result or encoded exception of a call."""
    try:
        return enc(f(*a, **k))
    except Exception as x:  # pylint: disable=broad-except
        return exc(x)
