"""Sub-check registry, assertion helpers and case bookkeeping.

A sub-check is a pair (strategy, predicate).  The strategy draws a *plain-data*
case (dicts, lists, floats, ints, strings, bools, None) so that every case can
be written to JSON, re-executed without Hypothesis, and counted.  The
predicate runs the real code on the case and raises Violation when the
property does not hold.
"""
import json
import math

import numpy as np

REGISTRY = {}       # property id -> list of Sub
CHECKS = {}         # property id -> dict(rule=..., assumptions=[...])


class Violation(Exception):
    """The code under test broke the property on this case."""


class Sub:
    def __init__(self, pid, name, strategy, fn, quick, thorough, shards):
        self.pid = pid
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


def describe(pid, rule, assumptions=()):
    CHECKS[pid] = {'rule': rule, 'assumptions': list(assumptions)}


def sub(pid, name, strategy, quick, thorough=None, shards=1):
    """Register a sub-check.  `quick`/`thorough` are numbers of cases; a
    sub-check with several shards splits them over processes."""
    def deco(fn):
        REGISTRY.setdefault(pid, []).append(
            Sub(pid, name, strategy, fn, quick,
                thorough if thorough is not None else quick * 20, shards))
        return fn
    return deco


class Ctx:
    """Collects labels and non-triviality of one case."""

    def __init__(self):
        self.labels = []
        self.trivial = False
        self.hung = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def set_trivial(self, reason='trivial'):
        self.trivial = True
        self.labels.append('trivial:' + reason)


# ---------------------------------------------------------------- helpers
def fail(msg, **kw):
    if kw:
        msg = msg + ' | ' + ', '.join(f'{k}={short(v)}' for k, v in kw.items())
    raise Violation(msg)


def require(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


def short(v, n=400):
    try:
        if isinstance(v, np.ndarray):
            s = np.array2string(v, precision=12, threshold=40)
        else:
            s = repr(v)
    except Exception:                                   # pragma: no cover
        s = '<unprintable>'
    return s if len(s) <= n else s[:n] + '...'


def arr(x, shape=None, what='result'):
    """Convert an output of the code under test to a float array; anything
    that is not finite numbers of the expected shape is a violation."""
    try:
        a = np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation(f'{what}: not a numeric array ({e}): {short(x)}')
    if shape is not None and tuple(a.shape) != tuple(shape):
        fail(f'{what}: wrong shape', got=a.shape, expected=tuple(shape))
    return a


def finite(x, shape=None, what='result'):
    a = arr(x, shape, what)
    if not np.all(np.isfinite(a)):
        fail(f'{what}: not finite', value=a)
    return a


def scalar(x, what='result'):
    a = arr(x, None, what)
    if a.size != 1:
        fail(f'{what}: expected one number', got=a)
    v = float(a.reshape(-1)[0])
    if not math.isfinite(v):
        fail(f'{what}: not finite', value=v)
    return v


def close(a, b, rtol=1e-9, atol=0., what='values', scale=None, **kw):
    """|a-b| <= atol + rtol*max(|b|, scale) elementwise, same shape."""
    A = arr(a, None, what)
    B = np.asarray(b, dtype=float)
    if A.shape != B.shape:
        fail(f'{what}: shapes differ', got=A.shape, expected=B.shape, **kw)
    if A.size == 0:
        return
    if not np.all(np.isfinite(A)):
        fail(f'{what}: not finite', got=A, **kw)
    ref = np.abs(B)
    if scale is not None:
        ref = np.maximum(ref, scale)
    d = np.abs(A - B)
    bad = d > atol + rtol * ref
    if np.any(bad):
        i = np.unravel_index(np.argmax(d - atol - rtol * ref), d.shape)
        fail(f'{what}: differ at {tuple(int(k) for k in i)}',
             got=float(A[i]), expected=float(B[i]), diff=float(d[i]),
             allowed=float(atol + rtol * ref[i]), **kw)


def same(a, b, what='values'):
    """Bit-for-bit equality of arrays (NaN equal to NaN)."""
    A, B = np.asarray(a), np.asarray(b)
    if A.shape != B.shape:
        fail(f'{what}: shapes differ', got=A.shape, expected=B.shape)
    if A.dtype.kind in 'fc' or B.dtype.kind in 'fc':
        ok = np.array_equal(A, B, equal_nan=True)
    else:
        ok = np.array_equal(A, B)
    if not ok:
        fail(f'{what}: not identical', got=A, expected=B)


def raises(excs, fn, what):
    """`fn` must raise one of `excs`."""
    try:
        out = fn()
    except excs:
        return
    except Exception as e:
        raise Violation(f'{what}: raised {type(e).__name__}: {e} instead of '
                        f'{excs}')
    fail(f'{what}: accepted', result=out)


def case_key(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(f'case is not plain data: {type(o)}')
