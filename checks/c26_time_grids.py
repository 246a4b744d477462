"""C26: time grids cover the simulation as documented."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import close, describe, finite, require, sub

describe('C26', (
    'Drawn steps, durations from a fraction of a step to a million steps '
    '(also exactly at and next to the end of a cell) and cell parameters; '
    'grids are compared with the documented rules in closed form. Trivial '
    'when the grid has one step.'),
    ['geometric grids of one step shorter than the duration cannot start '
     'with the first step and reach the maximum, and are not drawn'])

U = gt.utilities


@st.composite
def levels(draw):
    k = draw(st.integers(1, 60))
    c = {'k': k, 'dt': draw(st.sampled_from([1., 60., 3600.]) |
                            gen.logf(0.1, 1e6)),
         'default': draw(st.booleans())}
    how = draw(st.sampled_from(['any', 'edge', 'near', 'few']))
    if how == 'any':
        c['x'] = draw(gen.logf(0.3, 1e6))
    elif how == 'few':
        c['x'] = draw(gen.f(0.1, 30.))
    else:
        n = draw(st.integers(1, 60))
        c['x'] = ['cells', n, 0. if how == 'edge' else
                  draw(st.sampled_from([-1e-3, 1e-3, 0.4]))]
    return c


def cj_edge(n, k):
    """End of the n-th cell, in steps, when widths double every k cells."""
    q, r = divmod(n, k)
    return k * (2.**q - 1.) + r * 2.**q


def mp_edge(n, k):
    """End of the n-th cell when widths double from the cell after k."""
    return n if n <= k else k + 2. * (2.**min(n - k, 1000) - 1.)


def judge(t, dt, x, edge, what, ctx):
    t = finite(t, None, what)
    n = len(t)
    require(t.ndim == 1 and n >= 1, f'{what}: a vector of times')
    if n == 1:
        ctx.set_trivial('one step')
    ctx.label('short' if n < 10 else 'long')
    close(t[0], dt, rtol=1e-9, what=f'{what}: first step')
    require(np.all(np.diff(t) > 0.), f'{what}: increasing', t=t)
    close(t, dt * np.array([edge(i + 1) for i in range(n)]), rtol=1e-9,
          what=f'{what}: ends of cells')
    tmax = x * dt
    require(t[-1] >= tmax * (1 - 1e-9), f'{what}: reaches the maximum time',
            last=t[-1], tmax=tmax)
    if n > 1:
        require(t[-2] <= tmax * (1 + 1e-9), f'{what}: no cell too many',
                last=t[-2], tmax=tmax)
        if dt == int(dt) and t[-2] < 2.**52:
            # whole numbers of seconds: no rounding
            require(t[-2] < tmax, f'{what}: a cell after the maximum time',
                    last=t[-2], tmax=tmax)


def duration(c, edge):
    x = c['x']
    return edge(min(x[1], 25 + c['k'])) + x[2] if isinstance(x, list) else x


@sub('C26', 'ClaessonJaved', levels(), 1500, 30000)
def check_cj(c, ctx):
    k = 5 if c['default'] else c['k']
    c = dict(c, k=k)
    x = duration(c, lambda n: cj_edge(n, k))
    a = () if c['default'] else (k,)
    t = U.time_ClaessonJaved(c['dt'], x * c['dt'], *a)
    judge(t, c['dt'], x, lambda n: cj_edge(n, k), 'Claesson and Javed', ctx)


@sub('C26', 'MarcottePasquier', levels(), 1500, 30000)
def check_mp(c, ctx):
    k = 48 if c['default'] else c['k']
    c = dict(c, k=k)
    x = duration(c, lambda n: mp_edge(n, k))
    a = () if c['default'] else (k,)
    t = U.time_MarcottePasquier(c['dt'], x * c['dt'], *a)
    judge(t, c['dt'], x, lambda n: mp_edge(n, k), 'Marcotte and Pasquier',
          ctx)


@st.composite
def geometric(draw):
    n = draw(st.integers(1, 60) | st.integers(1, 10000))
    how = draw(st.sampled_from(['above', 'far', 'below', 'equal']))
    x = {'above': lambda: n * (1. + draw(gen.logf(1e-12, 1.))),
         'far': lambda: n * draw(gen.logf(1.5, 1e6)),
         'below': lambda: n * draw(gen.f(0.01, 1.)),
         'equal': lambda: float(n)}[how]()
    if n == 1:
        x = min(x, 1.)
    return {'n': n, 'x': x, 'dt': draw(st.sampled_from([1., 3600.]) |
                                       gen.logf(0.1, 1e6))}


@sub('C26', 'geometric', geometric(), 1500, 30000, shards=2)
def check_geometric(c, ctx):
    n, dt = c['n'], c['dt']
    tmax = c['x'] * dt
    if n == 1 and tmax > dt:
        ctx.set_trivial('contradictory')
        return
    t = finite(U.time_geometric(dt, tmax, n), (n,), 'geometric times')
    if n == 1:
        ctx.set_trivial('one step')
    close(t[0], dt, rtol=1e-9, what='first step')
    require(np.all(np.diff(t) > 0.), 'increasing', t=t[-5:])
    if tmax <= n * dt:
        ctx.label('uniform')
        close(t, dt * np.arange(1, n + 1), rtol=1e-9, what='uniform steps')
        return
    ctx.label('expanding')
    close(t[-1], tmax, rtol=1e-12, what='maximum time')
    d = np.diff(np.concatenate(([0.], t)))
    q = d[1:] / d[:-1]
    # the rounding of times shows in the last of many steps
    tol = 1e-6 + 1e-13 * n * tmax / dt
    close(q, np.full(len(q), q[0]), rtol=tol, what='constant ratio')
    require(q[0] > 1. - tol, 'expanding steps', ratio=q[0])
    s = math.fsum(float(q[len(q) // 2])**i for i in range(n)) \
        if n <= 60 else None
    if s is not None:
        close(s * dt, tmax, rtol=1e-5 + n * n * tol, what='total of the '
              'steps')
