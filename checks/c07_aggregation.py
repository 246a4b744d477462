"""C07: load aggregation is the convolution of the aggregated history."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import agg, agggen, gen
from pbt.harness import close, describe, finite, require, same, sub

describe('C07', (
    'Drawn schemes (all three algorithms, drawn cell sizes and waiting '
    'periods or the defaults), 1 to 4 sources with asymmetric response '
    'matrices, drawn load histories in which loads may be skipped, set '
    'twice or queried before being set; every answer of every step is '
    'compared with an independent model that keeps the whole history. A '
    'case is trivial when the history is all zeros or has one step.'),
    ['loads are set between a time step and the next',
     'waiting periods are at least one cell'])


@st.composite
def case(draw, kinds=('CJ', 'MLAA', 'Liu'), nmax=110):
    c = draw(agggen.scheme(kinds, nmax))
    c['r'] = draw(agggen.response(c['ns']))
    c['q'] = draw(agggen.steps(c))
    n = c['nt']
    c['pre'] = sorted(set(draw(st.lists(st.integers(0, n - 1), max_size=4))))
    c['over'] = sorted(set(draw(st.lists(st.integers(0, n - 1),
                                         max_size=4))))
    c['skipq'] = sorted(set(draw(st.lists(st.integers(0, n - 1),
                                          max_size=4))))
    c['scalar_load'] = draw(st.booleans())
    c['one_d'] = draw(st.booleans())
    return c


def ask(o, ns, what):
    return finite(np.asarray(o.temporal_superposition()).reshape(-1), (ns,),
                  what)


def drive(c, ctx):
    o, m = agggen.build(c), agggen.model(c)
    ns = c['ns']
    ctx.label(c['kind'], f'nSources={ns}')
    t = finite(o.get_times_for_simulation(), what='times')
    if c['kind'] == 'CJ':
        n = m.times
    else:
        n = np.arange(1, int(math.ceil(round(agggen.tmax(c) / c['dt'], 9)))
                      + 1)
    close(t, n * c['dt'], rtol=1e-9, what='times of the response factors')
    g = agggen.g_at(c['r'], n)
    garg = g[0, 0] if (ns == 1 and c['one_d']) else g
    keep = garg.copy()
    o.initialize(garg)
    scale = float(np.max(np.abs(g)))
    qmax = max([1e-300] + [abs(x) for q in c['q'] if q for x in q])
    if qmax == 1e-300 or c['nt'] == 1:
        ctx.set_trivial('no history')
    for k in range(c['nt']):
        o.next_time_step((k + 1) * c['dt'])
        m.step()
        q = c['q'][k]
        if k in c['pre']:
            # the answer before the load of the step is known
            ctx.label('queried before set')
            close(ask(o, ns, 'before'), m.answer(g), rtol=1e-9,
                  scale=scale * qmax, atol=0.,
                  what=f'step {k}, load not yet set')
        if k in c['over'] and q is not None:
            ctx.label('set twice')
            o.set_current_load(agggen.setter(c, [7. * x + 1. for x in q]))
            ask(o, ns, 'overwritten')
        if q is None:
            ctx.label('load skipped')
        else:
            a = agggen.setter(c, q)
            o.set_current_load(a)
            if isinstance(a, np.ndarray):
                a[:] = 1e9                  # the caller reuses its buffer
            m.load(q)
        if k not in c['skipq']:
            close(ask(o, ns, 'answer'), m.answer(g), rtol=1e-9,
                  scale=scale * qmax, what=f'step {k}')
    same(garg, keep, 'response factors given by the caller')
    return o, m, g


@sub('C07', 'claesson_javed', case(('CJ',)), 600, 16000, shards=2)
def check_cj(c, ctx):
    drive(c, ctx)


@sub('C07', 'mlaa', case(('MLAA',)), 600, 16000, shards=2)
def check_mlaa(c, ctx):
    drive(c, ctx)


@sub('C07', 'liu', case(('Liu',)), 600, 16000, shards=2)
def check_liu(c, ctx):
    drive(c, ctx)


@st.composite
def longcase(draw):
    """Default sizes, long histories: every aggregation level is reached."""
    kind = draw(st.sampled_from(['MLAA', 'MLAA', 'CJ']))
    c = {'kind': kind, 'ns': draw(st.sampled_from([1, 2])), 'dt': 3600.,
         'nt': draw(st.integers(560, 760)), 'frac': 0., 'opt': {},
         'default': True, 'pre': [], 'over': [], 'scalar_load': True,
         'one_d': True}
    if draw(st.booleans()) and kind == 'CJ':
        c['default'] = False
        c['opt'] = {'cells_per_level': draw(st.integers(2, 12))}
    c['r'] = draw(agggen.response(c['ns']))
    per = draw(st.integers(2, 40))
    p = [[draw(agggen.load) for _ in range(c['ns'])] for _ in range(per)]
    drift = draw(gen.f(-1., 1.))
    c['q'] = [[x + drift * i for x in p[i % per]] for i in range(c['nt'])]
    c['skipq'] = [k for k in range(c['nt']) if k % 53 and k < c['nt'] - 60]
    return c


@sub('C07', 'long', longcase(), 32, 600, shards=2)
def check_long(c, ctx):
    drive(c, ctx)


@st.composite
def liulong(draw):
    c = {'kind': 'Liu', 'ns': draw(st.sampled_from([1, 2])), 'dt': 3600.,
         'nt': draw(st.integers(150, 420)), 'frac': 0., 'default': False,
         'opt': {k: draw(st.integers(0 if k in ('W2', 'W3') else 1, m))
                 for k, m in
                 (('N1', 5), ('N2', 3), ('N3', 4),
                  ('W1', 6), ('W2', 4), ('W3', 4))},
         'pre': [], 'over': [], 'scalar_load': True, 'one_d': True}
    c['r'] = draw(agggen.response(c['ns']))
    per = draw(st.integers(2, 40))
    p = [[draw(agggen.load) for _ in range(c['ns'])] for _ in range(per)]
    drift = draw(gen.f(-1., 1.))
    c['q'] = [[x + drift * i for x in p[i % per]] for i in range(c['nt'])]
    c['skipq'] = [k for k in range(c['nt']) if k % 7 and k < c['nt'] - 60]
    return c


@sub('C07', 'liu_long', liulong(), 60, 1500, shards=2)
def check_liu_long(c, ctx):
    drive(c, ctx)


@st.composite
def liudefault(draw):
    """Default sizes of Liu's scheme, long enough for large cells."""
    c = {'kind': 'Liu', 'ns': 1, 'dt': 3600.,
         'nt': draw(st.integers(13550, 13700)), 'frac': 0., 'default': True,
         'opt': {}, 'pre': [], 'over': [], 'scalar_load': True,
         'one_d': draw(st.booleans())}
    c['r'] = draw(agggen.response(1))
    per = draw(st.integers(2, 9))
    p = [draw(agggen.load) for _ in range(per)]
    c['p'], c['drift'] = p, draw(gen.f(-1., 1.))
    return c


@sub('C07', 'liu_default', liudefault(), 4, 60, shards=4)
def check_liu_default(c, ctx):
    c = dict(c)
    p, n = c['p'], c['nt']
    c['q'] = [[p[i % len(p)] + c['drift'] * i] for i in range(n)]
    c['skipq'] = set(k for k in range(n) if k % 171 and k < n - 20)
    drive(c, ctx)


@st.composite
def fine(draw):
    """Cell structures that aggregate nothing: the exact convolution."""
    kind = draw(st.sampled_from(['CJ', 'MLAA', 'Liu']))
    n = draw(st.integers(1, 60))
    opt = {'CJ': {'cells_per_level': n},
           'MLAA': {'N0': n, 'N1': 5, 'N2': 5, 'N3': 5},
           'Liu': {'N1': n, 'N2': 2, 'N3': 2, 'W1': 1, 'W2': 1, 'W3': 1}}
    c = {'kind': kind, 'ns': draw(st.integers(1, 3)),
         'dt': draw(st.integers(1, 800000)) / 8., 'nt': n, 'frac': 0., 'opt': opt[kind],
         'default': False, 'scalar_load': draw(st.booleans())}
    c['r'] = draw(agggen.response(c['ns']))
    c['q'] = draw(agggen.steps(c))
    return c


@sub('C07', 'exact', fine(), 400, 8000)
def check_exact(c, ctx):
    o, m, ns = agggen.build(c), agg.Exact(c['ns']), c['ns']
    ctx.label(c['kind'])
    n = np.arange(1, c['nt'] + 1)
    t = finite(o.get_times_for_simulation())
    require(len(t) >= c['nt'], 'fewer response factors than steps')
    n = np.arange(1, len(t) + 1)
    close(t, n * c['dt'], rtol=1e-9, what='times')
    g = agggen.g_at(c['r'], n)
    o.initialize(g)
    scale = float(np.max(np.abs(g))) * max(
        [1e-300] + [abs(x) for q in c['q'] if q for x in q])
    for k, q in enumerate(c['q']):
        o.next_time_step((k + 1) * c['dt'])
        m.step()
        if q is not None:
            o.set_current_load(agggen.setter(c, q))
            m.load(q)
        close(ask(o, ns, 'answer'), m.answer(g), rtol=1e-9, scale=scale,
              what=f'step {k}')
