"""C08: laws of temporal and spatial superposition with aggregated loads."""
import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import agggen, gen
from pbt.harness import close, describe, finite, require, same, sub

describe('C08', (
    'Drawn schemes, sizes and histories (as in C07); two or more complete '
    'simulations of the same scheme are related: scaled and added loads, '
    'one source at a time, equal loads on all sources, constant loads, '
    'a response proportional to time (total heat is conserved), bounds, '
    'and several simulations interleaved in one process. A case is trivial '
    'when all loads are zero.'),
    ['a load older than the last cell of Claesson and Javed may leave it, '
     'so exact conservation is asked up to as many steps as cells'])


def times(o, c):
    t = finite(o.get_times_for_simulation())
    return t / c['dt']


def simulate(c, qs, r=None, gfun=None, one_d=False):
    """Answers after each step, (nt, ns)."""
    o = agggen.build(c)
    n = times(o, c)
    g = agggen.g_at(r, n) if gfun is None else gfun(n)
    o.initialize(g[0, 0] if one_d else g)
    out = []
    for k, q in enumerate(qs):
        o.next_time_step((k + 1) * c['dt'])
        if q is not None:
            o.set_current_load(agggen.setter(c, q))
        out.append(finite(np.asarray(o.temporal_superposition())
                          .reshape(-1), (c['ns'],), 'answer'))
    return np.array(out)


def nontrivial(c, ctx, qs):
    ctx.label(c['kind'], f'nSources={c["ns"]}')
    if not any(x for q in qs if q for x in q):
        ctx.set_trivial('no load')


def sc(*a):
    return max([1e-300] + [float(np.max(np.abs(x))) for x in a if x.size])


@st.composite
def two(draw):
    c = draw(agggen.scheme(nmax=90))
    c['r'] = draw(agggen.response(c['ns']))
    c['q1'] = draw(agggen.steps(c))
    c['q2'] = draw(agggen.steps(c))
    c['a'], c['b'] = draw(gen.f(-3., 3.)), draw(gen.f(-3., 3.))
    return c


@sub('C08', 'linear', two(), 400, 12000, shards=2)
def check_linear(c, ctx):
    nontrivial(c, ctx, c['q1'] + c['q2'])
    z = [0.] * c['ns']
    mix = [[c['a'] * x + c['b'] * y for x, y in zip(p or z, q or z)]
           for p, q in zip(c['q1'], c['q2'])]
    t1, t2 = (simulate(c, c[k], c['r']) for k in ('q1', 'q2'))
    t = simulate(c, mix, c['r'])
    close(t, c['a'] * t1 + c['b'] * t2, rtol=1e-8,
          scale=sc(t, t1 * c['a'], t2 * c['b']), what='superposed loads')


@sub('C08', 'sources', two(), 300, 10000, shards=2)
def check_sources(c, ctx):
    nontrivial(c, ctx, c['q1'])
    ns = c['ns']
    if ns == 1:
        ctx.set_trivial('one source')
    t = simulate(c, c['q1'], c['r'])
    s, parts = np.zeros_like(t), []
    for j in range(ns):
        qj = [None if q is None else
              [x if i == j else 0. for i, x in enumerate(q)]
              for q in c['q1']]
        tj = simulate(c, qj, c['r'])
        parts.append(tj)
        s = s + tj
        # the response to source j alone is the one of column j
        one = dict(c, ns=1, default=c['default'])
        for i in range(ns):
            rij = {'a': [[c['r']['a'][i][j]]], 'tau': [[c['r']['tau'][i][j]]]}
            tij = simulate(one, [None if q is None else [q[j]]
                                 for q in c['q1']], rij,
                           one_d=bool((i + j) % 2))
            close(tj[:, i], tij[:, 0], rtol=1e-9, scale=sc(tij),
                  what=f'source {j} on {i}')
    close(t, s, rtol=1e-8, scale=sc(*parts), what='sum over the sources')


@sub('C08', 'equal_loads', two(), 200, 6000)
def check_equal(c, ctx):
    nontrivial(c, ctx, c['q1'])
    ns = c['ns']
    q = [None if p is None else [p[0]] * ns for p in c['q1']]
    t = simulate(c, q, c['r'])
    for i in range(ns):
        o = agggen.build(dict(c, ns=1))
        tot = lambda n, i=i: agggen.g_at(c['r'], n)[i].sum(
            axis=0).reshape(1, 1, -1)
        ti = simulate(dict(c, ns=1), [None if p is None else [p[0]]
                                      for p in c['q1']], gfun=tot)
        close(t[:, i], ti[:, 0], rtol=1e-9, scale=sc(ti),
              what='equal loads on all sources')


@st.composite
def one(draw):
    c = draw(agggen.scheme(nmax=120))
    c['r'] = draw(agggen.response(c['ns']))
    c['q1'] = draw(agggen.steps(c))
    c['c'] = draw(gen.logf(1e-3, 10.))
    return c


@sub('C08', 'conservation', one(), 400, 12000)
def check_conservation(c, ctx):
    """A response proportional to time sees only the total heat."""
    nontrivial(c, ctx, c['q1'])
    ns = c['ns']
    A = np.array(c['r']['a'])
    o = agggen.build(c)
    cells = len(times(o, c))
    t = simulate(c, c['q1'], gfun=lambda n: A[:, :, None] * n)
    z = [0.] * ns
    tot = np.cumsum(np.array([q or z for q in c['q1']]), axis=0)
    lim = min(len(t), cells) if c['kind'] == 'CJ' else len(t)
    close(t[:lim], (tot @ A.T)[:lim], rtol=1e-9,
          scale=sc(np.cumsum(np.abs([q or z for q in c['q1']]), axis=0)
                   @ A.T), what='total heat')


@sub('C08', 'constant', one(), 300, 10000)
def check_constant(c, ctx):
    """A constant load since the start gives the response itself."""
    q = [float(i + 1) * c['c'] for i in range(c['ns'])]
    ctx.label(c['kind'])
    t = simulate(c, [q] * c['nt'], c['r'])
    ex = np.array([agggen.g_at(c['r'], [k + 1])[:, :, 0] @ q
                   for k in range(c['nt'])])
    if c['kind'] == 'CJ':
        # spread over the cells: exact while all cells are one step wide,
        # never above the response of the same load over the full span
        per = agggen.DEF['CJ'] if c['default'] else c['opt']
        k = per['cells_per_level']
        close(t[:k], ex[:k], rtol=1e-9, what='constant load')
        n = times(agggen.build(c), c)
        top = agggen.g_at(c['r'], n[-1:])[:, :, 0] @ q
        require(np.all(np.diff(t, axis=0) >= -1e-9 * sc(t)),
                'constant load, decreasing answer')
        require(np.all(t <= top * (1 + 1e-9)), 'beyond the full response')
    else:
        close(t, ex, rtol=1e-9, what='constant load')


@sub('C08', 'bounds', one(), 300, 10000)
def check_bounds(c, ctx):
    """Loads between lo and hi: answers between those of lo and hi."""
    nontrivial(c, ctx, c['q1'])
    z = [0.] * c['ns']
    qs = [[abs(x) for x in (q or z)] for q in c['q1']]
    t = simulate(c, qs, c['r'])
    require(np.all(t >= -1e-9 * sc(t)), 'negative answer to injected heat',
            t=t)
    hi = np.max(np.array(qs), axis=0)
    th = simulate(c, [list(hi)] * c['nt'], c['r'])
    require(np.all(t <= th + 1e-9 * sc(th)), 'above the answer to the peak')
    if c['kind'] == 'CJ' and len(qs) > 1:
        # the scheme itself does not depend on when the simulation started
        k = len(qs) // 2
        shifted = [z] * (len(qs) - k) + qs[:k]
        ts = simulate(c, shifted, c['r'])
        close(ts[len(qs) - k:], t[:k], rtol=1e-9, scale=sc(t),
              what='history delayed by idle steps')


@st.composite
def inter(draw):
    k = draw(st.integers(2, 3))
    cs = []
    for _ in range(k):
        if cs and draw(st.booleans()):
            c = dict(cs[0])
        else:
            c = draw(agggen.scheme(nmax=40))
        c['r'] = draw(agggen.response(c['ns']))
        c['q1'] = draw(agggen.steps(c))
        cs.append(c)
    order = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=80))
    return {'sims': cs, 'order': order, 'early': draw(st.booleans())}


@sub('C08', 'interleaved', inter(), 200, 8000)
def check_interleaved(c, ctx):
    """Simulations advanced in turns do not disturb one another."""
    cs = c['sims']
    alone = [simulate(x, x['q1'], x['r']) for x in cs]
    objs, gs = [], []
    for x in cs:
        o = agggen.build(x)
        g = agggen.g_at(x['r'], times(o, x))
        gs.append(g)
        if c['early']:
            o.initialize(g)
        objs.append(o)
    if not c['early']:
        for o, g in zip(objs, gs):
            o.initialize(g)
    at = [0] * len(cs)
    for i in c['order'] + [i for i in range(len(cs)) for _ in range(200)]:
        x, o, k = cs[i], objs[i], at[i]
        if k >= x['nt']:
            continue
        o.next_time_step((k + 1) * x['dt'])
        if x['q1'][k] is not None:
            o.set_current_load(agggen.setter(x, x['q1'][k]))
        a = np.asarray(o.temporal_superposition(), float).reshape(-1)
        same(a, alone[i][k], f'simulation {i}, step {k}')
        # asking twice changes nothing
        b = np.asarray(o.temporal_superposition(), float).reshape(-1)
        same(b, a, 'asked twice')
        at[i] += 1
    ctx.label(*(x['kind'] for x in cs))


@sub('C08', 'increments', one(), 200, 4000)
def check_increments(c, ctx):
    """Increments reported by the Claesson and Javed scheme add up to the
    given response factors."""
    c = dict(c, kind='CJ', opt={'cells_per_level': 1 + c['nt'] % 7})
    o = agggen.build(c)
    g = agggen.g_at(c['r'], times(o, c))
    o.initialize(g)
    d = finite(o.get_thermal_response_factor_increment())
    if c['ns'] == 1:
        d = d.reshape(1, 1, -1)
    require(d.shape == g.shape, 'shape of the increments', got=d.shape)
    close(np.cumsum(d, axis=2), g, rtol=1e-12, scale=sc(g),
          what='sum of the increments')


@st.composite
def revised(draw):
    c = draw(one())
    c['tries'] = draw(st.lists(st.tuples(st.integers(0, c['nt'] - 1),
                                         agggen.load, st.booleans()),
                               min_size=1, max_size=12))
    c['cut'] = draw(st.integers(0, c['nt']))
    return c


@sub('C08', 'revised loads', revised(), 400, 10000)
def check_revised(c, ctx):
    """The last load set in a step is the one that counts, and answers do
    not depend on what follows."""
    nontrivial(c, ctx, c['q1'])
    ns = c['ns']
    t = simulate(c, c['q1'], c['r'])
    o = agggen.build(c)
    o.initialize(agggen.g_at(c['r'], times(o, c)))
    tries = {}
    for k, q, ask in c['tries']:
        tries.setdefault(k, []).append((q, ask))
    for k, q in enumerate(c['q1']):
        o.next_time_step((k + 1) * c['dt'])
        for q2, ask in tries.get(k, ()):
            o.set_current_load(agggen.setter(
                c, [q2 * (1 + i) for i in range(ns)]))
            if ask:
                o.temporal_superposition()
        if q is not None or k in tries:
            o.set_current_load(agggen.setter(c, q or [0.] * ns))
        a = finite(np.asarray(o.temporal_superposition()).reshape(-1))
        close(a, t[k], rtol=1e-12, scale=sc(t), what=f'step {k} after '
              'other loads were tried')
    later = c['q1'][:c['cut']] + [[1.7] * ns] * (c['nt'] - c['cut'])
    t2 = simulate(c, later, c['r'])
    same(t2[:c['cut']], t[:c['cut']], 'answers before the loads differ')
