"""Generated networks and their solution borehole by borehole."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen, pipegen as pg

T = gen.nice(-10., 60., 5.)


@st.composite
def network(draw, nmax=6, kinds=('single', 'parallel', 'series', 'coaxial'),
            varied=None):
    """Boreholes, pipes and connections."""
    n = draw(st.integers(1, nmax))
    base = draw(pg.pipe(kinds, 2))
    base['reversible'] = True
    varied = draw(st.booleans()) if varied is None else varied
    pipes = []
    for i in range(n):
        p = dict(base)
        if varied:
            if draw(st.booleans()):
                p['H'] = draw(gen.f(20., 200.))
                p['D'] = draw(gen.depth)
            if draw(st.integers(0, 3)) == 0:
                p.update({k: v for k, v in draw(
                    pg.pipe(kinds, 2)).items()})
            p['reversible'] = True
        pipes.append(p)
    order = draw(st.permutations(list(range(n))))
    cuts = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    con = [-1] * n
    for k in range(1, n):
        if not cuts[k]:
            con[order[k]] = order[k - 1]
    pos = draw(gen.layout(n, n))
    return {'pipes': pipes, 'con': con, 'pos': pos,
            'default_con': all(x == -1 for x in con) and draw(st.booleans())}


def n_in(c):
    return c['con'].count(-1)


@st.composite
def flow(draw, c, sign=True):
    k = n_in(c)
    p = c['pipes'][0]
    m = [abs(x['m'][0]) for x in
         [draw(pg.flow(p, ntu=(0.05, 1.0))) for _ in range(k)]]
    cp = draw(st.one_of(st.just(4000.), gen.f(1000., 5000.)))
    s = -1. if sign and draw(st.integers(0, 2)) == 0 else 1.
    how = draw(st.sampled_from(['total', 'array', 'array']))
    # the flows are drawn for the first pipe; enough for the others too, whose
    # equations are not solvable otherwise
    ex = conditioning(c, {'m': m, 'cp': cp})
    m = [x * max(1., ex / 20.) for x in m]
    if how == 'total':
        return {'m': s * sum(m), 'cp': cp}
    return {'m': [s * x for x in m], 'cp': cp}


@st.composite
def segments(draw, c):
    n = len(c['pipes'])
    how = draw(st.sampled_from(['int', 'int', 'list', 'ratios', 'ratio lists'
                                ]))
    if how == 'int':
        return {'n': draw(st.integers(1, 4)), 'r': None}
    if how == 'list':
        return {'n': [draw(st.integers(1, 4)) for _ in range(n)], 'r': None}
    if how == 'ratios':
        k = draw(st.integers(1, 4))
        w = draw(st.lists(gen.f(0.1, 1.), min_size=k, max_size=k))
        return {'n': k, 'r': [x / sum(w) for x in w]}
    same = draw(st.booleans())
    k0 = draw(st.integers(1, 4))
    r = []
    for _ in range(n):
        k = k0 if same else draw(st.integers(1, 4))
        w = draw(st.lists(gen.f(0.1, 1.), min_size=k, max_size=k))
        r.append([x / sum(w) for x in w])
    return {'n': k0 if same and draw(st.booleans()) else
            [len(x) for x in r], 'r': r}


def counts(c, s):
    n = len(c['pipes'])
    return [s['n']] * n if isinstance(s['n'], int) else list(s['n'])


def ratio_list(c, s):
    n = len(c['pipes'])
    if s['r'] is None:
        return [np.full(k, 1. / k) for k in counts(c, s)]
    if isinstance(s['r'][0], list):
        return [np.array(x) for x in s['r']]
    return [np.array(s['r'])] * n


def seg_args(s):
    kw = {}
    if s['r'] is not None:
        kw['segment_ratios'] = [np.array(x) for x in s['r']] \
            if isinstance(s['r'][0], list) else np.array(s['r'])
    return (s['n'] if isinstance(s['n'], int) else list(s['n'])), kw


def flow_args(fl):
    m = fl['m']
    return (np.array(m) if isinstance(m, list) else float(m)), fl['cp']


def parts(c):
    bs = [pg.borehole(p, *xy) for p, xy in zip(c['pipes'], c['pos'])]
    return bs, [pg.build(p, b) for p, b in zip(c['pipes'], bs)]


def build(c, cls=None, **kw):
    bs, ps = parts(c)
    if not c['default_con']:
        kw['bore_connectivity'] = list(c['con'])
    return gt.networks.Network(bs, ps, **kw)


def circuits(c):
    """Sequences of boreholes, in the order of their inlets."""
    nxt = {p: i for i, p in enumerate(c['con']) if p != -1}
    out = []
    for i, p in enumerate(c['con']):
        if p == -1:
            seq = [i]
            while seq[-1] in nxt:
                seq.append(nxt[seq[-1]])
            out.append(seq)
    return out


def conditioning(c, fl):
    """Growth of exponentials in the solutions of the pipes."""
    k = n_in(c)
    m = fl['m'] if isinstance(fl['m'], list) else [fl['m'] / k] * k
    ex = 0.
    for seq, x in zip(circuits(c), m):
        for i in seq:
            try:
                with np.errstate(all='ignore'):
                    A = pg.Ref(c['pipes'][i], abs(x), fl['cp']).A
                    e = float(np.max(np.abs(np.linalg.eigvals(A))))
            except Exception:
                # the resistances are wrong: for the check to find out
                continue
            if math.isfinite(e):
                ex = max(ex, e * c['pipes'][i]['H'])
    return ex


def solve(c, fl, s, T_in, T_b):
    """Follow the fluid from borehole to borehole.  T_b: list per borehole."""
    _, ps = parts(c)
    k = n_in(c)
    m = fl['m'] if isinstance(fl['m'], list) else [fl['m'] / k] * k
    cp = fl['cp']
    rs = ratio_list(c, s)
    n = len(ps)
    Tin, Tout, Qb = [None] * n, [None] * n, [None] * n
    last, w = [], []
    for seq, x in zip(circuits(c), m):
        t = T_in
        for i in (seq if x > 0 else seq[::-1]):
            Tin[i] = t
            t = ps[i].get_outlet_temperature(
                t, np.array(T_b[i]), x, cp, segment_ratios=rs[i])
            Tout[i] = t = float(np.asarray(t).reshape(-1)[0])
            Qb[i] = np.asarray(ps[i].get_borehole_heat_extraction_rate(
                Tin[i], np.array(T_b[i]), x, cp,
                segment_ratios=rs[i])).reshape(-1)
        last.append(t)
        w.append(abs(x))
    flow_of = {i: abs(x) for seq, x in zip(circuits(c), m) for i in seq}
    Qf = np.array([flow_of[i] * cp * (Tout[i] - Tin[i]) for i in range(n)])
    net = float(np.dot(last, w) / sum(w))
    return {'Tin': np.array(Tin), 'Tout': np.array(Tout),
            'Qb': np.concatenate(Qb), 'Qf': Qf, 'net_out': net,
            'Qnet': sum(w) * cp * (net - T_in), 'C': max(w) * cp,
            'Ctot': sum(w) * cp}


def renumber(net, m, pm):
    """The same network with boreholes renumbered: new index k holds borehole
    pm[k].  Flows given per circuit follow their circuits."""
    inv = {b: k for k, b in enumerate(pm)}
    net2 = {'pipes': [net['pipes'][b] for b in pm],
            'pos': [net['pos'][b] for b in pm],
            'con': [-1 if net['con'][b] == -1 else inv[net['con'][b]]
                    for b in pm], 'default_con': False}
    first = [q[0] for q in circuits(net)]
    m2 = m if np.ndim(m) == 0 else np.array(
        [np.asarray(m)[first.index(pm[q[0]])] for q in circuits(net2)])
    return net2, m2
