"""C15: a pipe answers the same whatever it was asked before."""
import copy
import pickle

import numpy as np
import pygfunction as gt
from hypothesis import assume, strategies as st

from pbt import gen, pipegen as pg
from pbt.harness import close, describe, finite, require, same, scalar, sub

describe('C15', (
    'Drawn pipes of all kinds and drawn sequences of queries on one object: '
    'every method, flows from a pool that contains nearly equal, opposite '
    'and equal-product values, segment numbers and ratios from a pool, '
    'caller arrays reused in place, thermal resistances updated in between; '
    'after each query the answer is compared with that of a new object '
    'asked only once. A case is trivial when it has fewer than two '
    'queries.'),
    ['flows closer to one another than one part in a million may share an '
     'answer, and are not drawn'])

METHODS = ['outlet', 'fluid', 'Qb', 'Qf', 'Qt', 'inlet', 'c_inlet',
           'c_outlet', 'c_temp', 'c_Qb', 'c_Qf', 'eff']


@st.composite
def case(draw):
    c = draw(pg.pipe())
    k = pg.n_in(c)
    base = draw(pg.flow(c, ntu=(0.05, 2.)))
    m0, cp0 = base['m'], base['cp']
    pool = [(m0, cp0)]
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['near', 'nearer', 'opposite', 'product',
                                     'other', 'perm', 'equal', 'fluids']))
        m, cp = list(m0), cp0
        if kind == 'near':
            m = [x * 1.02 for x in m]
        elif kind == 'nearer':
            i = draw(st.integers(0, k - 1))
            m[i] *= 1. + 1e-4
        elif kind == 'opposite':
            m = [-x for x in m]
        elif kind == 'product':
            m, cp = [x * 2. for x in m], cp / 2.
        elif kind == 'perm':
            m = m[::-1]
        elif kind == 'equal':
            m = [m[0]] * k
        elif kind == 'fluids' and c['kind'] == 'independent':
            # a fluid of its own in each U-tube
            cp = [cp * draw(st.sampled_from([0.75, 1., 1.25]))
                  for _ in range(k)]
        else:
            m = draw(pg.flow(c, ntu=(0.05, 2.)))['m']
        pool.append((m, cp))
    assume(gen.apart([x for m, _ in pool for x in m])
           and gen.apart([x for _, v in pool
                           for x in (v if isinstance(v, list) else [v])]))
    n0 = draw(st.integers(1, 4))
    rs = [[n0, None]]
    for _ in range(draw(st.integers(0, 3))):
        kind = draw(st.sampled_from(['none', 'ratio', 'equal', 'reverse']))
        n = draw(st.integers(1, 4))
        if kind == 'none':
            rs.append([n, None])
        elif kind == 'equal':
            rs.append([n, [1. / n] * n])
        elif kind == 'reverse' and rs[-1][1] is not None:
            rs.append([rs[-1][0], rs[-1][1][::-1]])
        else:
            w = draw(st.lists(gen.f(0.1, 1.), min_size=n, max_size=n))
            rs.append([n, [x / sum(w) for x in w]])
    assume(gen.apart([x for _, r in rs if r for x in r]))
    ops = draw(st.lists(st.fixed_dictionaries({
        'op': st.sampled_from(METHODS + ['R_fp', 'copy']),
        'flow': st.integers(0, len(pool) - 1),
        'seg': st.integers(0, len(rs) - 1),
        'buf': st.booleans(), 'T': st.integers(0, 2),
        'R': st.sampled_from([0.02, 0.05, 0.1, 0.4])}),
        min_size=2, max_size=14))
    return {'pipe': c, 'flows': [{'m': m, 'cp': cp} for m, cp in pool],
            'segs': rs, 'ops': ops}


TIN = [[20., 5., 41.], [0., 0., 0.], [-3., 30., 8.]]
TB = [[10., 12., 7., 9.], [1., 0., 0., 0.], [15., 15., 15., 15.]]


def ask(pipe, p, o, m, cp, n, kw, args):
    T_in = np.array(TIN[o['T']][:pg.n_in(p)])
    T_b = np.array(TB[o['T']][:n])
    if p['kind'] != 'independent':
        T_in = float(T_in[0])
    z = np.array([0., 0.3, 0.77]) * p['H']
    op = o['op']
    if op == 'outlet':
        return pipe.get_outlet_temperature(T_in, T_b, m, cp, **kw)
    if op == 'fluid':
        return pipe.get_temperature(z[o['seg'] % 3:], T_in, T_b, m, cp, **kw)
    if op == 'Qb':
        return pipe.get_borehole_heat_extraction_rate(T_in, T_b, m, cp, **kw)
    if op == 'Qf':
        return pipe.get_fluid_heat_extraction_rate(T_in, T_b, m, cp, **kw)
    if op == 'Qt':
        return pipe.get_total_heat_extraction_rate(T_in, T_b, m, cp, **kw)
    if op == 'inlet':
        Q = np.array([500., -300., 100.])[:pg.n_in(p)]
        return pipe.get_inlet_temperature(
            Q if p['kind'] == 'independent' else float(Q[0]), T_b, m, cp,
            **kw)
    if op == 'c_temp':
        return pipe.coefficients_temperature(z, m, cp, n, **kw)
    if op == 'eff':
        if pg.n_in(p) > 1:
            return pipe.local_borehole_thermal_resistance()
        return pipe.effective_borehole_thermal_resistance(m, cp)
    f = {'c_inlet': pipe.coefficients_inlet_temperature,
         'c_outlet': pipe.coefficients_outlet_temperature,
         'c_Qb': pipe.coefficients_borehole_heat_extraction_rate,
         'c_Qf': pipe.coefficients_fluid_heat_extraction_rate}[op]
    return f(m, cp, n, **kw)


def flat(x):
    x = x if isinstance(x, tuple) else (x,)
    return [finite(y) for y in x]


@sub('C15', 'history', case(), 900, 24000, shards=4)
def check_history(c, ctx):
    p = dict(c['pipe'])
    pipe = pg.build(p)
    ctx.label(p['kind'], f'{min(len(c["ops"]), 10)} operations')
    if len(c['ops']) < 2:
        ctx.set_trivial('one query')
    bufs = {}
    for i, o in enumerate(c['ops']):
        if o['op'] == 'R_fp':
            p['R_fp'] = o['R']
            if p['kind'] == 'coaxial':
                p['R_ff'] = o['R'] * 1.5
                pipe.update_thermal_resistances(p['R_ff'], p['R_fp'])
            else:
                pipe.update_thermal_resistances(p['R_fp'])
            new = pg.build(p)
            for a in ('R_fp', 'R_ff'):
                if hasattr(new, a):
                    same(getattr(pipe, a), getattr(new, a),
                         f'{a} of the pipe after an update')
            ctx.label('resistances updated')
            continue
        if o['op'] == 'copy':
            # a copy stands in for the pipe, its answers included
            pipe = copy.deepcopy(pipe) if o['buf'] else pickle.loads(
                pickle.dumps(pipe))
            ctx.label('copied')
            continue
        m, cp = pg.flow_args(p, c['flows'][o['flow']])
        n, r = c['segs'][o['seg']]
        kw = {}
        if r is not None:
            kw['segment_ratios'] = np.array(r)
            if o['buf']:
                # the caller fills the same array for every query
                a = bufs.setdefault(('r', n), np.zeros(n))
                a[:] = r
                kw['segment_ratios'] = a
                ctx.label('buffers reused')
        if isinstance(m, np.ndarray) and o['buf']:
            a = bufs.setdefault('m', np.zeros(len(m)))
            a[:] = m
            m = a
        got = flat(ask(pipe, p, o, m, cp, n, kw, c))
        m2 = np.array(m) if isinstance(m, np.ndarray) else m
        kw2 = {} if r is None else {'segment_ratios': np.array(r)}
        exp = flat(ask(pg.build(p), p, o, m2, cp, n, kw2, c))
        require(len(got) == len(exp), 'number of results')
        for a, b in zip(got, exp):
            close(a, b, rtol=1e-9,
                  scale=float(np.max(np.abs(b))) if b.size else 0.,
                  what=f'query {i} ({o["op"]}) after {i} others')


@st.composite
def many(draw):
    ps = [draw(pg.pipe()) for _ in range(draw(st.integers(2, 3)))]
    # variants of the first that differ in one parameter
    if draw(st.booleans()):
        q = dict(ps[0])
        f = draw(st.sampled_from(['k_s', 'k_g', 'R_fp', 'J', 'pos']))
        if f == 'J':
            q['J'] = (q['J'] + 1) % 4
        elif f == 'pos':
            if q['kind'] == 'coaxial':
                q['pos'] = [-x for x in q['pos']]
            else:
                q['pos'] = [[-x, y] for x, y in q['pos']]
                q['pos'] = q['pos'][1:] + q['pos'][:1]
        else:
            q[f] = q[f] * draw(st.sampled_from([1.001, 1.5]))
        ps.append(q)
    flows = [draw(pg.flow(p, ntu=(0.05, 2.))) for p in ps]
    return {'pipes': ps, 'flows': flows,
            'order': draw(st.lists(st.integers(0, len(ps) - 1), min_size=2,
                                   max_size=10)),
            'rebuild': draw(st.booleans())}


@sub('C15', 'several', many(), 300, 9000)
def check_several(c, ctx):
    """Pipes queried in turns do not disturb one another."""
    ps = c['pipes']
    ctx.label(*(p['kind'] for p in ps))

    def q(pipe, p, fl):
        m, cp = pg.flow_args(p, fl)
        return flat((pipe.get_outlet_temperature(
            np.array(TIN[0][:pg.n_in(p)]), np.array(TB[0]), m, cp),
            pipe.local_borehole_thermal_resistance()))
    # delta-circuit resistances of very different sections are computed in
    # between, so that nothing kept from a previous section can help
    ref = []
    for p, fl in zip(ps, c['flows']):
        gt.pipes.thermal_resistances([(0., 0.)], 0.01, 0.5, 9., 9., 9.)
        ref.append(q(pg.build(p), p, fl))
    objs = [pg.build(p) for p in ps]
    for i in c['order']:
        if c['rebuild']:
            objs[i] = pg.build(ps[i])
        for a, b in zip(q(objs[i], ps[i], c['flows'][i]), ref[i]):
            close(a, b, rtol=1e-9, scale=float(np.max(np.abs(b))),
                  what=f'pipe {i} among others')
