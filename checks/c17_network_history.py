"""C17: a network answers the same whatever it was asked before."""
import copy
import pickle

import numpy as np
import pygfunction as gt
from hypothesis import assume, strategies as st

from pbt import gen, netgen as ng
from pbt.harness import close, describe, finite, require, sub

describe('C17', (
    'Drawn networks and sequences of queries on one object: every method, '
    'flows from a pool with totals, per-circuit arrays, equal values in '
    'both forms, near and opposite values, several forms of segments, caller '
    'arrays and lists reused in place, thermal resistances of the pipes '
    'updated, pipes asked by themselves or shared with another network, '
    'copies; each answer is compared with that of '
    'a new network asked once. A case is trivial when it has fewer than two '
    'queries.'),
    ['flows closer than one part in a million are not drawn'])

METHODS = ['inlet', 'outlet', 'Qb', 'Qf', 'net_in', 'net_out', 'net_Q',
           'c_inlet', 'c_outlet', 'c_Qb', 'c_Qf', 'c_net_in', 'c_net_out',
           'c_net_Q', 'resistance']


@st.composite
def case(draw):
    c = draw(ng.network(4))
    k = ng.n_in(c)
    base = draw(ng.flow(c, sign=False))
    if not isinstance(base['m'], list):
        base['m'] = [base['m'] / k] * k
    pool = [base]
    for _ in range(draw(st.integers(1, 4))):
        m, cp = list(base['m']), base['cp']
        kind = draw(st.sampled_from(['near', 'opposite', 'product', 'scalar',
                                     'first', 'perm', 'total', 'other']))
        if kind == 'near':
            m[draw(st.integers(0, k - 1))] *= 1. + 1e-4
        elif kind == 'opposite':
            m = [-x for x in m]
        elif kind == 'product':
            m, cp = [x * 2 for x in m], cp / 2
        elif kind == 'scalar':
            m = m[0]                     # a total equal to a circuit's flow
        elif kind == 'first':
            m = [m[0]] * k
        elif kind == 'perm':
            m = m[::-1]
        elif kind == 'total':
            m = sum(m)
        else:
            f = draw(ng.flow(c))
            m, cp = f['m'], f['cp']
        pool.append({'m': m, 'cp': cp})
    m = [np.atleast_1d(f['m']) for f in pool]
    assume(gen.apart(
        [x for a in m for x in a] + [np.sum(a) for a in m]
        + [np.sum(a) / q for a in m for q in (k, 1 / len(c['pipes']))] + [0.3])
        and gen.apart([f['cp'] for f in pool]))
    assume(all(ng.conditioning(c, f) < 30. for f in pool))
    segs = [draw(ng.segments(c)) for _ in range(draw(st.integers(1, 3)))]
    for s in list(segs):
        if s['r'] is not None and draw(st.booleans()):
            r = s['r']
            segs.append({'n': s['n'], 'r': [x[::-1] for x in r]
                         if isinstance(r[0], list) else r[::-1]})
    assume(gen.apart([x for s in segs if s['r'] for x in np.hstack(s['r'])]))
    ops = draw(st.lists(st.fixed_dictionaries({
        'op': st.sampled_from(METHODS + ['update', 'pipe', 'copy',
                                          'twin']),
        'k': st.integers(0, 3), 'R': gen.f(0.02, 0.6),
        'flow': st.integers(0, len(pool) - 1),
        'seg': st.integers(0, len(segs) - 1),
        'buf': st.booleans(), 'T': st.integers(0, 1)}),
        min_size=2, max_size=12))
    return {'net': c, 'flows': pool, 'segs': segs, 'ops': ops}


def ask(o, op, T, m, cp, n, kw, nt):
    T_in = 20. if T else -5.
    T_b = 10. + (np.arange(nt) * 7) % 5 if T else np.linspace(0., 9., nt)
    get = {'inlet': o.get_inlet_temperature,
           'outlet': o.get_outlet_temperature,
           'Qb': o.get_borehole_heat_extraction_rate,
           'Qf': o.get_fluid_heat_extraction_rate,
           'net_in': o.get_network_inlet_temperature,
           'net_out': o.get_network_outlet_temperature,
           'net_Q': o.get_network_heat_extraction_rate}
    if op in get:
        return get[op](1234. if op == 'net_in' else T_in, T_b, m, cp, n,
                       **kw)
    if op == 'resistance':
        return gt.networks.network_thermal_resistance(o, m, cp)
    return {'c_inlet': o.coefficients_inlet_temperature,
            'c_outlet': o.coefficients_outlet_temperature,
            'c_Qb': o.coefficients_borehole_heat_extraction_rate,
            'c_Qf': o.coefficients_fluid_heat_extraction_rate,
            'c_net_in': o.coefficients_network_inlet_temperature,
            'c_net_out': o.coefficients_network_outlet_temperature,
            'c_net_Q': o.coefficients_network_heat_extraction_rate}[op](
                m, cp, n, **kw)


def flat(x):
    return [finite(y) for y in (x if isinstance(x, tuple) else (x,))]


@sub('C17', 'history', case(), 1600, 32000, shards=6)
def check_history(c, ctx):
    net = dict(c['net'], pipes=[dict(p) for p in c['net']['pipes']])
    o = ng.build(net)
    if len(c['ops']) < 2:
        ctx.set_trivial('one query')
    ctx.label(f'{ng.n_in(net)} circuits')
    bufs = {}
    for i, q in enumerate(c['ops']):
        k = q['k'] % len(net['pipes'])
        if q['op'] == 'update':
            # the resistances of one pipe, or of all of them
            ctx.label('resistances updated')
            for j, p in enumerate(net['pipes']):
                if q['T'] or j == k:
                    p['R_fp'] = q['R']
                    if p['kind'] == 'coaxial':
                        p['R_ff'] = 1.5 * q['R']
                        o.p[j].update_thermal_resistances(
                            p['R_ff'], p['R_fp'])
                    else:
                        o.p[j].update_thermal_resistances(p['R_fp'])
            continue
        if q['op'] == 'pipe':
            # a pipe of the network asked by itself
            ctx.label('pipe asked')
            o.p[k].get_outlet_temperature(5., 10., 0.3, 4000.)
            continue
        if q['op'] == 'copy':
            # a copy stands in for the network
            ctx.label('copied')
            o = copy.deepcopy(o) if q['buf'] else pickle.loads(
                pickle.dumps(o))
            continue
        if q['op'] == 'twin':
            # another network of the same boreholes and pipes
            ctx.label('pipes shared')
            con = [-1] * len(net['pipes']) if q['T'] else list(
                range(-1, len(net['pipes']) - 1))
            m, cp = ng.flow_args(c['flows'][q['flow']])
            # no borehole has less flow than it is drawn for
            m = float(np.sum(m)) * (len(con) if q['T'] else 1)
            t = gt.networks.Network(o.b, o.p, bore_connectivity=con)
            e = ng.build(dict(net, con=con, default_con=False))
            nt = 2 * len(con)
            for op in ('net_out', METHODS[q['k']]):
                for a, b in zip(flat(ask(t, op, q['T'], m, cp, 2, {}, nt)),
                                flat(ask(e, op, q['T'], m, cp, 2, {}, nt))):
                    close(a, b, rtol=1e-9, scale=float(np.max(np.abs(b))),
                          what=f'second network of the same pipes ({op})')
            continue
        m, cp = ng.flow_args(c['flows'][q['flow']])
        s = c['segs'][q['seg']]
        n, kw = ng.seg_args(s)
        m2, (n2, kw2) = (np.array(m) if np.ndim(m) else m), ng.seg_args(s)
        if q['buf']:
            ctx.label('buffers reused')
            if np.ndim(m):
                a = bufs.setdefault('m', np.zeros(len(m)))
                a[:] = m
                m = a
            if isinstance(n, list):
                a = bufs.setdefault('n', [])
                a[:] = n
                n = a
            r = kw.get('segment_ratios')
            if isinstance(r, list):
                a = bufs.setdefault('r', [])
                a[:] = r
                kw['segment_ratios'] = a
            elif r is not None:
                a = bufs.setdefault(('r', len(r)), np.zeros(len(r)))
                a[:] = r
                kw['segment_ratios'] = a
        nt = sum(ng.counts(net, s))
        got = flat(ask(o, q['op'], q['T'], m, cp, n, kw, nt))
        exp = flat(ask(ng.build(net), q['op'], q['T'], m2, cp, n2, kw2, nt))
        require(len(got) == len(exp), 'number of results')
        for a, b in zip(got, exp):
            close(a, b, rtol=1e-9, scale=float(np.max(np.abs(b))),
                  what=f'query {i} ({q["op"]}) after {i} others')
