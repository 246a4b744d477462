"""C16: fluid temperatures and heat rates of networks of boreholes."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen, netgen as ng, pipegen as pg
from pbt.harness import close, describe, finite, require, scalar, sub

describe('C16', (
    'Drawn networks of one to six boreholes with any valid set of parallel '
    'and series connections in any order, different pipes and lengths, total '
    'or per-circuit flows of either direction, common or per-borehole '
    'segments; compared with a solution that follows the fluid of each '
    'circuit from borehole to borehole. A case is trivial when all '
    'temperatures are equal.'),
    ['single boreholes behave as their pipes say (C13)'])


@st.composite
def case(draw, nmax=6):
    c = draw(ng.network(nmax))
    s = draw(ng.segments(c))
    # temperatures spread over tens of degrees, or all but equal
    w = draw(st.sampled_from([1., 1., 1., 1e-2, 1e-4]))
    T0 = draw(ng.T)
    t = lambda: T0 + w * (draw(ng.T) - T0)
    return {'net': c, 'flow': draw(ng.flow(c)), 'seg': s,
            'T_in': draw(ng.T), 'uniform': draw(st.integers(0, 4)) == 0,
            'T_b': [[t() for _ in range(k)]
                    for k in ng.counts(c, s)],
            'pre': draw(st.integers(0, 3)) == 0,
            # numbers may be given as arrays of one value
            'arr': draw(st.integers(0, 3)) == 0}


def tol(c, fl):
    p = [x['kind'] for x in c['pipes']]
    if all(k in ('single', 'coaxial') for k in p):
        return 1e-9
    return 1e-9 + 1e-14 * math.exp(min(2 * ng.conditioning(c, fl), 60.))


@sub('C16', 'circuits', case(), 900, 25000, shards=3)
def check_circuits(c, ctx):
    net, fl, s = c['net'], c['flow'], c['seg']
    m, cp = ng.flow_args(fl)
    n, kw = ng.seg_args(s)
    cs = ng.circuits(net)
    if len(cs) == 1 and len(net['con']) == 1:
        ctx.label('one borehole')
    ctx.label('parallel' if all(len(q) == 1 for q in cs) else
              ('series' if len(cs) == 1 else 'mixed'),
              'reversed' if np.min(m) < 0 else 'forward',
              'per circuit' if np.ndim(m) else 'total')
    if any(a != b for a, b in zip(
            [q[0] for q in cs],
            [q[0] for q in sorted(cs, key=lambda q: q[-1])])):
        ctx.label('outlets in another order than inlets')
    T_b = c['T_b']
    if c['uniform']:
        T_b = [[T_b[0][0]] * len(x) for x in T_b]
    Ts = [c['T_in']] + [t for x in T_b for t in x]
    dT = max(Ts) - min(Ts)
    if dT == 0.:
        ctx.set_trivial('uniform temperature')
    rt = tol(net, fl)
    if rt > 1e-4:
        ctx.set_trivial('ill conditioned')
        return
    a = rt * max(dT, 1e-3 * max(map(abs, Ts)), 1e-3) * 50
    ref = ng.solve(net, fl, s, c['T_in'], T_b)
    pre = dict(m_flow_network=m, cp_f=cp, nSegments=n, **kw) \
        if c['pre'] else {}
    o = ng.build(net, **pre)
    require(o.nBoreholes == len(net['con']) and o.nInlets == len(cs) and
            o.nOutlets == len(cs), 'numbers of boreholes, inlets, outlets')
    close([o.H_tot], [sum(p['H'] for p in net['pipes'])], rtol=1e-12,
          what='total length')
    arg = T_b[0][0] if c['uniform'] else np.concatenate(T_b)
    A = (np.array([c['T_in']]) if c['arr'] else c['T_in'], arg, m, cp, n)
    nb, nt = len(net['con']), sum(map(len, T_b))
    close(finite(o.get_inlet_temperature(*A, **kw), (nb,)), ref['Tin'],
          rtol=0., atol=a, what='inlet temperatures of the boreholes')
    close(finite(o.get_outlet_temperature(*A, **kw), (nb,)), ref['Tout'],
          rtol=0., atol=a, what='outlet temperatures of the boreholes')
    close(finite(o.get_borehole_heat_extraction_rate(*A, **kw), (nt,)),
          ref['Qb'], rtol=1e-8, atol=10 * a * ref['C'],
          what='heat rates along the boreholes')
    close(finite(o.get_fluid_heat_extraction_rate(*A, **kw), (nb,)),
          ref['Qf'], rtol=1e-8, atol=10 * a * ref['C'],
          what='heat rates of the boreholes')
    out = scalar(o.get_network_outlet_temperature(*A, **kw))
    close([out], [ref['net_out']], rtol=0., atol=a, what='network outlet')
    Q = scalar(o.get_network_heat_extraction_rate(*A, **kw))
    close([Q, Q, Q], [ref['Qnet'], ref['Qb'].sum(), ref['Qf'].sum()],
          rtol=1e-8, atol=10 * a * ref['Ctot'], what='network heat rate')
    # the inlet temperature that gives this heat rate
    aQ = abs(scalar(o.coefficients_network_heat_extraction_rate(
        m, cp, n, **kw)[0]))
    Ti = scalar(o.get_network_inlet_temperature(
        np.array([Q]) if c['arr'] else Q, *A[1:], **kw))
    close([Ti], [c['T_in']], rtol=0., atol=10 * a * ref['Ctot'] / aQ + 1e-9,
          what='network inlet temperature')
    # coefficients say the same
    for f, key, sc in ((o.coefficients_inlet_temperature, 'Tin', 1.),
                       (o.coefficients_outlet_temperature, 'Tout', 1.),
                       (o.coefficients_borehole_heat_extraction_rate, 'Qb',
                        10 * ref['C']),
                       (o.coefficients_fluid_heat_extraction_rate, 'Qf',
                        10 * ref['C'])):
        u, v = f(m, cp, n, **kw)
        close(np.asarray(u) @ [c['T_in']] + np.asarray(v)
              @ np.concatenate(T_b), ref[key], rtol=1e-8, atol=a * sc,
              what='coefficients of ' + key)


@st.composite
def perm(draw):
    c = draw(case(5))
    n = len(c['net']['con'])
    c['perm'] = list(draw(st.permutations(list(range(n)))))
    c['k'] = draw(gen.logf(0.3, 3.))
    return c


@sub('C16', 'relations', perm(), 500, 15000, shards=2)
def check_relations(c, ctx):
    """Numbering of boreholes, equal splits, shifts of temperature."""
    net, fl, s = c['net'], c['flow'], c['seg']
    m, cp = ng.flow_args(fl)
    n, kw = ng.seg_args(s)
    cs = ng.circuits(net)
    ctx.label(f'{len(cs)} circuits')
    rt = tol(net, fl)
    if rt > 1e-4:
        ctx.set_trivial('ill conditioned')
        return
    o = ng.build(net)
    T_b = np.concatenate(c['T_b'])
    A = (c['T_in'], T_b, m, cp, n)
    C = float(np.sum(np.abs(m))) * cp
    out = scalar(o.get_network_outlet_temperature(*A, **kw))
    Q = scalar(o.get_network_heat_extraction_rate(*A, **kw))
    Tout = finite(o.get_outlet_temperature(*A, **kw))
    close([Q], [C * (out - c['T_in'])], rtol=1e-8,
          atol=rt * 1e3 * C, what='energy balance')
    # renumbered boreholes
    pm = c['perm']                  # new index k holds borehole pm[k]
    inv = {b: k for k, b in enumerate(pm)}
    net2 = {'pipes': [net['pipes'][b] for b in pm],
            'pos': [net['pos'][b] for b in pm],
            'con': [-1 if net['con'][b] == -1 else inv[net['con'][b]]
                    for b in pm], 'default_con': False}
    s2 = {'n': s['n'] if isinstance(s['n'], int) else
          [s['n'][b] for b in pm],
          'r': [s['r'][b] for b in pm] if s['r'] is not None and
          isinstance(s['r'][0], list) else s['r']}
    first = [q[0] for q in cs]
    m2 = m if np.ndim(m) == 0 else np.array(
        [m[first.index(pm[q[0]])] for q in ng.circuits(net2)])
    n2, kw2 = ng.seg_args(s2)
    o2 = ng.build(net2)
    A2 = (c['T_in'], np.concatenate([c['T_b'][b] for b in pm]), m2, cp, n2)
    close([scalar(o2.get_network_outlet_temperature(*A2, **kw2))], [out],
          rtol=0., atol=rt * 1e3, what='renumbered: network outlet')
    close([scalar(o2.get_network_heat_extraction_rate(*A2, **kw2))], [Q],
          rtol=0., atol=rt * 1e3 * C, what='renumbered: heat rate')
    close(finite(o2.get_outlet_temperature(*A2, **kw2)), Tout[pm],
          rtol=0., atol=rt * 1e3, what='renumbered: outlets')
    # a total flow is the same as equal flows
    k = len(cs)
    tot = float(np.sum(m))
    x = scalar(o.get_network_outlet_temperature(
        c['T_in'], T_b, tot, cp, n, **kw))
    y = scalar(o.get_network_outlet_temperature(
        c['T_in'], T_b, np.full(k, tot / k), cp, n, **kw))
    z = scalar(ng.build(net).get_network_outlet_temperature(
        c['T_in'], T_b, np.full(k, tot / k), np.full(k, cp), n, **kw))
    close([x, x], [y, z], rtol=0., atol=rt * 1e3, what='split of the flow')
    # shifted temperatures, and the product of flow and capacity
    w = scalar(ng.build(net).get_network_outlet_temperature(
        c['T_in'] + 7., T_b + 7., m * c['k'], cp / c['k'], n, **kw))
    close([w], [out + 7.], rtol=0., atol=rt * 1e3, what='shifted')
