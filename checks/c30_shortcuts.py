"""C30: short-cut constructors equal building the parts by hand."""
import math
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fieldgen as fg, gen, netgen as ng, pipegen as pg
from pbt.harness import close, describe, finite, require, same, sub

describe('C30', (
    'Drawn pipe types, cross-sections, fluids, temperatures, flow rates and '
    'connections: networks and g-functions built from plain parameters are '
    'compared with the same system assembled from a fluid, film and wall '
    'resistances, pipes and a network; g-functions obtained through every '
    'entry point (lists, bore fields, networks, methods of the bore field, '
    'deprecated functions) are compared with the gFunction class. Trivial '
    'when there is one borehole and all optional parameters are defaults.'),
    ['film coefficients are those of the public functions (judged by C20)'])

P = gt.pipes
TYPES = {'SINGLE_UTUBE': ('single', 1), 'DOUBLE_UTUBE_PARALLEL':
         ('parallel', 2), 'DOUBLE_UTUBE_SERIES': ('series', 2),
         'COAXIAL_ANNULAR_IN': ('coaxial', 1),
         'COAXIAL_ANNULAR_OUT': ('coaxial', 1)}


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


@st.composite
def system(draw, nmax=5):
    kind = draw(st.sampled_from(sorted(TYPES)))
    s = draw(pg.section(TYPES[kind][0], 2).filter(
        lambda s: s['n'] == TYPES[kind][1]))
    if s['kind'] == 'coaxial':
        # the annulus is the outer pipe
        s['r_in'].sort()
        s['r_out'].sort()
        if kind == 'COAXIAL_ANNULAR_IN':
            s['r_in'], s['r_out'] = s['r_in'][::-1], s['r_out'][::-1]
    n = draw(st.integers(1, nmax))
    same = draw(st.booleans())
    H, D = draw(gen.f(40., 200.)), draw(gen.f(0.5, 10.))
    field = []
    for x, y in draw(gen.layout(n, n)):
        if not same:
            H, D = draw(gen.f(40., 200.)), draw(gen.f(0.5, 10.))
        field.append([H, D, s['r_b'], x, y, 0., 0.])
    order = draw(st.permutations(list(range(n))))
    con = None
    if draw(st.booleans()):
        con = [-1] * n
        for k in range(1, n):
            if draw(st.booleans()):
                con[order[k]] = order[k - 1]
    return {
        'type': kind, 'case': draw(st.sampled_from(['upper', 'lower'])),
        'section': s, 'field': field, 'con': con,
        'fluid': draw(st.sampled_from(['Water', 'MPG', 'MEG', 'MMA', 'MEA'])),
        'pct': draw(gen.f(11., 30.)), 'T': draw(st.sampled_from([20.]) |
                                                gen.f(2., 35.)),
        'eps': draw(st.sampled_from([0., 1e-6, 1e-5])),
        'k_p': [draw(gen.logf(0.1, 20.)), draw(gen.logf(0.1, 20.))],
        # flow per inlet, from the capacity flow of the longest circuit
        'ntu': draw(gen.f(0.02, 0.5)),
        'sign': draw(st.sampled_from([1., 1., -1.])),
        'reversible': draw(st.booleans()), 'as': draw(
            st.sampled_from(['array', 'list', 'tuple'])),
        'J': draw(st.sampled_from([0, 1, 2, 3]))}


def defaults(c):
    return c['con'] is None and c['reversible'] and c['J'] == 2 \
        and c['T'] == 20. and len(c['field']) == 1


def fluid(c):
    return quiet(gt.media.Fluid, c['fluid'], c['pct'], c['T'])


def m_flow(c):
    fl = fluid(c)
    n = c['con'].count(-1) if c['con'] else len(c['field'])
    H = sum(b[0] for b in c['field'])
    return c['sign'] * n * H / (c['ntu'] * 0.15 * fl.cp)


def plain(c):
    """Positional parameters that describe the pipes."""
    s = c['section']
    r_in, r_out, k_p = s['r_in'], s['r_out'], c['k_p'][0]
    pos = [tuple(p) for p in s['pos']] if s['kind'] != 'coaxial' \
        else tuple(s['pos'])
    if s['kind'] == 'coaxial':
        cv = {'array': np.array, 'list': list, 'tuple': tuple}[c['as']]
        r_in, r_out, k_p = cv(r_in), cv(r_out), cv(c['k_p'])
    return dict(pipe_type_str=getattr(c['type'], c['case'])(), pos=pos,
                r_in=r_in, r_out=r_out, k_s=s['k_s'], k_g=s['k_g'], k_p=k_p,
                epsilon=c['eps'], fluid_str=c['fluid'],
                fluid_temperature=c['T'], reversible_flow=c['reversible'],
                bore_connectivity=None if c['con'] is None
                else list(c['con']), J=c['J'])


def by_hand(c):
    """Network built part by part."""
    s, fl, m = c['section'], fluid(c), m_flow(c)
    n = c['con'].count(-1) if c['con'] else len(c['field'])
    m1 = abs(m) / n
    f = (fl.mu, fl.rho, fl.k, fl.cp, c['eps'])
    B = fg.boreholes(c['field'])
    r_in, r_out = s['r_in'], s['r_out']
    h = P.convective_heat_transfer_coefficient_circular_pipe
    if s['kind'] == 'coaxial':
        o = int(np.argmax(r_out))
        i = 1 - o
        a_in, a_out = quiet(
            P.convective_heat_transfer_coefficient_concentric_annulus, m1,
            r_out[i], r_in[o], *f)
        fp = math.log(r_out[o] / r_in[o]) / (2 * math.pi * c['k_p'][o]) \
            + 1. / (2 * math.pi * r_in[o] * a_out)
        ff = 1. / (2 * math.pi * r_in[i] * quiet(h, m1, r_in[i], *f)) \
            + math.log(r_out[i] / r_in[i]) / (2 * math.pi * c['k_p'][i]) \
            + 1. / (2 * math.pi * r_out[i] * a_in)
        pipes = [P.Coaxial(tuple(s['pos']), np.array(r_in), np.array(r_out),
                           b, s['k_s'], s['k_g'], ff, fp, J=c['J'],
                           reversible_flow=c['reversible']) for b in B]
    else:
        k = 2 if c['type'] == 'DOUBLE_UTUBE_PARALLEL' else 1
        fp = math.log(r_out / r_in) / (2 * math.pi * c['k_p'][0]) \
            + 1. / (2 * math.pi * r_in * quiet(h, m1 / k, r_in, *f))
        a = [([tuple(p) for p in s['pos']], r_in, r_out, b, s['k_s'],
              s['k_g'], fp) for b in B]
        k = dict(J=c['J'], reversible_flow=c['reversible'])
        pipes = [P.SingleUTube(*x, **k) if s['kind'] == 'single' else
                 P.MultipleUTube(*x, 2, config=s['kind'], **k) for x in a]
    return gt.networks.Network(
        B, pipes, bore_connectivity=None if c['con'] is None
        else list(c['con']), m_flow_network=m, cp_f=fl.cp)


@st.composite
def network_case(draw):
    c = draw(system())
    c['to'] = draw(st.sampled_from(['list', 'field']))
    c['ns'] = draw(st.integers(1, 3))
    c['Tb'] = draw(st.lists(ng.T, min_size=1, max_size=6))
    c['Tin'] = draw(ng.T)
    c['other'] = draw(gen.f(0.4, 2.))
    return c


@sub('C30', 'networks', network_case(), 600, 12000, shards=4)
def check_network(c, ctx):
    if defaults(c):
        ctx.set_trivial('defaults')
    ctx.label(c['type'], c['fluid'])
    B = fg.boreholes(c['field'])
    if c['to'] == 'field':
        B = gt.borefield.Borefield.from_boreholes(B)
    k = plain(c)
    m = m_flow(c)
    N = quiet(gt.networks.Network.from_static_params, B,
              m_flow_network=m, fluid_concentraton_percent=c['pct'], **k)
    W = by_hand(c)
    require(len(N.b) == len(W.b), 'boreholes')
    for b, w in zip(N.b, W.b):
        for x in ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation'):
            require(getattr(b, x) == getattr(w, x), f'borehole {x}')
    require(list(N.c) == list(W.c), 'connections', got=list(N.c))
    close(N.m_flow_network, m, what='mass flow rate kept')
    close(N.cp_f, fluid(c).cp, what='heat capacity kept')
    ns, nb = c['ns'], len(c['field'])
    Tb = np.resize(np.array(c['Tb']), nb * ns)
    for mm in (m, m * c['other'], -m):
        a = (c['Tin'], Tb, mm, fluid(c).cp, ns)
        for what in ('get_network_outlet_temperature',
                     'get_borehole_heat_extraction_rate',
                     'get_inlet_temperature', 'get_outlet_temperature'):
            if what == 'get_borehole_heat_extraction_rate':
                scale = abs(m) * fluid(c).cp
            else:
                scale = 1.
            close(getattr(N, what)(*a), finite(getattr(W, what)(*a)),
                  rtol=1e-7, atol=1e-7 * scale * 50., what=what)


@st.composite
def g_case(draw):
    c = draw(system(4))
    c['alpha'] = 1e-6
    c['lt'] = draw(fg.times(1, 3, lo=-7.))
    c['bc'] = draw(st.sampled_from(['UHTR', 'UBWT', 'MIFT', 'MIFT', 'MIFT']))
    c['method'] = draw(st.sampled_from(['similarities', 'detailed',
                                        'equivalent']))
    if c['method'] == 'equivalent':
        c['con'] = None
        c['field'] = [c['field'][0][:2] + b[2:] for b in c['field']]
    if c['bc'] != 'MIFT' and c['method'] != 'equivalent' \
            and draw(st.integers(0, 3)) == 0:
        c['field'] = draw(fg.inclined(1, 3))
    c['opt'] = dict(draw(fg.options(len(c['field']), 3, same=True)))
    c['later'] = draw(st.booleans())
    return c


@sub('C30', 'gfunctions', g_case(), 800, 14000, shards=8)
def check_gfunction(c, ctx):
    f = c['field']
    if not fg.apart(f, 1.):
        ctx.set_trivial('crossing')
        return
    if defaults(c):
        ctx.set_trivial('defaults')
    ctx.label(c['bc'], c['method'])
    al, o = c['alpha'], fg.opt_args(c['opt'])
    t = np.exp(np.array(c['lt'])) * fg.scale(f, al)
    k = {}
    if c['bc'] == 'MIFT':
        k = plain(c)
        k.update(m_flow_network=m_flow(c), fluid_concentration_pct=c['pct'])
        ctx.label(c['type'])
    a = [np.array([b[i] for b in f]) for i in range(7)]
    G = quiet(gt.gfunction.gFunction.from_static_params, *a[:5], al,
              time=None if c['later'] else t, method=c['method'],
              options=dict(o), tilt=a[5], orientation=a[6],
              boundary_condition=c['bc'], **k)
    if c['later']:
        quiet(G.evaluate_g_function, t)
    obj = by_hand(c) if c['bc'] == 'MIFT' else fg.boreholes(f)
    W = quiet(gt.gfunction.gFunction, obj, al, time=t, method=c['method'],
              boundary_condition=c['bc'], options=dict(o))
    close(finite(G.gFunc, (len(t),)), finite(W.gFunc, (len(t),)), rtol=1e-7,
          what='g-function')
    require(G.boundary_condition == c['bc'] and G.method == c['method'],
            'condition and method')


@st.composite
def entry_case(draw):
    c = {'alpha': 1e-6, 'lt': draw(fg.times(1, 3, lo=-7.))}
    c['fn'] = fn = draw(st.sampled_from(['UHTR', 'UBWT', 'EIFT', 'MIFT',
                                         'EIFT', 'MIFT', 'field']))
    if fn in ('EIFT', 'MIFT'):
        c.update(draw(fg.network(4)))
        n = len(c['net']['pipes'])
        if fn == 'EIFT':
            c['net']['con'] = [-1] * n
        c['m'] = [draw(gen.f(0.6, 1.5)) for _ in range(n)]
        c['array'] = draw(st.booleans())
        c['stored'] = draw(st.booleans())
        c['keep'] = draw(st.booleans())
    else:
        c['field'] = draw(fg.vertical(1, 5))
        n = len(c['field'])
    c['opt'] = draw(fg.options(n, 3, same=fn == 'field'))
    c['simil'] = draw(st.booleans())
    c['bc'] = draw(st.sampled_from([None, 'UBWT', 'UHTR']))
    c['method'] = draw(st.sampled_from([None, 'similarities', 'detailed',
                                        'equivalent']))
    c['scalar'] = draw(st.booleans())
    return c


@sub('C30', 'entry points', entry_case(), 640, 12000, shards=8)
def check_entry(c, ctx):
    al, fn = c['alpha'], c['fn']
    net = fn in ('EIFT', 'MIFT')
    field = fg.net_field(c['net']) if net else c['field']
    o = fg.opt_args(c['opt'])
    t = np.exp(np.array(c['lt'])) * fg.scale(field, al)
    if c['scalar']:
        t = t[-1:]
    tt = float(t[0]) if c['scalar'] else t
    method = 'similarities' if c['simil'] else 'detailed'
    bc = {'EIFT': 'MIFT', 'field': c['bc'] or 'UBWT'}.get(fn, fn)
    kw, obj = {}, fg.boreholes(field)
    GF = gt.gfunction
    ctx.label(fn)
    if len(field) == 1 and len(t) == 1:
        ctx.set_trivial('one borehole, one time')
    if fn == 'field':
        k = {}
        if c['bc']:
            k['boundary_condition'] = c['bc']
        if c['method']:
            k['method'] = c['method']
        method = c['method'] or 'equivalent'
        b = gt.borefield.Borefield.from_boreholes(obj)
        got = quiet(b.evaluate_g_function, al, tt, options=dict(o), **k)
        # the same field as bore field, list, one borehole
        for other in (b, obj[0] if len(obj) == 1 else obj):
            G = quiet(GF.gFunction, other, al, time=tt, method=method,
                      boundary_condition=bc, options=dict(o))
            close(finite(G.gFunc), finite(got), rtol=1e-12, what='container')
    else:
        o.pop('approximate_FLS', None)
        o.pop('mQuad', None)
        k = {x: o[x] for x in o if x in ('nSegments', 'segment_ratios')}
        k['use_similarities'] = c['simil']
        if fn == 'UHTR':
            o = {'nSegments': 1}
            k = {'use_similarities': c['simil']}
            got = quiet(GF.uniform_heat_extraction, obj, tt, al, **k)
        elif fn == 'UBWT':
            got = quiet(GF.uniform_temperature, obj, tt, al, **k)
        else:
            m, cp = ng.flow_args(c['flow'])
            bs, pipes = ng.parts(c['net'])
            con = list(c['net']['con'])
            kw['cp_f'] = float(np.max(cp))
            n = con.count(-1)
            m = float(np.mean(np.abs(m)) if np.ndim(m) else abs(m) / n) \
                * np.array(c['m'][:n])
            if fn == 'EIFT':
                if not c['array']:
                    m = np.full(n, m[0])
                arg = m if c['array'] else float(m[0])
                got = quiet(GF.equal_inlet_temperature, bs, pipes, arg,
                            kw['cp_f'], tt, al, **k)
                obj = gt.networks.Network(bs, pipes)
            else:
                # flow rates given to the function take precedence
                s = dict(m_flow_network=float(3. * np.sum(m)),
                         cp_f=0.7 * kw['cp_f']) if c['stored'] else {}
                obj = gt.networks.Network(
                    bs, pipes, bore_connectivity=con, **s)
                arg = m if c['array'] else float(np.sum(m))
                if not c['array']:
                    m = np.full(n, np.sum(m) / n)
                got = quiet(GF.mixed_inlet_temperature, obj, arg,
                            kw['cp_f'], tt, al, **k)
                obj = gt.networks.Network(bs, pipes, bore_connectivity=con)
            kw['m_flow_borehole'] = m
        G = quiet(GF.gFunction, obj, al, time=tt, method=method,
                  boundary_condition=bc, options=dict(o), **kw)
    want = finite(G.gFunc)
    close(np.ravel(finite(got)), np.ravel(want), rtol=1e-7,
          what=f'g-function of {fn}')
    require(np.size(got) == len(t), 'one value for each time')
