"""C13: fluid temperatures and heat rates solve the energy balance."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen, pipegen as pg
from pbt.harness import close, describe, finite, require, scalar, sub

describe('C13', (
    'Drawn pipes of all five kinds (single, parallel, series, independent '
    'U-tubes, coaxial with either inlet; symmetric or not, one to three '
    'U-tubes), flows of either direction from low to high numbers of '
    'transfer units, one to six segments of equal or drawn lengths, drawn '
    'wall temperatures; compared with an independent solution of the '
    'one-dimensional energy balances over short elements. A case is trivial '
    'when inlet and wall temperatures are all equal.'),
    ['delta-circuit resistances are taken from the public function that '
     'computes them, judged by C19',
     'negative flows are drawn for pipes that accept reversed flow'])

T = gen.nice(-10., 60., 5.)


@st.composite
def case(draw, kinds=pg.KINDS):
    c = draw(pg.pipe(kinds))
    c['reversible'] = True
    fl = draw(pg.flow(c))
    n, r = draw(pg.ratios())
    k = pg.n_in(c)
    # temperatures spread over tens of degrees, or all but equal
    w = draw(st.sampled_from([1., 1., 1., 1e-2, 1e-4]))
    T0 = draw(T)
    t = lambda: T0 + w * (draw(T) - T0)
    # each circuit of a borehole may have a fluid of its own, and arguments
    # of one inlet may be numbers or arrays of one value
    cps = [draw(gen.f(0.5, 2.)) for _ in range(k)] if (
        c['kind'] == 'independent' and draw(st.booleans())) else None
    return {'cps': cps, 'arr': draw(st.sampled_from(
                ['', '', '', 'm', 'cp', 'T', 'mcpT'])),
            'pipe': c, 'flow': fl, 'n': n, 'ratios': r,
            'T_in': [(t if w < 1e-3 else lambda: draw(T))()
                     for _ in range(k)],
            'T_b': [t() for _ in range(n)],
            'z': draw(st.lists(gen.f(0., 1.), min_size=1, max_size=4))}


def args_of(c):
    """Flow and heat capacity as given, flow and heat capacity by inlet."""
    p = c['pipe']
    m, cp = pg.flow_args(p, c['flow'])
    k = pg.n_in(p)
    mm = np.atleast_1d(m)
    cc = np.full(k, cp) * (1. if c['cps'] is None else np.array(c['cps']))
    if c['cps'] is not None or 'cp' in c['arr']:
        cp = cc.copy()
    if c['arr'] in ('m', 'mcpT'):
        m = mm.copy()
    return m, cp, mm, cc


def tol_of(ref, c):
    """The code may carry exponentials over the whole length."""
    ex = float(np.max(np.abs(np.linalg.eigvals(ref.A)))) * c['H']
    return ex


def drive(c, ctx):
    p = c['pipe']
    m, cp, mm, cc = args_of(c)
    pipe = pg.build(p)
    ref = pg.Ref(p, mm, cc)
    n, r = c['n'], c['ratios']
    rr = np.full(n, 1. / n) if r is None else np.array(r)
    z = np.array(c['z']) * p['H']
    ref.solve(c['T_in'], c['T_b'], rr, z)
    Ts = c['T_in'] + c['T_b']
    dT = max(Ts) - min(Ts)
    if dT == 0.:
        ctx.set_trivial('uniform temperature')
    k = pg.n_in(p)
    if c['cps'] is not None:
        ctx.label('a heat capacity per inlet')
    ctx.label(p['kind'], f'n={p["n"]}',
              'reversed' if np.any(mm < 0) else 'forward',
              'equal segments' if r is None else 'drawn segments')
    growth = tol_of(ref, p)
    ctx.label(f'exponent<{4 * math.ceil(growth / 4)}')
    stable = p['kind'] in ('single', 'coaxial')
    rtol = 1e-8 if stable else 1e-8 + 1e-14 * math.exp(min(2 * growth, 60.))
    if rtol > 1e-3:
        ctx.set_trivial('ill conditioned')
        return
    scale = max(dT, 1e-3 * max(abs(t) for t in Ts), 1e-3)
    T_in = np.array(c['T_in']) \
        if k > 1 or p['kind'] == 'independent' or 'T' in c['arr'] \
        else float(c['T_in'][0])
    T_b = float(c['T_b'][0]) if n == 1 and c['arr'] else np.array(c['T_b'])
    kw = {} if r is None else {'segment_ratios': np.array(r)}
    C = float(np.max(np.abs(mm) * cc))
    out = finite(pipe.get_outlet_temperature(T_in, T_b, m, cp, **kw))
    close(out.reshape(-1), ref.T_out, rtol=0., atol=rtol * scale,
          what='outlet temperature')
    Tz = finite(pipe.get_temperature(z, T_in, T_b, m, cp, **kw),
                (len(z), 2 * p['n']), 'fluid temperatures')
    close(Tz, ref.Tz, rtol=0., atol=rtol * scale, what='fluid temperatures')
    T0 = finite(pipe.get_temperature(float(z[0]), T_in, T_b, m, cp, **kw))
    close(T0.reshape(-1), ref.Tz[0], rtol=0., atol=rtol * scale,
          what='fluid temperatures at one depth')
    # heat rates carry the balance of all pipes
    Cq = float(np.max(np.abs(ref.mcp))) * len(ref.mcp)
    Qb = finite(pipe.get_borehole_heat_extraction_rate(
        T_in, T_b, m, cp, **kw), (n,), 'heat rates along the borehole')
    close(Qb, ref.Q_b, rtol=1e-8, atol=4 * rtol * scale * Cq,
          what='heat rates along the borehole')
    Qf = finite(pipe.get_fluid_heat_extraction_rate(
        T_in, T_b, m, cp, **kw)).reshape(-1)
    close(Qf, np.abs(mm) * cc * (ref.T_out - np.array(c['T_in'])),
          rtol=1e-8, atol=rtol * scale * C, what='heat rates of the fluid')
    Qt = scalar(pipe.get_total_heat_extraction_rate(T_in, T_b, m, cp, **kw))
    close([Qt, Qt], [np.sum(Qf), np.sum(Qb)], rtol=1e-8,
          atol=8 * rtol * scale * Cq, what='total heat rate')
    # inverse: inlet temperature that gives these heat rates
    if k == 1:
        Q = float(Qf[0])
        Ti = scalar(pipe.get_inlet_temperature(Q, T_b, m, cp, **kw))
        a_in = scalar(pipe.coefficients_fluid_heat_extraction_rate(
            m, cp, n, **kw)[0])
        close([Ti], c['T_in'], rtol=0., what='inlet temperature',
              atol=10 * rtol * scale * max(1., C / abs(a_in)) + 1e-9)
    else:
        Ti = finite(pipe.get_inlet_temperature(Qf, T_b, m, cp, **kw), (k,))
        A = pipe.coefficients_fluid_heat_extraction_rate(m, cp, n, **kw)[0]
        close(Ti, c['T_in'], rtol=0., what='inlet temperatures',
              atol=10 * rtol * scale * max(
                  1., C * np.linalg.norm(np.linalg.inv(A), 2)) + 1e-9)


@sub('C13', 'u_tube', case(('single',)), 1000, 20000, shards=2)
def check_single(c, ctx):
    drive(c, ctx)


@sub('C13', 'multiple', case(('parallel', 'series')), 1200, 25000, shards=2)
def check_multiple(c, ctx):
    drive(c, ctx)


@sub('C13', 'independent', case(('independent',)), 700, 15000)
def check_independent(c, ctx):
    drive(c, ctx)


@sub('C13', 'coaxial', case(('coaxial',)), 700, 15000)
def check_coaxial(c, ctx):
    drive(c, ctx)


@st.composite
def lin(draw):
    c = draw(case())
    n = c['n']
    k = pg.n_in(c['pipe'])
    c['dT'] = draw(gen.f(-20., 20.))
    c['lam'] = draw(gen.f(-3., 3.))
    c['T_in2'] = [draw(T) for _ in range(k)]
    c['T_b2'] = [draw(T) for _ in range(n)]
    c['split'] = draw(gen.f(0.1, 0.9))
    return c


@sub('C13', 'laws', lin(), 1200, 25000, shards=2)
def check_laws(c, ctx):
    """Superposition, invariance to the temperature scale, refinement of
    segments, coefficient forms, second law."""
    p = c['pipe']
    m, cp, mm, cc = args_of(c)
    pipe = pg.build(p)
    n, r = c['n'], c['ratios']
    k = pg.n_in(p)
    kw = {} if r is None else {'segment_ratios': np.array(r)}
    ctx.label(p['kind'])
    A = np.max(np.abs(np.linalg.eigvals(pg.Ref(p, mm, cc).A))) * p['H']
    rtol = 1e-9 if p['kind'] in ('single', 'coaxial') else \
        1e-9 + 1e-14 * math.exp(min(2 * A, 60.))
    if rtol > 1e-3:
        ctx.set_trivial('ill conditioned')
        return
    z = np.array(c['z']) * p['H']
    sc = 100.
    C = float(np.max(np.abs(mm) * cc)) * 2 * p['n']
    T1, T2 = np.array(c['T_in']), np.array(c['T_in2'])
    B1, B2 = np.array(c['T_b']), np.array(c['T_b2'])
    fs = {
        'outlet': (lambda a, b: pipe.get_outlet_temperature(
            a, b, m, cp, **kw), 1., 1.),
        'fluid': (lambda a, b: pipe.get_temperature(
            z, a, b, m, cp, **kw), 1., 1.),
        'borehole heat': (lambda a, b:
                          pipe.get_borehole_heat_extraction_rate(
                              a, b, m, cp, **kw), C, 0.),
        'fluid heat': (lambda a, b: pipe.get_fluid_heat_extraction_rate(
            a, b, m, cp, **kw), C, 0.)}
    lam, d = c['lam'], c['dT']
    for name, (f, s, sh) in fs.items():
        x1, x2 = finite(f(T1, B1)), finite(f(T2, B2))
        close(f(T1 + lam * T2, B1 + lam * B2), x1 + lam * x2, rtol=0.,
              atol=10 * rtol * sc * s, what=name + ': superposition')
        close(f(T1 + d, B1 + d), x1 + d * sh, rtol=0.,
              atol=10 * rtol * sc * s, what=name + ': shifted temperatures')
    # coefficient matrices say the same as the temperatures
    a_in, a_b = pipe.coefficients_outlet_temperature(m, cp, n, **kw)
    close(a_in @ T1 + a_b @ B1, np.reshape(fs['outlet'][0](T1, B1), (-1,)),
          rtol=0., atol=rtol * sc, what='outlet coefficients')
    a_in, a_b = pipe.coefficients_temperature(z, m, cp, n, **kw)
    close(a_in @ T1 + a_b @ B1, fs['fluid'][0](T1, B1), rtol=0.,
          atol=rtol * sc, what='temperature coefficients')
    # a segment cut in two at the same wall temperature changes nothing
    rr = list(np.full(n, 1. / n) if r is None else r)
    r2 = np.array([rr[0] * c['split'], rr[0] * (1 - c['split'])] + rr[1:])
    B = np.concatenate((B1[:1], B1))
    out2 = finite(pipe.get_outlet_temperature(T1, B, m, cp,
                                              segment_ratios=r2))
    close(out2, fs['outlet'][0](T1, B1), rtol=0., atol=10 * rtol * sc,
          what='outlet after splitting a segment')
    q2 = finite(pipe.get_borehole_heat_extraction_rate(
        T1, B, m, cp, segment_ratios=r2))
    q1 = finite(fs['borehole heat'][0](T1, B1))
    close(np.concatenate(([q2[0] + q2[1]], q2[2:])), q1, rtol=0.,
          atol=20 * rtol * sc * C, what='heat after splitting a segment')
    # uniform wall: the outlet lies between inlet and wall temperatures
    if k == 1:
        Rd = pg.delta(p)
        if np.all(Rd > 0):
            o = scalar(pipe.get_outlet_temperature(
                float(T1[0]), np.full(n, B1[0]), m, cp, **kw))
            lo, hi = min(T1[0], B1[0]), max(T1[0], B1[0])
            require(lo - 1e-6 <= o <= hi + 1e-6,
                    'outlet outside of inlet and wall temperatures', out=o,
                    T_in=T1[0], T_b=B1[0])
