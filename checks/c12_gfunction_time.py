"""C12: g-functions evolve lawfully in time; evaluations are independent."""
import contextlib
import io
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fieldgen as fg, gen, netgen as ng
from pbt.harness import close, describe, finite, require, same, sub

describe('C12', (
    'Drawn bore fields and networks, methods, discretisations and increasing '
    'times. The g-function is compared with itself over prefixes of the '
    'times, below and at the threshold, after sequences of evaluations of '
    'the same object, through every entry point and with options that only '
    'select storage, display or number format. Trivial when there is one '
    'time and nothing to compare.'),
    ['prefixes compare within the quadrature error of the line sources'])

METHODS = ['similarities', 'detailed', 'equivalent', 'equivalent']


@st.composite
def problem(draw, net=None, tmax=6):
    """Field or network with method and options."""
    if net is None:
        net = draw(st.integers(0, 2)) == 0
    m = draw(st.sampled_from(METHODS))
    eq = m == 'equivalent'
    c = {'method': m, 'alpha': draw(fg.ALPHA)}
    if net:
        c['net'] = draw(fg.network(4, parallel=eq))
        for p in c['net']['net']['pipes']:
            p['tilt'] = 0.
        n = len(c['net']['net']['con'])
        c['bc'] = draw(st.sampled_from(['MIFT', 'MIFT', 'UBWT', 'UHTR']))
    else:
        inc = not eq and draw(st.integers(0, 4)) == 0
        c['field'] = draw(fg.inclined(1, 3) if inc else fg.vertical(1, 5))
        n = len(c['field'])
        c['bc'] = draw(st.sampled_from(['UHTR', 'UBWT', 'UBWT']))
    c['opt'] = draw(fg.options(n, 3, same=eq))
    c['lin'] = draw(st.sampled_from([None, None, None, -7., -3., 0.]))
    inc = 'field' in c and not fg.is_vertical(c['field'])
    c['lt'] = draw(fg.times(1, tmax, lo=-5. if inc else -9.))
    # times up to the threshold, as fractions of it
    c['early'] = sorted(draw(st.lists(st.one_of(
        st.sampled_from([1., 0.5]), gen.f(0.02, 1.)), min_size=1, max_size=2,
        unique=True))) if draw(st.integers(0, 2)) == 0 else []
    return c


def prepare(c, ctx):
    """-> (field, times, options) or None when the case is out of scope."""
    f = c['field'] if 'field' in c else fg.net_field(c['net']['net'])
    v = fg.is_vertical(f)
    if not v and not fg.apart(f, max(1., 0.03 * max(b[0] for b in f))):
        ctx.set_trivial('crossing')
        return None
    if 'net' in c and ng.conditioning(c['net']['net'], c['net']['flow']) > 10.:
        ctx.set_trivial('ill conditioned')
        return None
    ts = fg.scale(f, c['alpha'])
    t = np.array([ts * math.exp(x) for x in c['lt']])
    if c['early']:
        thr = threshold(c, f)
        t = np.concatenate(([w * thr for w in c['early']], t[t > thr]))
    o = fg.opt_args(c['opt'])
    if not v:
        o['mQuad'] = 21
    if c['lin'] is not None:
        o['linear_threshold'] = ts * math.exp(c['lin'])
    ctx.label(c['method'], c['bc'], 'network' if 'net' in c else
              'vertical' if v else 'inclined')
    return f, t, o


def threshold(c, f):
    ts = fg.scale(f, c['alpha'])
    return max(b[2] for b in f)**2 / (25. * c['alpha']) \
        if c['lin'] is None else ts * math.exp(c['lin'])


def make(c, f, o, time=None, **kw):
    """gFunction of the case."""
    if 'net' in c:
        x = ng.build(c['net']['net'])
        if c['bc'] == 'MIFT':
            m, cp = ng.flow_args(c['net']['flow'])
            # the equivalent method takes one flow rate
            kw.update({'m_flow_borehole' if np.ndim(m) else 'm_flow_network':
                       m, 'cp_f': cp})
    else:
        x = fg.boreholes(f)
    return gt.gfunction.gFunction(
        x, c['alpha'], time=time, method=c['method'],
        boundary_condition=c['bc'], options=o, **kw)


@sub('C12', 'laws', problem(), 420, 10000, shards=6)
def check_laws(c, ctx):
    r = prepare(c, ctx)
    if r is None:
        return
    f, t, o = r
    nt = len(t)
    g = finite(make(c, f, o, t).gFunc, (nt,), 'g-function')
    require(np.all(g > 0.), 'positive', g=g, t=t)
    tol = 1e-6 if fg.is_vertical(f) and not c['opt']['approx'] else 2e-3
    up = np.diff(g)
    require(np.all(up >= -tol * np.abs(g[1:])), 'non-decreasing in time', g=g,
            t=t)
    thr = threshold(c, f)
    q = 1e-6 if fg.is_vertical(f) else 1e-5
    # causality: values do not depend on later times
    if nt > 1:
        for k in {1, nt // 2, nt - 1} - {0}:
            gk = finite(make(c, f, o, t[:k]).gFunc, (k,), 'g-function')
            close(gk, g[:k], rtol=q, atol=1e-9, what=f'first {k} times')
    else:
        ctx.set_trivial('one time')
    # linear growth from zero up to the threshold
    g0 = float(finite(make(c, f, o, np.array([thr])).gFunc, (1,))[0])
    low = t <= thr
    if np.any(low):
        ctx.label('below threshold')
        close(g[low], g0 * t[low] / thr, rtol=q, what='linear part')
    x = np.array([0., 0.3 * thr, thr])
    close(make(c, f, o, x).gFunc, [0., 0.3 * g0, g0], rtol=q,
          what='from zero to the threshold')
    tn = np.array([-5., 0.5 * thr])
    close(make(c, f, o, tn).gFunc, [0., 0.5 * g0], rtol=q,
          what='negative time')
    # a threshold below all times has no influence
    if c['bc'] == 'UHTR':
        x = max(b[2] for b in f)**2 / (25. * c['alpha']) \
            * np.array([0.5, 0.9])
    else:
        x = t[t > max(b[2] for b in f)**2 / (25. * c['alpha'])]
    if len(x):
        close(make(c, f, dict(o, linear_threshold=0.), x).gFunc,
              make(c, f, dict(o, linear_threshold=0.7 * float(x[0])), x).gFunc,
              rtol=q, atol=1e-9, what='threshold of zero')
    # uniform heat extraction: any subset of times
    if c['bc'] == 'UHTR' and nt > 2:
        ctx.label('subset')
        s = t[1::2]
        close(make(c, f, o, s).gFunc, g[1::2], rtol=q, atol=1e-9,
              what='subset of times')
    # a repeated call gives the same values
    same(make(c, f, o, t).gFunc, g, 'repeated calculation')


@st.composite
def history(draw):
    c = draw(problem(tmax=3))
    inc = 'field' in c and not fg.is_vertical(c['field'])
    lo = -5. if inc else -9.
    c['seq'] = [draw(fg.times(1, 4, lo=lo)) for _ in
                range(draw(st.integers(1, 3)))]
    c['first'] = draw(st.booleans())
    c['again'] = draw(st.booleans())
    return c


@sub('C12', 'histories', history(), 300, 8000, shards=6)
def check_histories(c, ctx):
    r = prepare(c, ctx)
    if r is None:
        return
    f, t, o = r
    ts = fg.scale(f, c['alpha'])
    o['profiles'] = True
    G = make(c, f, o, t if c['first'] else None)
    if not c['first']:
        ctx.label('no time at first')
    elif c['again']:
        ctx.label('same times again')
    seq = [np.array([ts * math.exp(x) for x in s]) for s in c['seq']]
    if c['again']:
        seq = [t] + seq + [t]
    for k, s in enumerate(seq):
        got = finite(G.evaluate_g_function(s), (len(s),), 'evaluation')
        same(G.gFunc, got, 'stored g-function')
        close(G.time, s, rtol=0., what='stored times')
        F = make(c, f, o, s)
        close(got, F.gFunc, rtol=1e-10, atol=1e-13,
              what=f'evaluation {k} against a new object')
        close(np.asarray(G.solver.T_b), np.asarray(F.solver.T_b), rtol=1e-8,
              scale=1e-3, what='stored temperatures')
        close(np.asarray(G.solver.Q_b), np.asarray(F.solver.Q_b), rtol=1e-8,
              scale=1e-3, what='stored heat rates')
    # one time as a number
    x = float(seq[-1][-1])
    close(np.ravel(G.evaluate_g_function(x)),
          np.ravel(make(c, f, o, np.array([x])).gFunc), rtol=1e-10,
          what='time as a number')
    close(np.ravel(make(c, f, o, x).gFunc),
          np.ravel(make(c, f, o, np.array([x])).gFunc), rtol=1e-10,
          what='time as a number at first')


@sub('C12', 'options', problem(), 240, 6000, shards=5)
def check_options(c, ctx):
    """Storage, display, number format and entry point."""
    r = prepare(c, ctx)
    if r is None:
        return
    f, t, o = r
    nt = len(t)
    g = finite(make(c, f, o, t).gFunc, (nt,), 'g-function')
    keep = dict(o)
    with contextlib.redirect_stdout(io.StringIO()) as out:
        gd = make(c, f, dict(o, disp=True), t).gFunc
    require(c['bc'] in out.getvalue(), 'progress is displayed')
    same(gd, g, 'with display')
    same(make(c, f, dict(o, profiles=True), t).gFunc, g, 'with profiles')
    close(make(c, f, dict(o, kind='linear'), t).gFunc, g, rtol=1e-12,
          what='default interpolation')
    if c['opt']['approx']:
        close(make(c, f, dict(o, nFLS=10), t).gFunc, g, rtol=1e-12,
              what='default number of terms')
    if c['bc'] == 'UHTR':
        # all step responses are known at the times asked for
        ctx.label('interpolation')
        thr = threshold(c, f)
        if np.sum(t > thr) + np.any(t <= thr) > 2:
            close(make(c, f, dict(o, kind='cubic'), t).gFunc, g, rtol=1e-9,
                  what='cubic interpolation')
    s = make(c, f, dict(o, dtype=np.single), t).gFunc
    close(s, g, rtol=3e-2, atol=3e-3, what='single precision')
    require(list(o) == list(keep) and all(o[k] is keep[k] for k in o),
            'options are left as they were')
    if 'field' not in c:
        return
    # entry points
    B = fg.boreholes(f)
    F = gt.borefield.Borefield.from_boreholes(B)
    a = c['alpha']
    kw = {'method': c['method'], 'boundary_condition': c['bc'], 'options': o}
    same(F.evaluate_g_function(a, t, **kw), g, 'bore field method')
    same(gt.gfunction.gFunction(F, a, time=t, **kw).gFunc, g, 'bore field')
    if len(B) == 1:
        ctx.label('single borehole')
        same(gt.gfunction.gFunction(B[0], a, time=t, **kw).gFunc, g,
             'borehole')
    if c['bc'] == 'UBWT':
        kw.pop('boundary_condition')
        same(gt.gfunction.gFunction(B, a, time=t, **kw).gFunc, g,
             'default boundary condition')
        same(F.evaluate_g_function(a, t, **kw), g,
             'default boundary condition')
    if c['method'] == 'equivalent':
        kw.pop('method')
        same(gt.gfunction.gFunction(
            B, a, time=t, boundary_condition=c['bc'], options=o).gFunc, g,
            'default method')


@st.composite
def flows(draw):
    c = draw(problem(net=True, tmax=4))
    c['bc'] = 'MIFT'
    c['more'] = [draw(gen.f(0.3, 3.)) * draw(st.sampled_from([1., 1., -1.]))
                 for _ in range(draw(st.integers(1, 2)))]
    return c


@sub('C12', 'flows', flows(), 200, 5000, shards=4)
def check_flows(c, ctx):
    """Several flow rates at once against one at a time."""
    r = prepare(c, ctx)
    if r is None:
        return
    f, t, o = r
    net, fl = c['net']['net'], c['net']['flow']
    base, cp = ng.flow_args(fl)
    ms = [base] + [base * x for x in c['more']]
    if max(ng.conditioning(net, dict(fl, m=np.asarray(m).tolist()))
           for m in ms) > 10.:
        ctx.set_trivial('ill conditioned')
        return
    o['profiles'] = True
    name = 'm_flow_borehole' if np.ndim(base) else 'm_flow_network'
    kw = {'method': c['method'], 'boundary_condition': 'MIFT', 'options': o,
          'cp_f': cp}
    nm, nt = len(ms), len(t)
    G = gt.gfunction.gFunction(
        ng.build(net), c['alpha'], time=t, **{name: np.array(ms)}, **kw)
    g = finite(G.gFunc, (nm, nm, nt), 'g-function')
    perm = list(range(nm))[::-1]
    R = gt.gfunction.gFunction(
        ng.build(net), c['alpha'], time=t, **{name: np.array(ms)[perm]}, **kw)
    close(finite(R.gFunc, (nm, nm, nt)), g[perm][:, perm], rtol=1e-6,
          scale=1e-2 * float(np.max(np.abs(g))), what='flows renumbered')
    for i, m in enumerate(ms):
        F = gt.gfunction.gFunction(ng.build(net), c['alpha'], time=t,
                                   **{name: m}, **kw)
        close(g[i, i], F.gFunc, rtol=1e-7, what=f'flow {i} alone')
        close(np.asarray(G.solver.Q_b)[i], np.asarray(F.solver.Q_b),
              rtol=1e-6, scale=1., what='heat rates')
        close(np.asarray(G.solver.T_b)[i], np.asarray(F.solver.T_b),
              rtol=1e-6, scale=1e-2, what='temperatures')
