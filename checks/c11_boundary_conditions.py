"""C11: reported heat rates and temperatures satisfy the boundary condition
and the superposition of line sources."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fieldgen as fg, gen, gref, netgen as ng
from pbt.harness import close, describe, finite, require, scalar, sub

describe('C11', (
    'Drawn bore fields, networks, flows, discretisations, methods and time '
    'sequences (uniform and not); the stored heat rates and wall temperatures '
    'are put through a superposition written from first principles (own '
    'response factors, loops over the history) and the boundary condition '
    'and the reported g-function are recomputed from them. Trivial when '
    'there is one segment and one time.'),
    ['vertical responses from double integration; inclined ones from the '
     'point-by-point solution judged by C02',
     'the resampling of uneven load histories and the interpolation of '
     'response factors in time are those of the documented method'])


def threshold(field, alpha, lin):
    return max(b[2] for b in field)**2 / (25. * alpha) if lin is None else lin


@st.composite
def case(draw):
    inc = draw(st.integers(0, 4)) == 0
    f = draw(fg.inclined(1, 3)) if inc else draw(fg.vertical(1, 4))
    n = len(f)
    return {'field': f, 'alpha': draw(fg.ALPHA),
            'lt': draw(fg.times(1, 6, lo=-5. if inc else -11.)),
            'opt': dict(draw(fg.options(n, 3 if not inc else 2)),
                        approx=False),
            'bc': draw(st.sampled_from(['UHTR', 'UBWT', 'UBWT'])),
            'lin': draw(st.sampled_from([None, None, None, -6., 0.])),
            'early': draw(EARLY),
            'method': draw(st.sampled_from(['similarities', 'detailed']))}


# times up to the threshold, as fractions of it
EARLY = st.one_of(st.just([]), st.just([]), st.lists(
    st.one_of(st.sampled_from([1., 0.5]), gen.f(0.02, 1.)), min_size=1,
    max_size=2, unique=True).map(sorted))


@sub('C11', 'fields', case(), 360, 8000, shards=6)
def check_fields(c, ctx):
    f, al = c['field'], c['alpha']
    n = len(f)
    v = fg.is_vertical(f)
    if not fg.apart(f, max(1., 0.03 * max(b[0] for b in f))):
        ctx.set_trivial('crossing')
        return
    ts = fg.scale(f, al)
    t = np.array([ts * math.exp(x) for x in c['lt']])
    o = fg.opt_args(c['opt'])
    if c['method'] == 'similarities':
        o['disTol'] = 1e-7
    o.update(profiles=True)
    if not v:
        o['mQuad'] = 31
    lin = None
    if c['lin'] is not None:
        lin = o['linear_threshold'] = ts * math.exp(c['lin'])
    thr = threshold(f, al, lin)
    if c['early']:
        t = np.concatenate(([w * thr for w in c['early']], t[t > thr]))
    G = gt.gfunction.gFunction(
        fg.boreholes(f), al, time=t, method=c['method'],
        boundary_condition=c['bc'], options=o)
    rs = fg.seg_ratios(c['opt'], n)
    H = np.concatenate([b[0] * r for b, r in zip(f, rs)])
    ns, nt = len(H), len(t)
    ctx.label(c['bc'], c['method'], 'vertical' if v else 'inclined')
    if ns == 1 and nt == 1:
        ctx.set_trivial('one segment, one time')
    g = finite(G.gFunc, (nt,), 'g-function')
    k = int(np.sum(t <= thr))
    if k:
        ctx.label('linear part')
    # the calculation proceeds from the threshold on
    tl = np.concatenate(([thr], t[k:])) if k else t
    h = gref.responses(f, rs, tl, al, quadrature=c['method'] == 'detailed')
    rt, at = (2e-6, 1e-6) if v else (5e-4, 1e-4)
    if c['bc'] == 'UHTR':
        T = finite(G.solver.T_b, (ns, nt), 'wall temperatures')
        close([scalar(G.solver.Q_b)], [1.], rtol=0., what='heat rate')
        full = h.sum(axis=1)
        ref = full[:, 1:] if k else full
        if k:
            ref = np.concatenate((full[:, :1] * t[:k] / thr, ref), axis=1)
        close(T, ref, rtol=rt, atol=at, what='wall temperatures')
        close(g, H @ T / H.sum(), rtol=1e-9, what='mean temperature')
        return
    Q = finite(G.solver.Q_b, (ns, nt), 'heat rates')
    T = finite(G.solver.T_b, (nt,), 'wall temperature')
    close(H @ Q / H.sum(), np.ones(nt), rtol=1e-8, what='total heat rate')
    close(g, T, rtol=1e-12, what='g-function against wall temperature')
    # heat rates at the threshold from those of the linear part
    if k:
        w = t[k - 1] / thr
        if w < 1e-6:
            ctx.set_trivial('all but zero time')
            return
        Q0 = 1. + (Q[:, k - 1] - 1.) / w
        T0 = T[k - 1] / w
        close(Q[:, :k], 1. + np.outer(Q0 - 1., t[:k] / thr), rtol=1e-7,
              atol=1e-9, what='heat rates below the threshold')
        close(T[:k], T0 * t[:k] / thr, rtol=1e-7, atol=1e-12,
              what='temperature below the threshold')
        Q = np.concatenate((Q0[:, None], Q[:, k:]), axis=1)
        T = np.concatenate(([T0], T[k:]))
    e = np.concatenate(([0.], tl))
    for p in range(len(tl)):
        x = gref.past(h, tl[:p + 1], Q[:, :p + 1]) \
            + gref.interp(h, tl, e[p + 1] - e[p]) @ Q[:, p]
        close(x, np.full(ns, T[p]), rtol=rt, atol=10 * at,
              what=f'wall temperature of the segments at time {p}')
    dt = np.diff(e)
    if np.all(np.abs(dt / dt[0] - 1.) < 1e-9):
        ctx.label('uniform steps')
        x = gref.exact(lambda d: gref.interp(h, tl, d) if d > 0.
                       else np.zeros((ns, ns)), tl, Q, len(tl) - 1)
        close(x, np.full(ns, T[-1]), rtol=rt, atol=10 * at,
              what='superposition of the steps')


@st.composite
def case_net(draw):
    nc = draw(fg.network(4))
    n = len(nc['net']['con'])
    fl = nc['flow']
    # several flows: the first is that of the case
    more = [draw(gen.f(0.3, 3.)) * draw(st.sampled_from([1., 1., -1.]))
            for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    return {'net': nc, 'alpha': draw(fg.ALPHA), 'more': more,
            'lt': draw(fg.times(1, 4, lo=-9.)),
            'opt': dict(draw(fg.options(n, 2)), approx=False),
            'own': draw(st.booleans()), 'early': draw(EARLY),
            'method': draw(st.sampled_from(['similarities', 'detailed']))}


@sub('C11', 'networks', case_net(), 300, 6000, shards=6)
def check_networks(c, ctx):
    net, fl = c['net']['net'], c['net']['flow']
    for p in net['pipes']:
        p['tilt'] = 0.
    al = c['alpha']
    f = fg.net_field(net)
    n = len(f)
    base, cp = ng.flow_args(fl)
    flows = [base] + [base * x for x in c['more']]
    fls = [dict(fl, m=m.tolist() if np.ndim(m) else float(m)) for m in flows]
    ex = max(ng.conditioning(net, x) for x in fls)
    if ex > 10.:
        ctx.set_trivial('ill conditioned')
        return
    ts = fg.scale(f, al)
    t = np.array([ts * math.exp(x) for x in c['lt']])
    o = fg.opt_args(c['opt'])
    o['profiles'] = True
    if c['method'] == 'similarities':
        o['disTol'] = 1e-7
    thr = threshold(f, al, None)
    if c['early']:
        t = np.concatenate(([w * thr for w in c['early']], t[t > thr]))
    nm = len(flows)
    m = base if nm == 1 else np.array(flows)
    kw = {'m_flow_borehole' if np.ndim(base) else 'm_flow_network': m,
          'cp_f': cp}
    N = ng.build(net)
    if nm == 1 and c['own'] and (np.ndim(base) == 0 or
                                 c['method'] == 'detailed'):
        # flow and heat capacity kept by the network itself
        ctx.label('flow of the network')
        N = ng.build(net, m_flow_network=base, cp_f=cp)
        kw = {}
    G = gt.gfunction.gFunction(
        N, al, time=t, method=c['method'], options=o, **kw)
    require(G.boundary_condition == 'MIFT', 'default boundary condition')
    ctx.label(c['method'], f'{nm} flows',
              'reversed' if np.min(base) < 0 else 'forward')
    nt = len(t)
    g = finite(G.gFunc, (nt,) if nm == 1 else (nm, nm, nt), 'g-function')
    g = g.reshape(nm, nm, nt)
    rs = fg.seg_ratios(c['opt'], n)
    H = np.concatenate([b[0] * r for b, r in zip(f, rs)])
    ns, Ht = len(H), H.sum()
    k_s = net['pipes'][0]['k_s']
    Qs = finite(G.solver.Q_b).reshape(nm, ns, nt)
    Ts = finite(G.solver.T_b).reshape(nm, ns, nt)
    k = int(np.sum(t <= thr))
    tl = np.concatenate(([thr], t[k:])) if k else t
    h = gref.responses(f, rs, tl, al, quadrature=c['method'] == 'detailed')
    e = np.concatenate(([0.], tl))
    if k:
        ctx.label('linear part')
        if t[k - 1] / thr < 1e-6:
            ctx.set_trivial('all but zero time')
            return
    seg = {'n': fg.seg_counts(c['opt'], n), 'r': [r.tolist() for r in rs]}
    split = np.cumsum([0] + seg['n'])
    tol = 1e-6 + 1e-13 * math.exp(2 * ex)
    Tj = []
    for j in range(nm):
        Q, T = Qs[j], Ts[j]
        close(H @ Q / Ht, np.ones(nt), rtol=1e-8, what='total heat rate')
        if k:
            w = t[k - 1] / thr
            Q0, T0 = 1. + (Q[:, k - 1] - 1.) / w, T[:, k - 1] / w
            close(Q[:, :k], 1. + np.outer(Q0 - 1., t[:k] / thr), rtol=1e-7,
                  atol=1e-8, what='heat rates below the threshold')
            close(T[:, :k], np.outer(T0, t[:k] / thr), rtol=1e-7,
                  atol=1e-9, what='temperatures below the threshold')
            Q = np.concatenate((Q0[:, None], Q[:, k:]), axis=1)
            T = np.concatenate((T0[:, None], T[:, k:]), axis=1)
        Tj.append(T)
        sc = float(np.max(np.abs(T)))
        for p in range(len(tl)):
            x = gref.past(h, tl[:p + 1], Q[:, :p + 1]) \
                + gref.interp(h, tl, e[p + 1] - e[p]) @ Q[:, p]
            close(x, T[:, p], rtol=1e-5, scale=sc,
                  what=f'wall temperatures at time {p}')
        # the fluid that extracts these rates from these walls; temperatures
        # are drops for an extraction of 2 pi k_s per metre
        for p in range(len(tl)):
            Tb = [(-T[a:b, p]).tolist() for a, b in zip(split, split[1:])]
            r0 = ng.solve(net, fls[j], seg, 0., Tb)
            r1 = ng.solve(net, fls[j], seg, 1., [[0.] * len(x) for x in Tb])
            Tin = (2. * math.pi * k_s * Ht - r0['Qnet']) / r1['Qnet']
            Qx = r0['Qb'] + Tin * r1['Qb']
            close(Qx / (2. * math.pi * k_s * H), Q[:, p], rtol=1e-4,
                  atol=tol, scale=float(np.max(np.abs(Q))),
                  what='heat rates of the segments against the fluid')
    # effective temperatures
    for i in range(nm):
        N2 = ng.build(net)
        R = scalar(gt.networks.network_thermal_resistance(N2, flows[i], cp))
        r1 = ng.solve(net, fls[i], seg, 1., [[0.] * b for b in seg['n']])
        for j in range(nm):
            if i != j:
                ctx.label('other flow')
            ref = []
            for p in range(len(tl)):
                Tb = [(-Tj[j][a:b, p]).tolist()
                      for a, b in zip(split, split[1:])]
                r0 = ng.solve(net, fls[i], seg, 0., Tb)
                Tin = (2. * math.pi * k_s * Ht - r0['Qnet']) / r1['Qnet']
                Tout = Tin + 2. * math.pi * k_s * Ht / r1['Ctot']
                ref.append(-0.5 * (Tin + Tout) - 2. * math.pi * k_s * R)
            ref = np.array(ref)
            if k:
                ref = np.concatenate((ref[0] * t[:k] / thr, ref[1:]))
            sc = max(float(np.max(np.abs(ref))),
                     2e-2 * math.pi * k_s * Ht / r1['Ctot'], 1e-2 * R * k_s)
            close(g[i, j], ref, rtol=2e-5 + tol, scale=sc,
                  what=f'g-function {i} {j}')
