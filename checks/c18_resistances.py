"""C18: effective and local thermal resistances match their definition."""
import math
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen, netgen as ng, pipegen as pg
from pbt.harness import close, describe, require, scalar, sub

describe('C18', (
    'Drawn pipes of all kinds, networks of them, flows of either direction '
    'and fluids, after drawn earlier queries; the resistance is rebuilt from '
    'predicted inlet and outlet temperatures, from an independent solution '
    'of the fluid equations, from marching through the network and from '
    'closed forms and limits. Trivial when the fluid leaves at the wall '
    'temperature within rounding.'),
    ['delta-circuit resistances are taken from the public function that '
     'computes them, judged by C19'])

P = gt.pipes


@st.composite
def case(draw):
    c = draw(pg.pipe(('single', 'parallel', 'series', 'coaxial',
                      'independent')))
    c['reversible'] = draw(st.sampled_from([True, True, False]))
    if c['kind'] == 'independent':
        c = dict(c, pos=[c['pos'][0], c['pos'][c['n']]], n=1)
    fl = draw(pg.flow(c, ntu=(0.005, 3.)))
    n, r = draw(pg.ratios())
    other = draw(pg.flow(c))
    return {'pipe': c, 'flow': fl, 'n': n, 'r': r, 'other': other,
            'T': [draw(ng.T), draw(ng.T)],
            'before': draw(st.lists(st.sampled_from(
                ['other', 'same', 'outlet', 'rate', 'local', 'old']),
                max_size=4)),
            'R_fp': draw(gen.logf(0.01, 0.5)), 'old': draw(st.booleans())}


def almost(a, b):
    """Flows close enough to share coefficients (tolerance of 1e-6) but
    different."""
    for x, y in ((a[0], b[0]), (a[0] * a[1], b[0] * b[1]),
                 (a[0], b[0] * b[1] / a[1])):
        d = np.abs(np.subtract.outer(np.ravel(x), np.ravel(y)))
        if np.any((d > 0.) & (d < 1e-5 * np.abs(np.ravel(y)))):
            return True
    return False


@sub('C18', 'borehole', case(), 1400, 20000, shards=4)
def check_borehole(c, ctx):
    p = c['pipe']
    m, cp = pg.flow_args(p, c['flow'])
    m = float(np.ravel(m)[0])
    mo, cpo = float(np.ravel(c['other']['m'])[0]), c['other']['cp']
    Rd = pg.delta(p)
    ref = pg.Ref(p, m, cp, Rd)
    ex = float(np.max(np.abs(np.linalg.eigvals(ref.A)))) * p['H']
    if ex > 10.:
        ctx.set_trivial('ill conditioned')
        return
    if almost((m, cp), (mo, cpo)):
        ctx.set_trivial('flows nearly equal')
        return
    arg = np.array([m]) if p['kind'] == 'independent' else m
    argo = np.array([mo]) if p['kind'] == 'independent' else mo
    ctx.label(p['kind'], 'reversed' if m < 0 else 'forward')
    pipe = pg.build(p)
    for b in c['before']:
        if b == 'other':
            pipe.effective_borehole_thermal_resistance(argo, cpo)
        elif b == 'same':
            pipe.effective_borehole_thermal_resistance(arg, cp)
        elif b == 'outlet':
            pipe.coefficients_outlet_temperature(arg, cp, c['n'])
        elif b == 'rate':
            pipe.coefficients_borehole_heat_extraction_rate(argo, cpo, 1)
        elif b == 'local':
            pipe.local_borehole_thermal_resistance()
        else:
            pipe.coefficients_outlet_temperature(argo, cp, 1)
    R = scalar(pipe.effective_borehole_thermal_resistance(arg, cp))
    Ti, Tb = c['T']
    if abs(Ti - Tb) < 1.:
        Tb = Ti + 5.
    H = p['H']
    # independent solution
    ref.solve([Ti], [Tb], np.array([1.]))
    To = float(ref.T_out[0])
    Q = abs(m) * cp * (To - Ti)
    Rr = H * (Tb - 0.5 * (Ti + To)) / Q
    tol = 1e-9 + 1e-14 * math.exp(2 * ex)
    # the heat rate is a difference of temperatures
    tol = tol + 1e-12 * abs(Ti - Tb) / max(abs(To - Ti), 1e-300)
    close([R], [Rr], rtol=tol, what='effective resistance')
    # predicted temperatures, any segments
    rr = pg.rat(c['r'])
    Tp = scalar(pipe.get_outlet_temperature(
        Ti, np.full(c['n'], Tb), arg, cp, segment_ratios=rr))
    Qp = float(np.sum(pipe.get_borehole_heat_extraction_rate(
        Ti, np.full(c['n'], Tb), arg, cp, segment_ratios=rr)))
    close([R], [H * (Tb - 0.5 * (Ti + Tp)) / Qp], rtol=10 * tol,
          what='effective resistance against predictions')
    # local resistance
    L = scalar(pipe.local_borehole_thermal_resistance())
    G = float(np.sum(1. / np.diag(Rd)))
    close([L], [1. / G], rtol=1e-9, what='local resistance')
    sym = p['kind'] in ('single', 'independent', 'coaxial')
    if sym:
        require(R >= L * (1 - 1e-9 - tol),
                'effective resistance is not below local', R=R, L=L)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['old']:
            close([scalar(P.borehole_thermal_resistance(pipe, arg, cp))],
                  [R], rtol=1e-12, what='deprecated function')
    # large flow: all fluid at the inlet temperature
    big = scalar(pipe.effective_borehole_thermal_resistance(arg * 1e3, cp))
    u = H / (abs(m) * 1e3 * cp) * np.max(1. / Rd[np.isfinite(Rd)]) * 2 * p['n']
    close([big], [L], rtol=20 * u + 20 * u**2 + 1e-9, what='large flow')
    # new fluid resistance
    if p['kind'] == 'coaxial':
        pipe.update_thermal_resistances(p['R_ff'], c['R_fp'])
    else:
        pipe.update_thermal_resistances(c['R_fp'])
    q = dict(p, R_fp=c['R_fp'])
    r2 = pg.Ref(q, m, cp)
    if float(np.max(np.abs(np.linalg.eigvals(r2.A)))) * H > 10.:
        return
    F = pg.build(q)
    close([scalar(pipe.effective_borehole_thermal_resistance(arg, cp))],
          [scalar(F.effective_borehole_thermal_resistance(arg, cp))],
          rtol=1e-12, what='after an update')
    close([scalar(pipe.local_borehole_thermal_resistance())],
          [scalar(F.local_borehole_thermal_resistance())], rtol=1e-12,
          what='local after an update')


@st.composite
def case_net(draw):
    c = draw(ng.network(5))
    return {'net': c, 'flow': draw(ng.flow(c)), 'other': draw(ng.flow(c)),
            'before': draw(st.lists(st.sampled_from(
                ['other', 'same', 'out', 'rate', 'in', 'each']),
                max_size=4)),
            'seg': draw(ng.segments(c)), 'T': [draw(ng.T), draw(ng.T)]}


@sub('C18', 'network', case_net(), 800, 10000, shards=4)
def check_network(c, ctx):
    net, fl = c['net'], c['flow']
    ex = max(ng.conditioning(net, fl), ng.conditioning(net, c['other']))
    if ex > 10.:
        ctx.set_trivial('ill conditioned')
        return
    N = ng.build(net)
    m, cp = ng.flow_args(fl)
    mo, cpo = ng.flow_args(c['other'])
    k = ng.n_in(net)
    if almost(*((np.asarray(x) / (1 if np.ndim(x) else k), y)
                for x, y in ((m, cp), (mo, cpo)))):
        ctx.set_trivial('flows nearly equal')
        return
    nt = gt.networks.network_thermal_resistance
    for b in c['before']:
        if b == 'other':
            nt(N, mo, cpo)
        elif b == 'same':
            nt(N, m, cp)
        elif b == 'out':
            N.coefficients_network_outlet_temperature(mo, cpo, 1)
        elif b == 'rate':
            N.coefficients_network_heat_extraction_rate(mo, cp, 1)
        elif b == 'in':
            N.coefficients_network_inlet_temperature(m, cp, 1)
        else:
            N.coefficients_outlet_temperature(mo, cp, 1)
    R = scalar(nt(N, m, cp))
    Ti, Tb = c['T']
    if abs(Ti - Tb) < 1.:
        Tb = Ti + 5.
    n = len(net['con'])
    k = ng.counts(net, c['seg'])
    r = ng.solve(net, fl, c['seg'], Ti, [[Tb] * x for x in k])
    H = sum(p['H'] for p in net['pipes'])
    ref = H * (Tb - 0.5 * (Ti + r['net_out'])) / r['Qnet']
    tol = 1e-8 + 1e-13 * math.exp(2 * ex)
    tol = tol + 1e-11 * abs(Ti - Tb) / abs(r['net_out'] - Ti)
    ctx.label(f'{n} boreholes', f'{ng.n_in(net)} circuits',
              'reversed' if np.min(m) < 0 else 'forward')
    if n == 1:
        ctx.set_trivial('one borehole')
    close([R], [ref], rtol=tol, what='network resistance')
    # identical parallel boreholes with equal flows act as one
    if all(x == -1 for x in net['con']):
        q = dict(net, pipes=[net['pipes'][0]] * n)
        x = abs(float(np.ravel(m)[0]))
        rp = pg.build(net['pipes'][0])
        close([scalar(nt(ng.build(q), n * x, cp))],
              [scalar(rp.effective_borehole_thermal_resistance(x, cp))],
              rtol=1e-7 + 1e-13 * math.exp(2 * ex),
              what='identical parallel boreholes')
