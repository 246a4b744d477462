"""C10: g-functions do not depend on numbering, placement, units."""
import math
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fieldgen as fg, gen, netgen as ng
from pbt.harness import close, describe, finite, require, sub

describe('C10', (
    'Drawn bore fields, networks, discretisations and methods; the '
    'g-function of the drawn field is compared with that of the renumbered, '
    'translated, rotated, mirrored and scaled field, with scaled diffusivity '
    'and times, with other discretisations (uniform heat rates) and with '
    'bounds between boundary conditions. A case is trivial when the field is '
    'one borehole.'),
    ['inclined responses are compared within their quadrature error'])

# the threshold of linearisation is at about -15
EARLY = st.one_of(fg.times(1, 4), fg.times(1, 4), fg.times(2, 4, lo=-18.))
METHODS = ['similarities', 'similarities', 'detailed', 'equivalent']


@st.composite
def case(draw):
    inc = draw(st.integers(0, 3)) == 0
    method = draw(st.sampled_from(METHODS[:3] if inc else METHODS))
    eq = method == 'equivalent'
    f = draw(fg.inclined(1, 4)) if inc else \
        draw(fg.vertical(1, 6))
    n = len(f)
    return {'field': f, 'alpha': draw(fg.ALPHA),
            'lt': draw(fg.times(1, 4, lo=-5.) if eq else EARLY),
            'opt': draw(fg.options(n, 3, same=eq)), 'method': method,
            'bc': draw(st.sampled_from(['UHTR', 'UBWT', 'UBWT'])),
            'perm': list(draw(st.permutations(list(range(n))))),
            'move': [draw(gen.shift), draw(gen.shift),
                     draw(gen.angle)],
            'mirror': draw(st.booleans()),
            's': draw(gen.logf(0.2, 5.)), 'k': draw(gen.logf(0.2, 5.)) * draw(gen.unit)}


@st.composite
def case_early(draw):
    f = draw(fg.vertical(2, 5))
    for b in f:
        b[2] = draw(st.sampled_from([0.05, 0.075]) | gen.f(0.03, 0.25))
    c = {'field': f, 'alpha': draw(fg.ALPHA),
         'lt': sorted(draw(st.lists(gen.f(-19., -10.), min_size=1,
                                    max_size=5, unique=True))),
         'opt': draw(fg.options(len(f), 2)), 'mirror': draw(st.booleans()),
         'method': draw(st.sampled_from(['similarities', 'detailed'])),
         'bc': draw(st.sampled_from(['UHTR', 'UBWT', 'UBWT'])),
         'perm': list(draw(st.permutations(list(range(len(f)))))),
         'move': [draw(gen.shift), draw(gen.shift),
                  draw(gen.angle)],
         's': draw(gen.logf(0.2, 5.)), 'k': draw(gen.logf(0.2, 5.)) * draw(gen.unit)}
    return c


def transform(f, move, mirror):
    dx, dy, a = move
    out = []
    for H, D, r, x, y, t, o in f:
        if mirror:
            y, o = -y, -o
        out.append([H, D, r, x * math.cos(a) - y * math.sin(a) + dx,
                    x * math.sin(a) + y * math.cos(a) + dy, t, o + a])
    return out


def g_of(f, opt, times, alpha, c):
    o = fg.opt_args(opt)
    o['disTol'] = 1e-6
    if c['method'] == 'detailed':
        o.pop('disTol')
    if not fg.is_vertical(f):
        o['mQuad'] = 31
    if c['method'] == 'equivalent':
        o['kClusters'] = 10
    return finite(gt.gfunction.gFunction(
        fg.boreholes(f), alpha, time=np.array(times), method=c['method'],
        boundary_condition=c['bc'], options=o).gFunc, (len(times),))


@sub('C10', 'fields', case(), 400, 10000, shards=5)
def check_fields(c, ctx):
    f, opt, al = c['field'], c['opt'], c['alpha']
    n = len(f)
    ctx.label(c['method'], c['bc'],
              'vertical' if fg.is_vertical(f) else 'inclined')
    if n == 1:
        ctx.set_trivial('one borehole')
    if not fg.apart(f, max(1., 0.03 * max(b[0] for b in f))):
        ctx.set_trivial('crossing')
        return
    ts = fg.scale(f, al)
    t = np.array([ts * math.exp(x) for x in c['lt']])
    g = g_of(f, opt, t, al, c)
    tl = dict(rtol=1e-5 if fg.is_vertical(f) else 5e-4, atol=1e-6)
    if c['method'] == 'equivalent':
        # the clustering of nearly equal boreholes may change
        tl = dict(rtol=3e-3, atol=1e-5)
    pm = c['perm']
    o2 = dict(opt)
    if isinstance(opt['n'], list):
        o2['n'] = [opt['n'][i] for i in pm]
        if opt['how'] == 'lists':
            o2['r'] = [opt['r'][i] for i in pm]
    close(g_of([f[i] for i in pm], o2, t, al, c), g, what='renumbered', **tl)
    close(g_of(transform(f, c['move'], c['mirror']), opt, t, al, c), g,
          what='moved', **tl)
    s = c['s']
    fs = [[H * s, D * s, r * s, x * s, y * s, a, b]
          for H, D, r, x, y, a, b in f]
    close(g_of(fs, opt, t * s**2, al, c), g, what='scaled lengths', **tl)
    k = c['k']
    close(g_of(f, opt, t / k, al * k, c), g, what='scaled diffusivity', **tl)


@sub('C10', 'early', case_early(), 160, 4000, shards=2)
def check_early(c, ctx):
    """The same around the threshold of linearisation, for boreholes of any
    radii."""
    check_fields(c, ctx)


@st.composite
def case_net(draw):
    nc = draw(fg.network(5))
    n = len(nc['net']['con'])
    return {'net': nc, 'alpha': draw(fg.ALPHA), 'lt': draw(EARLY),
            'opt': draw(fg.options(n, 3)), 's': draw(gen.logf(0.4, 2.5)),
            'perm': list(draw(st.permutations(list(range(n))))),
            'k': draw(gen.logf(0.5, 2.)),
            'method': draw(st.sampled_from(['similarities', 'detailed']))}


def g_net(net, m, cp, opt, t, alpha, method):
    o = fg.opt_args(opt)
    if method == 'similarities':
        o['disTol'] = 1e-6
    if not fg.is_vertical(fg.net_field(net)):
        o['mQuad'] = 31
    kw = {'m_flow_borehole': m} if np.ndim(m) else {'m_flow_network': m}
    return finite(gt.gfunction.gFunction(
        ng.build(net), alpha, time=np.array(t), method=method,
        boundary_condition='MIFT', cp_f=cp, options=o, **kw).gFunc,
        (len(t),))


@sub('C10', 'networks', case_net(), 240, 6000, shards=5)
def check_networks(c, ctx):
    net, fl = c['net']['net'], c['net']['flow']
    al, opt = c['alpha'], c['opt']
    field = fg.net_field(net)
    if len(field) == 1:
        ctx.set_trivial('one borehole')
    if not fg.apart(field) or ng.conditioning(net, fl) > 10.:
        ctx.set_trivial('crossing or ill conditioned')
        return
    ctx.label(c['method'], 'reversed' if np.min(fl['m']) < 0 else 'forward')
    m, cp = ng.flow_args(fl)
    ts = fg.scale(field, al)
    t = np.array([ts * math.exp(x) for x in c['lt']])
    g = g_net(net, m, cp, opt, t, al, c['method'])
    v = fg.is_vertical(field)
    tl = dict(rtol=2e-5 if v else 5e-4, atol=1e-5,
              scale=float(np.max(np.abs(g))))
    pm = c['perm']
    net2, m2 = ng.renumber(net, m, pm)
    o2 = dict(opt)
    if isinstance(opt['n'], list):
        o2['n'] = [opt['n'][i] for i in pm]
        if opt['how'] == 'lists':
            o2['r'] = [opt['r'][i] for i in pm]
    close(g_net(net2, m2, cp, o2, t, al, c['method']), g, what='renumbered',
          **tl)
    # all lengths scaled: resistances per length are unchanged, the same
    # temperatures need flows in proportion to the lengths
    s = c['s']
    ps = []
    for p in net['pipes']:
        q = dict(p)
        for key in ('H', 'D', 'r_b'):
            q[key] = p[key] * s
        q['pos'] = [[x * s for x in xy] for xy in p['pos']] \
            if isinstance(p['pos'][0], list) else [x * s for x in p['pos']]
        for key in ('r_in', 'r_out'):
            q[key] = [x * s for x in p[key]] if isinstance(p[key], list) \
                else p[key] * s
        ps.append(q)
    net3 = dict(net, pipes=ps, pos=[[x * s, y * s] for x, y in net['pos']])
    close(g_net(net3, m * s, cp, opt, t * s**2, al, c['method']), g,
          what='scaled lengths', **tl)
    k = c['k']
    close(g_net(net, m * k, cp / k, opt, t / k, al * k, c['method']), g,
          what='scaled diffusivity and heat capacity', **tl)
    # the same flows as a total or per circuit
    if np.ndim(m) == 0:
        nc = ng.n_in(net)
        close(g_net(net, np.full(nc, m / nc), cp, opt, t, al, c['method']),
              g, what='flow given per circuit', **tl)


@st.composite
def case_uhtr(draw):
    inc = draw(st.integers(0, 4)) == 0
    f = draw(fg.inclined(1, 3)) if inc else draw(fg.vertical(1, 5))
    n = len(f)
    return {'field': f, 'alpha': draw(fg.ALPHA),
            'lt': draw(fg.times(1, 4, lo=-4.) if inc else EARLY),
            'o1': draw(fg.options(n, 4)), 'o2': draw(fg.options(n, 4)),
            'method': draw(st.sampled_from(['similarities', 'detailed']))}


@sub('C10', 'uniform_rates', case_uhtr(), 240, 6000, shards=3)
def check_uhtr(c, ctx):
    """With uniform heat rates, cutting lines into segments changes nothing;
    with a single step, a uniform temperature minimises the mean
    temperature."""
    f, al = c['field'], c['alpha']
    if not fg.apart(f, max(1., 0.03 * max(b[0] for b in f))):
        ctx.set_trivial('crossing')
        return
    ts = fg.scale(f, al)
    t = np.array([ts * math.exp(x) for x in c['lt']])
    v = fg.is_vertical(f)
    a = dict(c['o1'], approx=False)
    b = dict(c['o2'], approx=False)
    if fg.seg_counts(a, len(f)) == fg.seg_counts(b, len(f)) == [1] * len(f):
        ctx.set_trivial('one segment')
    C = dict(c, bc='UHTR')
    g = g_of(f, a, t, al, C)
    close(g_of(f, b, t, al, C), g, rtol=2e-6 if v else 5e-3, atol=1e-6,
          what='other segments')
    ctx.label('vertical' if v else 'inclined')
    # borehole by borehole
    bs = fg.boreholes(f)
    H = np.array([x[0] for x in f])
    if v:
        h = np.asarray(gt.heat_transfer.finite_line_source(t, al, bs, bs))
        lin = np.minimum(t / (max(x[2] for x in f)**2 / (25. * al)), 1.)
        if np.all(lin >= 1.):
            close(g, np.einsum('i,ijk->k', H, h) / H.sum(), rtol=2e-6,
                  atol=1e-6, what='sum over pairs of boreholes')
    C = dict(c, bc='UBWT')
    u = g_of(f, a, t[:1], al, C)
    require(u[0] <= g[0] * (1. + (1e-9 if v else 1e-3)) + 1e-12,
            'uniform temperature above the mean of uniform rates',
            ubwt=u, uhtr=g)


@st.composite
def case_forms(draw):
    inc = draw(st.integers(0, 3)) == 0
    net = draw(st.integers(0, 2)) == 0
    c = {'alpha': draw(fg.ALPHA), 'lt': draw(fg.times(1, 3)),
         'bc': draw(st.sampled_from(['UHTR', 'UBWT'])),
         'late': draw(st.booleans())}
    if net:
        c['net'] = draw(fg.network(4))['net']
        n = len(c['net']['con'])
    else:
        c['field'] = draw(fg.inclined(1, 4) if inc else fg.vertical(1, 5))
        n = len(c['field'])
    c['method'] = draw(st.sampled_from(['similarities', 'detailed',
                                        'equivalent']))
    c['opt'] = draw(fg.options(n, 3, same=True))
    return c


@sub('C10', 'kinds of object', case_forms(), 240, 6000, shards=2)
def check_kinds(c, ctx):
    """A field is the same as a list, a bore field, a field read back from
    its boreholes, a borehole, and under a network of other pipes."""
    field = c['field'] if 'field' in c else fg.net_field(c['net'])
    if not fg.apart(field, max(1., 0.03 * max(b[0] for b in field))):
        ctx.set_trivial('crossing')
        return
    method = c['method'] if fg.is_vertical(field) else 'detailed'
    o = fg.opt_args(c['opt'])
    al = c['alpha']
    t = np.array([fg.scale(field, al) * math.exp(x) for x in c['lt']])
    ctx.label(method, 'network' if 'net' in c else 'field')

    def g(obj):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            kw = dict(method=method, boundary_condition=c['bc'], options=o)
            if c['late']:
                G = gt.gfunction.gFunction(obj, al, **kw)
                return finite(np.array(G.evaluate_g_function(t)), (len(t),))
            return finite(gt.gfunction.gFunction(
                obj, al, time=t, **kw).gFunc, (len(t),))
    B = fg.boreholes(field)
    ref = g(B)
    tl = dict(rtol=1e-11, atol=1e-13)
    F = gt.borefield.Borefield.from_boreholes(B)
    close(g(F), ref, what='bore field', **tl)
    a = np.array(field)
    same = [bool(np.all(a[:, k] == a[0, k])) for k in range(7)]
    args = [float(a[0, k]) if same[k] and k in (0, 1, 2, 5) else
            a[:, k].tolist() for k in range(7)]
    close(g(gt.borefield.Borefield(*args[:5], tilt=args[5],
                                   orientation=args[6])), ref,
          what='bore field from arrays and numbers', **tl)
    if len(B) == 1:
        ctx.label('one borehole')
        close(g([F[0]]), ref, what='borehole of a field', **tl)
    close(finite(F.evaluate_g_function(
        al, t, method=method, boundary_condition=c['bc'], options=o),
        (len(t),)), ref, what='method of the bore field', **tl)
    if 'net' in c:
        close(g(ng.build(c['net'])), ref, what='network', **tl)
