"""C09: the three calculation methods give the same g-function."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fieldgen as fg, gen, netgen as ng
from pbt.harness import close, describe, finite, require, sub

describe('C09', (
    'Drawn bore fields (equal and mixed dimensions, vertical and inclined, '
    'regular and irregular positions), discretisations, times and boundary '
    'conditions; the detailed calculation is the oracle for the calculation '
    'by similarities (tight tolerance when distances are not merged) and for '
    'that with equivalent boreholes (tolerance of the approximation). A case '
    'is trivial when the field is one borehole.'),
    ['the equivalent method is an approximation: 1 % when distances are not '
     'merged and groups are as small as symmetry allows'])


@st.composite
def case_vertical(draw):
    f = draw(fg.vertical(1, 7))
    return {'field': f, 'alpha': draw(fg.ALPHA), 'lt': draw(fg.times()),
            'opt': draw(fg.options(len(f))),
            'bc': draw(st.sampled_from(['UHTR', 'UBWT', 'UBWT'])),
            'dis': draw(st.sampled_from([1e-7, 1e-7, 0.01]))}


def run(method, case, field, **extra):
    bs = fg.boreholes(field)
    ts = fg.scale(field, case['alpha'])
    t = np.array([ts * math.exp(x) for x in case['lt']])
    o = fg.opt_args(case['opt'])
    o.update(extra)
    g = gt.gfunction.gFunction(
        bs, case['alpha'], time=t, method=method,
        boundary_condition=case['bc'], options=o)
    return finite(g.gFunc, (len(t),), method), g


def labels(c, ctx, field):
    ctx.label(c['bc'], c['opt']['how'],
              'approximate' if c['opt']['approx'] else 'exact')
    if len(field) == 1:
        ctx.set_trivial('one borehole')
    if len({tuple(b[:3]) for b in field}) > 1:
        ctx.label('mixed dimensions')


@sub('C09', 'similarities', case_vertical(), 1000, 20000, shards=6)
def check_similarities(c, ctx):
    labels(c, ctx, c['field'])
    a, _ = run('detailed', c, c['field'])
    b, _ = run('similarities', c, c['field'], disTol=c['dis'])
    if c['dis'] < 1e-6:
        close(b, a, rtol=2e-6, atol=1e-7, what='similarities against detailed')
    else:
        close(b, a, rtol=0.01, atol=1e-3, what='similarities against detailed')


@st.composite
def case_inclined(draw):
    f = draw(fg.inclined(1, 5, horizontal=draw(st.integers(0, 7)) == 0))
    return {'field': f, 'alpha': draw(fg.ALPHA), 'lt': draw(fg.times(1, 4)),
            'opt': draw(fg.options(len(f), 3)),
            'bc': draw(st.sampled_from(['UHTR', 'UBWT', 'UBWT'])), 'dis': 1e-7}


@sub('C09', 'inclined', case_inclined(), 480, 10000, shards=6)
def check_inclined(c, ctx):
    labels(c, ctx, c['field'])
    if not fg.apart(c['field'], max(1., 0.03 * max(b[0] for b in c['field']))):
        ctx.set_trivial('boreholes cross')
        return
    # enough quadrature points for the result not to depend on which line of
    # a pair the quadrature is done over
    q = 61 if c['field'][0][5] > 1.5 else 31
    a, _ = run('detailed', c, c['field'], mQuad=q)
    b, _ = run('similarities', c, c['field'], disTol=c['dis'], mQuad=q)
    close(b, a, rtol=2e-4, atol=1e-5,
          what='similarities against detailed')


@st.composite
def case_lattice(draw):
    n = draw(st.sampled_from([3, 4, 5, 6, 6, 7]))
    cells = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)),
                          min_size=n, max_size=n, unique=True))
    H = draw(st.sampled_from([30., 100.]))
    tilt = draw(st.sampled_from([math.pi / 9, 0.2, 0.6]))
    B = H * math.sin(tilt) * draw(gen.f(2.05, 2.6))
    turn = draw(st.sampled_from([math.pi / 2, math.pi / 2, math.pi / 4, 0.6]))
    two = draw(st.sampled_from(['no', 'no', 'tilt', 'H', 'D', 'r']))
    f = []
    for i, j in cells:
        b = [H, 2., 0.075, B * i, B * j, tilt,
             draw(st.integers(-2, 4)) * turn]
        if two != 'no' and draw(st.booleans()):
            k = {'tilt': 5, 'H': 0, 'D': 1, 'r': 2}[two]
            b[k] = b[k] * draw(st.sampled_from([0., 0.5])) if k == 5 \
                else b[k] * 0.7
        f.append(b)
    return {'field': f, 'alpha': 1e-6, 'lt': draw(fg.times(1, 2)),
            'opt': draw(fg.options(n, draw(st.integers(1, 2)))),
            'bc': draw(st.sampled_from(['UHTR', 'UBWT'])), 'dis': 1e-7}


@sub('C09', 'inclined lattice', case_lattice(), 400, 8000, shards=4)
def check_lattice(c, ctx):
    """Regular positions and directions: pairs that differ in one angle, one
    length or one depth only."""
    check_inclined(c, ctx)


@st.composite
def case_equivalent(draw):
    f = draw(fg.vertical(1, 8))
    return {'field': f, 'alpha': draw(fg.ALPHA),
            'lt': draw(fg.times(lo=-5.)),
            'opt': draw(fg.options(len(f), same=True)),
            'bc': draw(st.sampled_from(['UHTR', 'UBWT', 'UBWT'])),
            'k': draw(st.sampled_from([10, 10, 1])),
            'dis': draw(st.sampled_from([1e-6, 1e-6, 0.01]))}


@sub('C09', 'equivalent', case_equivalent(), 600, 12000, shards=5)
def check_equivalent(c, ctx):
    labels(c, ctx, c['field'])
    a, _ = run('detailed', c, c['field'])
    b, g = run('equivalent', c, c['field'], disTol=c['dis'], kClusters=c['k'])
    # with uniform heat rates, merging boreholes into groups loses nothing
    exact = c['bc'] == 'UHTR' and c['dis'] < 1e-5 and not c['opt']['approx']
    if exact:
        ctx.label('exact by construction')
    close(b, a, rtol=1e-6 if exact else 5e-3, atol=1e-6 if exact else 1e-4,
          what='equivalent against detailed')


@st.composite
def case_large(draw):
    kind = draw(st.sampled_from(['grid', 'line', 'U', 'L', 'box', 'any']))
    n1, n2 = draw(st.integers(2, 6)), draw(st.integers(2, 5))
    B = draw(gen.f(4., 10.))
    ij = [(i, j) for i in range(n1) for j in range(n2)]
    if kind == 'line':
        ij = [(i, 0) for i in range(n1 + n2)]
    elif kind == 'U':
        ij = [(i, j) for i, j in ij if i in (0, n1 - 1) or j == 0]
    elif kind == 'L':
        ij = [(i, j) for i, j in ij if i == 0 or j == 0]
    elif kind == 'box':
        ij = [(i, j) for i, j in ij
              if i in (0, n1 - 1) or j in (0, n2 - 1)]
    elif kind == 'any':
        ij = draw(st.permutations(ij))[:draw(st.integers(2, len(ij)))]
    H, D, r = draw(gen.f(50., 250.)), draw(gen.f(0.5, 6.)), draw(gen.r_b)
    B2 = B * draw(st.sampled_from([1., 1., 1.3]))
    return {'field': [[H, D, r, B * i, B2 * j, 0., 0.] for i, j in ij],
            'alpha': draw(fg.ALPHA), 'lt': draw(fg.times(lo=-5.)),
            'opt': draw(fg.options(1, same=True)),
            'bc': draw(st.sampled_from(['UHTR', 'UBWT', 'UBWT'])),
            'kind': kind}


@sub('C09', 'large', case_large(), 120, 3000, shards=4)
def check_large(c, ctx):
    """Fields of the size the accelerated methods are meant for, with their
    default options."""
    labels(c, ctx, c['field'])
    ctx.label(c['kind'])
    a, _ = run('detailed', c, c['field'])
    b, _ = run('similarities', c, c['field'])
    e, _ = run('equivalent', c, c['field'])
    close(b, a, rtol=2e-3, atol=1e-4, what='similarities against detailed')
    close(e, a, rtol=1e-2, atol=1e-4, what='equivalent against detailed')


@st.composite
def case_mift(draw):
    nc = draw(fg.network(5))
    n = len(nc['net']['con'])
    return {'net': nc, 'alpha': draw(fg.ALPHA), 'lt': draw(fg.times(1, 4)),
            'opt': draw(fg.options(n, 3))}


def run_net(method, c, **extra):
    net, fl = c['net']['net'], c['net']['flow']
    m, cp = ng.flow_args(fl)
    o = fg.opt_args(c['opt'])
    o.update(extra)
    ts = fg.scale(fg.net_field(net), c['alpha'])
    t = np.array([ts * math.exp(x) for x in c['lt']])
    kw = {'m_flow_borehole': m} if np.ndim(m) else {'m_flow_network': m}
    g = gt.gfunction.gFunction(
        ng.build(net), c['alpha'], time=t, method=method,
        boundary_condition='MIFT', cp_f=cp, options=o, **kw)
    return finite(g.gFunc, (len(t),), method)


@sub('C09', 'networks', case_mift(), 240, 5000, shards=4)
def check_networks(c, ctx):
    net, fl = c['net']['net'], c['net']['flow']
    field = fg.net_field(net)
    n = len(field)
    ctx.label('series' if -1 not in net['con'][1:] else 'other',
              c['opt']['how'], 'reversed' if np.min(fl['m']) < 0 else
              'forward', 'per circuit' if np.ndim(fl['m']) else 'total')
    if n == 1:
        ctx.set_trivial('one borehole')
    if not fg.apart(field) or ng.conditioning(net, fl) > 12.:
        ctx.set_trivial('crossing or ill conditioned')
        return
    q = {} if fg.is_vertical(field) else {'mQuad': 31}
    a = run_net('detailed', c, **q)
    b = run_net('similarities', c, disTol=1e-7, **q)
    sc = float(np.max(np.abs(a)))
    close(b, a, rtol=2e-6 if not q else 2e-4, atol=1e-5, scale=sc,
          what='similarities against detailed')


@st.composite
def case_mift_eq(draw):
    nc = draw(fg.network(6, parallel=True))
    for p in nc['net']['pipes']:
        p['tilt'] = 0.
    fl = nc['flow']
    if isinstance(fl['m'], list):
        fl['m'] = [fl['m'][0]] * len(fl['m'])
    return {'net': nc, 'alpha': draw(fg.ALPHA),
            'lt': draw(fg.times(1, 4, lo=-5.)),
            'opt': draw(fg.options(1, 3, same=True))}


@sub('C09', 'networks_eq', case_mift_eq(), 200, 4000, shards=4)
def check_networks_eq(c, ctx):
    net, fl = c['net']['net'], c['net']['flow']
    ctx.label('per circuit' if np.ndim(fl['m']) else 'total',
              'reversed' if np.min(fl['m']) < 0 else 'forward')
    if len(net['con']) == 1:
        ctx.set_trivial('one borehole')
    if ng.conditioning(net, fl) > 12.:
        ctx.set_trivial('ill conditioned')
        return
    a = run_net('detailed', c)
    b = run_net('equivalent', c, disTol=1e-6, kClusters=10)
    sc = float(np.max(np.abs(a)))
    close(b, a, rtol=5e-3, atol=1e-4, scale=sc,
          what='equivalent against detailed')
