"""C27: invalid configurations are refused, their valid neighbours are not."""
import math
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fieldgen as fg, gen, netgen as ng, pipegen as pg
from pbt.harness import describe, fail, finite, raises, require, sub

describe('C27', (
    'A valid pipe, network, set of flows, bore field or set of options is '
    'drawn and must be accepted; then one defect is injected and the same '
    'construction (and, where the defect only concerns a query, the query) '
    'must raise. Trivial when the drawn defect does not apply.'),
    ['documented checks must raise ValueError; elsewhere any exception is a '
     'refusal and a number is not'])

REFUSED = (Exception,)


# ------------------------------------------------------------------- pipes
U_DEFECTS = ['k_s', 'k_g', 'R_fp', 'r_in', 'r_out', 'J', 'protrude',
             'overlap', 'missing pipe', 'config']
C_DEFECTS = ['k_s', 'k_g', 'R_fp', 'R_ff', 'r_in inner', 'r_in outer',
             'r_out inner', 'r_out outer', 'gap', 'J', 'protrude', 'eccentric']


@st.composite
def pipe_case(draw):
    c = draw(pg.pipe(('single', 'parallel', 'series', 'independent',
                      'coaxial', 'coaxial'), 3))
    d = draw(st.sampled_from(
        C_DEFECTS if c['kind'] == 'coaxial' else U_DEFECTS))
    return {'pipe': c, 'defect': d, 'zero': draw(st.booleans()),
            'x': draw(gen.f(0.01, 1.)), 'i': draw(st.integers(0, 7)),
            'a': draw(gen.angle)}


def break_pipe(c, case):
    """Copy of pipe data with one defect (None: not applicable)."""
    b = dict(c)
    d, x, a = case['defect'], case['x'], case['a']
    bad = 0. if case['zero'] else -x * 2.
    coax = c['kind'] == 'coaxial'
    if coax:
        o = int(np.argmax(c['r_out']))
        i = 1 - o
        ri, ro = list(c['r_in']), list(c['r_out'])
        b['r_in'], b['r_out'] = ri, ro
    if d in ('k_s', 'k_g', 'R_fp'):
        b[d] = bad
    elif d == 'R_ff':
        b[d] = -x
    elif d == 'J':
        b[d] = -1 - int(3 * x)
    elif d == 'r_in':
        b[d] = bad * c['r_in']
    elif d == 'r_out':
        b[d] = c['r_in'] * (1. if case['zero'] else 1. - 0.9 * x)
    elif d == 'r_in inner':
        ri[i] = bad * ri[i]
    elif d == 'r_in outer':
        ri[o] = bad * ri[o]
    elif d == 'r_out inner':
        ro[i] = ri[i] * (1. if case['zero'] else 1. - 0.9 * x)
    elif d == 'r_out outer':
        ro[o] = ri[o] * (1. if case['zero'] else 1. - 0.05 * x)
        if ro[o] <= ro[i]:
            return None
    elif d == 'gap':                  # inner pipe fills the outer one
        ri[o] = ro[i] * (1. if case['zero'] else 1. - 0.2 * x)
        if not ri[o] < ro[o]:
            return None
    elif d == 'eccentric' or (d == 'protrude' and coax):
        if d == 'protrude':
            ro[o] = c['r_b'] * (1. + 1e-3 + x)
            b['pos'] = [0., 0.]
        else:
            s = c['r_b'] - ro[o] + (1e-3 + 0.3 * x) * c['r_b']
            b['pos'] = [s * math.cos(a), s * math.sin(a)]
    elif d == 'protrude':
        k = case['i'] % len(c['pos'])
        p = [list(q) for q in c['pos']]
        s = c['r_b'] - c['r_out'] * (1. - 1e-3) + x * c['r_b']
        t = math.atan2(p[k][1], p[k][0])
        p[k] = [s * math.cos(t), s * math.sin(t)]
        b['pos'] = p
    elif d == 'overlap':
        k = case['i'] % len(c['pos'])
        l = (k + 1 + case['i'] // 4) % len(c['pos'])
        if k == l:
            return None
        p = [list(q) for q in c['pos']]
        u = 0. if case['zero'] else c['r_out'] * 1.99 * x
        # stay inside the borehole: towards the centre
        t = math.atan2(-p[l][1], -p[l][0])
        q = [p[l][0] + u * math.cos(t), p[l][1] + u * math.sin(t)]
        if math.hypot(*q) + c['r_out'] > c['r_b']:
            return None
        p[k] = q
        b['pos'] = p
    elif d == 'missing pipe':
        b['pos'] = [list(q) for q in c['pos']][:-1]
    elif d == 'config':
        if c['kind'] not in ('parallel', 'series'):
            return None
        b['kind'] = 'Serie' if case['zero'] else 'paralel'
    return b


@sub('C27', 'pipes', pipe_case(), 1500, 30000)
def check_pipe(case, ctx):
    c = case['pipe']
    try:
        pg.build(c)                       # the valid neighbour is accepted
    except Exception as e:
        fail('valid pipe refused', error=repr(e))
    b = break_pipe(c, case)
    if b is None:
        ctx.set_trivial('defect does not apply')
        return
    ctx.label(c['kind'], case['defect'])
    what = f"{c['kind']} pipe, {case['defect']}"

    def run():
        p = pg.build(b)
        if case['defect'] == 'config':
            p.coefficients_outlet_temperature(0.3, 4000., 2)
        return {k: b[k] for k in ('pos', 'r_in', 'r_out', 'k_s', 'k_g',
                                  'R_fp', 'J')}
    raises(REFUSED if case['defect'] in ('missing pipe', 'config')
           else (ValueError,), run, what)


# ---------------------------------------------------------------- networks
N_DEFECTS = ['long', 'short', 'out of range', 'shared inlet', 'cycle',
             'self', 'pipes', 'no inlet']
Q_DEFECTS = ['flows', 'cps', 'unequal cps', 'signs', 'segments', 'T_b',
             'ratios']


@st.composite
def net_case(draw):
    c = draw(ng.network(5))
    return {'net': c, 'flow': draw(ng.flow(c)),
            'defect': draw(st.sampled_from(N_DEFECTS + 2 * Q_DEFECTS)),
            'i': draw(st.integers(0, 20)), 'j': draw(st.integers(0, 20)),
            'more': draw(st.booleans()),
            'query': draw(st.sampled_from(
                ['get_inlet_temperature', 'get_outlet_temperature',
                 'get_network_outlet_temperature',
                 'get_network_heat_extraction_rate',
                 'get_borehole_heat_extraction_rate'])),
            'k': draw(st.integers(1, 3))}


@sub('C27', 'networks', net_case(), 1500, 30000)
def check_net(case, ctx):
    c, d = case['net'], case['defect']
    n = len(c['pipes'])
    con = list(c['con'])
    bs, pipes = ng.parts(c)
    N = gt.networks.Network(bs, pipes, bore_connectivity=list(con))
    m, cp = ng.flow_args(case['flow'])
    k = case['k']
    i, j = case['i'] % n, case['j'] % n

    def query(N, m, cp, nseg, T_b=20., ratios=None):
        return finite(getattr(N, case['query'])(
            5., T_b, m, cp, nseg, segment_ratios=ratios), None, 'query')

    query(N, m, cp, k)
    query(N, m, cp, [k] * n)
    if d in N_DEFECTS:
        if d == 'long':
            con.append(-1)
        elif d == 'short':
            con = con[:-1]
        elif d == 'out of range':
            con[i] = n + case['j']
        elif d == 'shared inlet':
            used = [x for x in con if x != -1]
            free = [q for q in range(n) if con[q] == -1]
            if not used or not free:
                ctx.set_trivial('defect does not apply')
                return
            con[free[case['i'] % len(free)]] = used[case['j'] % len(used)]
        elif d == 'cycle':
            if i == j:
                ctx.set_trivial('defect does not apply')
                return
            con[i], con[j] = j, i
        elif d == 'self':
            con[i] = i
        elif d == 'no inlet':
            con = [(q + 1) % n for q in range(n)]
        elif d == 'pipes':
            pipes = pipes[:-1]
        ctx.label('connections', d)

        def run():
            X = gt.networks.Network(bs, pipes, bore_connectivity=con)
            if d == 'pipes':
                query(X, m, cp, k)
            return con
        raises(REFUSED if d in ('short', 'pipes') else (ValueError,), run,
               f'network, {d}')
        return
    nin = ng.n_in(c)
    q = dict(m=m, cp=cp, nseg=k)
    if d == 'flows':
        t = nin + 1 if case['more'] or nin <= 2 else nin - 1
        q['m'] = np.full(t, 0.2)
    elif d == 'cps':
        t = nin + 1 if case['more'] or nin <= 2 else nin - 1
        q['cp'] = np.full(t, 4000.)
    elif d == 'unequal cps':
        if nin == 1:
            ctx.set_trivial('defect does not apply')
            return
        q['cp'] = np.full(nin, 4000.)
        q['cp'][case['i'] % nin] = 4000. - 1e-3 * (1 + case['j'])
    elif d == 'signs':
        if nin == 1:
            ctx.set_trivial('defect does not apply')
            return
        q['m'] = np.full(nin, 0.2)
        q['m'][case['i'] % nin] = -0.2
    elif d == 'segments':
        t = n + 1 if case['more'] or n <= 2 else n - 1
        q['nseg'] = [k] * t
    elif d == 'T_b':
        t = n * k + (1 if case['more'] or n * k <= 2 else -1)
        q['T_b'] = np.full(t, 20.)
    elif d == 'ratios':
        t = k + 1 if case['more'] or k == 1 else k - 1
        q['ratios'] = np.full(t, 1. / t)
        # (a uniform wall temperature does not need the discretisation)
        q['T_b'] = 20. + np.arange(n * k)
    ctx.label('query', d)
    raises(REFUSED, lambda: query(N, **q), f"{case['query']}, {d}")
    # the refused call leaves the network usable
    query(N, m, cp, k)


# -------------------------------------------------------------- g-functions
G_DEFECTS = [
    'empty', 'not a borehole', 'string', 'duplicate', 'same borehole twice',
    'boundary condition', 'method', 'alpha', 'times', 'decreasing',
    'segments 0', 'segments list', 'approximate_FLS', 'disp', 'profiles',
    'nFLS 0', 'nFLS 26', 'dtype', 'kind', 'ratios length', 'ratios sum',
    'ratio list', 'disTol', 'tol']
M_DEFECTS = ['no network', 'no flow', 'both flows', 'no cp', 'circuits',
             'circuits 2d']
E_DEFECTS = ['tilted', 'unequal segments', 'unequal ratios', 'clusters',
             'disTol', 'tol']


@st.composite
def g_case(draw):
    what = draw(st.sampled_from(['any', 'any', 'any', 'MIFT', 'equivalent']))
    c = {'what': what, 'alpha': 1e-6,
         'defect': draw(st.sampled_from(
             {'any': G_DEFECTS, 'MIFT': M_DEFECTS,
              'equivalent': E_DEFECTS}[what])),
         'lt': draw(fg.times(1, 3)), 'x': draw(gen.f(0.01, 1.)),
         'i': draw(st.integers(0, 20)), 'more': draw(st.booleans()),
         'n': draw(st.integers(1, 3)), 'k': draw(st.integers(1, 3))}
    if what == 'MIFT':
        c.update(draw(fg.network(3)))
        c['method'] = draw(st.sampled_from(['similarities', 'detailed']))
    else:
        c['field'] = draw(fg.vertical(1, 4))
        c['method'] = 'equivalent' if what == 'equivalent' else draw(
            st.sampled_from(['similarities', 'detailed', 'equivalent']))
        c['bc'] = draw(st.sampled_from(['UHTR', 'UBWT']))
    c['late'] = draw(st.booleans())      # times given to evaluate_g_function
    return c


def gfun(late, obj, alpha, time, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if late:
            G = gt.gfunction.gFunction(obj, alpha, **kw)
            return finite(G.evaluate_g_function(time), None, 'g-function')
        return finite(gt.gfunction.gFunction(obj, alpha, time=time,
                                             **kw).gFunc, None, 'g-function')


@sub('C27', 'gfunctions', g_case(), 700, 12000, shards=4)
def check_g(c, ctx):
    d, x, k = c['defect'], c['x'], c['k']
    late = c['late']
    ctx.label(c['what'], d, c['method'])
    if c['what'] == 'MIFT':
        net = c['net']
        field = fg.net_field(net)
        t = np.exp(np.array(c['lt'])) * fg.scale(field, 1e-6)
        m, cp = ng.flow_args(c['flow'])
        bs, pipes = ng.parts(net)
        N = gt.networks.Network(bs, pipes, bore_connectivity=net['con'])
        nin = ng.n_in(net)
        kw = dict(cp_f=cp, boundary_condition='MIFT', method=c['method'],
                  options={'nSegments': k})
        fl = dict(m_flow_borehole=m) if np.size(m) == nin and np.ndim(m) \
            else dict(m_flow_network=float(np.sum(m)))
        try:
            gfun(late, N, 1e-6, t, **kw, **fl)
        except Exception as e:
            fail('valid network refused', error=repr(e))
        obj = N
        if d == 'no network':
            obj = bs
        elif d == 'no flow':
            fl = {}
        elif d == 'both flows':
            fl = dict(m_flow_borehole=np.full(nin, .2), m_flow_network=.2)
        elif d == 'no cp':
            kw['cp_f'] = None
        else:
            q = nin + 1 if c['more'] or nin == 1 else nin - 1
            fl = dict(m_flow_borehole=np.full(
                q if d == 'circuits' else (2, q), 0.2))
        raises(REFUSED, lambda: gfun(late, obj, 1e-6, t, **kw, **fl),
               f'MIFT, {d}')
        return
    f = c['field']
    n = len(f)
    bs = fg.boreholes(f)
    t = np.exp(np.array(c['lt'])) * fg.scale(f, 1e-6)
    kw = dict(boundary_condition=c['bc'], method=c['method'],
              options={'nSegments': k})
    try:
        gfun(late, bs, 1e-6, t, **kw)
    except Exception as e:
        fail('valid field refused', error=repr(e))
    obj, al, tt, opt = bs, 1e-6, t, kw['options']
    if d == 'empty':
        obj = []
    elif d == 'not a borehole':
        obj = list(bs)
        obj[c['i'] % n] = None if c['more'] else (150., 4., 0.075, 0., 0.)
    elif d == 'string':
        obj = 'boreholes'
    elif d in ('duplicate', 'same borehole twice'):
        b = f[c['i'] % n]
        obj = bs + ([bs[c['i'] % n]] if d != 'duplicate' else
                    fg.boreholes([[b[0], b[1], b[2], b[3] + 0.3 * x * b[2],
                                   b[4], 0., 0.]]))
    elif d == 'boundary condition':
        kw['boundary_condition'] = ['UHTC', 'uniform', 'ubwt ', 3, '',
                                    ['UBWT']][c['i'] % 6]
    elif d == 'method':
        kw['method'] = ['equivalant', '', 'fast', 'similarity'][c['i'] % 4]
    elif d == 'alpha':
        al = ['1e-6', None, [1e-6]][c['i'] % 3]
    elif d == 'times':
        if late:
            ctx.set_trivial('defect does not apply')
            return
        tt = ['1e6', list(t), tuple(t)][c['i'] % 3]
    elif d == 'decreasing':
        if len(t) == 1:
            tt = np.array([2 * t[0], t[0]])
        else:
            q = c['i'] % (len(t) - 1)
            tt = t.copy()
            tt[q], tt[q + 1] = tt[q + 1], tt[q]
    elif d == 'segments 0':
        opt['nSegments'] = [0, -1, [0] * n, [1] * (n - 1) + [0],
                            2.5, 'two'][c['i'] % 6]
    elif d == 'segments list':
        opt['nSegments'] = [k] * (n + (1 if c['more'] or n == 1 else -1))
    elif d in ('approximate_FLS', 'disp', 'profiles'):
        opt[d] = [1, 'yes', None, 0.][c['i'] % 4]
    elif d == 'nFLS 0':
        opt['nFLS'] = [0, -1, 10., '5'][c['i'] % 4]
    elif d == 'nFLS 26':
        opt['nFLS'] = 26 + c['i']
    elif d == 'dtype':
        opt['dtype'] = [int, 'float64', complex, None][c['i'] % 4]
    elif d == 'kind':
        opt['kind'] = [3.5, None, ['linear']][c['i'] % 3]
    elif d == 'ratios length':
        q = k + (1 if c['more'] or k == 1 else -1)
        opt['segment_ratios'] = np.full(q, 1. / q)
    elif d == 'ratios sum':
        opt['segment_ratios'] = np.full(
            k, 1. / k * (1. + (1 if c['more'] else -.9) * (1e-5 + x)))
    elif d == 'ratio list':
        opt['segment_ratios'] = [np.full(k, 1. / k)] * n
        opt['segment_ratios'][c['i'] % n] = np.full(k + 1, 1. / (k + 1))
    elif d in ('disTol', 'tol'):
        if c['method'] == 'detailed':
            ctx.set_trivial('defect does not apply')
            return
        opt[d] = [0., -x, 'small', None][c['i'] % 4]
    elif d == 'tilted':
        b = list(f[c['i'] % n])
        b[5] = 0.05 + 0.3 * x
        ff = list(f)
        ff[c['i'] % n] = b
        obj = fg.boreholes(ff)
    elif d == 'unequal segments':
        if n == 1:
            ctx.set_trivial('defect does not apply')
            return
        opt['nSegments'] = [k] * (n - 1) + [k + 1]
    elif d == 'unequal ratios':
        if n == 1:
            ctx.set_trivial('defect does not apply')
            return
        opt['nSegments'] = 2
        opt['segment_ratios'] = [np.array([.5, .5])] * (n - 1) + [
            np.array([.3, .7])]
    elif d == 'clusters':
        opt['kClusters'] = [-1, -1 - c['i'], 1.5, '1'][c['i'] % 4]
    raises(REFUSED, lambda: gfun(late, obj, al, tt, **kw), f'g-function, {d}')


# ------------------------------------------------- accepted forms of inputs
@st.composite
def form_case(draw):
    c = draw(fg.network(3))
    return {**c, 'lt': draw(fg.times(1, 3)), 'alpha': draw(fg.ALPHA),
            'form': draw(st.sampled_from(['float', 'float64', 'int',
                                          'int64'])),
            'late': draw(st.booleans()),
            'time': draw(st.sampled_from(['float', 'float64', 'array']))}


@sub('C27', 'number types', form_case(), 120, 2400)
def check_forms(c, ctx):
    """Numbers read from arrays (numpy floats), and whole numbers, are as
    valid as floats."""
    net = c['net']
    field = fg.net_field(net)
    m, cp = ng.flow_args(c['flow'])
    F = np.float64 if c['form'].endswith('64') else float
    G_ = {'int': int, 'int64': np.int64}.get(c['form'], F)
    ctx.label(c['form'], c['time'])
    m = F(np.sum(m))
    cp = F(np.max(cp))
    if G_ is not F:
        # whole numbers of the same product
        cp, m = F(math.ceil(cp * max(1., abs(m)))), G_(np.sign(m))
        cp = G_(cp)
    t = np.exp(np.array(c['lt'])) * fg.scale(field, c['alpha'])
    tt = t if c['time'] == 'array' else (
        float if c['time'] == 'float' else np.float64)(t[0])
    bs, pipes = ng.parts(net)
    N = gt.networks.Network(bs, pipes, bore_connectivity=net['con'],
                            **({} if c['late'] else
                               dict(m_flow_network=m, cp_f=cp)))
    more = dict(m_flow_network=m, cp_f=cp, boundary_condition='MIFT') \
        if c['late'] else {}
    try:
        G = gt.gfunction.gFunction(
            N, F(c['alpha']), time=tt, method='similarities',
            options={'nSegments': 2}, **more)
    except Exception as e:
        fail('valid network refused', error=repr(e))
    ref = gt.gfunction.gFunction(
        N, float(c['alpha']), time=np.atleast_1d(tt), method='similarities',
        m_flow_network=float(m), cp_f=float(cp),
        boundary_condition='MIFT', options={'nSegments': 2})
    a, b = finite(G.gFunc), finite(ref.gFunc)
    require(np.allclose(a.reshape(-1), b.reshape(-1), rtol=1e-9),
            'g-function of a network that knows its flow', got=a, expected=b)


# --------------------------------------------------------- remaining inputs
@st.composite
def misc_case(draw):
    return {'kind': draw(st.sampled_from(
        ['segments', 'segments', 'end', 'fluid', 'pipe type', 'borefield',
         'add', 'lengths', 'static boundary'])),
        'n': draw(st.integers(3, 40)), 'x': draw(gen.f(0.01, 0.49)),
        'i': draw(st.integers(0, 20)), 'field': draw(fg.vertical(1, 4))}


@sub('C27', 'others', misc_case(), 400, 8000)
def check_misc(c, ctx):
    d, i, x = c['kind'], c['i'], c['x']
    ctx.label(d)
    U = gt.utilities
    f = c['field']
    if d == 'segments':
        finite(U.segment_ratios(c['n'], end_length_ratio=.02))
        bad = [0, -1, -c['n'], c['n'] + .5, str(c['n'])][i % 5]
        raises(REFUSED, lambda: U.segment_ratios(bad), f'segments: {bad!r}')
    elif d == 'end':
        bad = [0., -x, 0.5, 0.5 + x, 1.][i % 5]
        raises(REFUSED, lambda: U.segment_ratios(
            c['n'], end_length_ratio=bad), f'end length ratio {bad}')
    elif d == 'fluid':
        bad = ['Watr', 'NaCl', 'MPGG', '', 'glycol'][i % 5]
        raises(REFUSED, lambda: gt.media.Fluid(bad, 20.), f'fluid {bad!r}')
    elif d == 'pipe type':
        bad = ['UTUBE', 'coaxial', '', 'double_utube'][i % 4]
        fl = gt.media.Fluid('Water', 0.)
        raises(REFUSED, lambda: gt.networks.Network.from_static_params(
            fg.boreholes(f), bad, [(-0.03, 0.), (0.03, 0.)], 0.013, 0.016,
            2., 1., 0.4, 1e-6, 0.5, 'Water', 20.), f'pipe type {bad!r}')
        del fl
    elif d == 'static boundary':
        bad = ['UBW', 'MIF', '', 'uniform', 'UHTR '][i % 5]
        b = f[0]
        kw = dict(H=b[0], D=b[1], r_b=b[2], x=0., y=0., alpha=1e-6,
                  time=np.array([1e7]), method='similarities',
                  options={'nSegments': 2})
        gt.gfunction.gFunction.from_static_params(
            **kw, boundary_condition=['UBWT', 'UHTR'][i % 2])
        raises(REFUSED, lambda: gt.gfunction.gFunction.from_static_params(
            **kw, boundary_condition=bad), f'boundary condition {bad!r}')
    elif d == 'borefield':
        F = gt.borefield.Borefield.from_boreholes(fg.boreholes(f))
        raises((TypeError,), lambda: F + [1., 'b', None, (1., 2.)][i % 4],
               'bore field plus something else')
        raises((TypeError,), lambda: [1., 'b', None, (1., 2.)][i % 4] + F,
               'something else plus a bore field')
    elif d == 'add':
        b = fg.boreholes(f)[0]
        raises((TypeError,), lambda: b + [1., 'b', None, (1., 2.)][i % 4],
               'borehole plus something else')
    elif d == 'lengths':
        n = len(f) + 1
        raises(REFUSED, lambda: gt.borefield.Borefield(
            np.full(n, 100.), np.full(n + 1, 2.), 0.075, np.arange(n) * 5.,
            np.zeros(n)), 'arrays of different lengths')
