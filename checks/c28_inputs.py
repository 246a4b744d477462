"""C28: calculations leave their inputs alone and hand out their own
arrays."""
import contextlib
import io
import os
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import agggen, fieldgen as fg, gen, netgen as ng, pipegen as pg
from pbt.harness import describe, fail, require, same, sub

describe('C28', (
    'Drawn public calls of every module with lists, arrays (some of them '
    'views), dictionaries and objects as inputs; every input is compared '
    'with a snapshot taken before the call, the inputs and the returned '
    'arrays are then overwritten, and results already obtained and results '
    'asked again must not change. Trivial when no input can be changed.'),
    ['the documented attributes of an object are its state; stored '
     'coefficients and counters of calls are not'])

BORE = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')
PIPE = ('pos', 'r_in', 'r_out', 'k_s', 'k_g', 'R_fp', 'R_ff', 'J', 'nPipes',
        'nInlets', 'nOutlets', 'config')
NET = ('c', 'm_flow_network', 'cp_f')


def freeze(o):
    """Plain, comparable image of an input."""
    if isinstance(o, np.ndarray):
        return ('array', o.dtype.str, o.shape, o.tobytes(), o.flags.writeable)
    if isinstance(o, dict):
        return ('dict', tuple((k, freeze(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v) for v in o))
    if isinstance(o, gt.networks.Network):
        return ('network', freeze(o.b), freeze(o.p),
                tuple(freeze(getattr(o, k)) for k in NET))
    if isinstance(o, gt.borefield.Borefield):
        return ('field', tuple(freeze(np.array(getattr(o, k)))
                               for k in BORE))
    if isinstance(o, gt.boreholes.Borehole):
        return ('borehole', tuple(freeze(getattr(o, k)) for k in BORE))
    if isinstance(o, gt.pipes._BasePipe):
        return ('pipe', freeze(o.b), tuple(
            freeze(getattr(o, k, None)) for k in PIPE))
    if callable(o):
        return ('function', id(o))
    return (type(o).__name__, repr(o))


def ids(o):
    """Identities of the elements of lists (nothing replaced)."""
    if isinstance(o, (list, tuple)):
        return [id(v) for v in o]
    if isinstance(o, dict):
        return {k: id(v) for k, v in o.items()}
    if isinstance(o, gt.networks.Network):
        return [id(v) for v in o.b] + [id(v) for v in o.p]
    return None


def scribble(o):
    """Overwrite every array reachable through plain containers."""
    n = 0
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size:
            o[...] = o[::-1] * 0.5 if o.dtype.kind == 'f' else 0
            if o.dtype.kind == 'f':
                o += 17.
            n += 1
    elif isinstance(o, dict):
        n += sum(scribble(v) for v in o.values())
    elif isinstance(o, (list, tuple)):
        n += sum(scribble(v) for v in o)
    return n


def arrays(out):
    if isinstance(out, np.ndarray):
        return [out]
    if isinstance(out, (list, tuple)):
        return [a for v in out for a in arrays(v)]
    return []


def values(out):
    if isinstance(out, (list, tuple)):
        return [x for v in out for x in values(v)]
    if isinstance(out, (gt.boreholes.Borehole, gt.borefield.Borefield)):
        return [np.array(getattr(out, k), float) for k in BORE]
    return [np.array(out)]


def examine(call, inputs, ctx, what, again=True):
    """`call(**inputs)` must leave inputs, and be independent of what is done
    to inputs and results afterwards."""
    before = {k: freeze(v) for k, v in inputs.items()}
    who = {k: ids(v) for k, v in inputs.items()}

    def unchanged(when):
        for k, v in inputs.items():
            if freeze(v) != before[k]:
                fail(f'{what}: input {k} changed {when}', before=before[k],
                     after=freeze(v))
            require(ids(v) == who[k], f'{what}: elements of {k} replaced '
                                      f'{when}')
    out = call(**inputs)
    unchanged('by the call')
    first = [v.copy() for v in values(out)]
    if again:
        if sum(scribble(a) for a in arrays(out)):
            ctx.label('results overwritten')
        unchanged('with the result')
        out2 = call(**inputs)
        unchanged('by the second call')
        for a, b in zip(values(out2), first):
            same(a, b, f'{what}: second answer, after the first was '
                       'overwritten')
        out = out2
    n = sum(scribble(v) for v in inputs.values())
    if n:
        ctx.label('inputs overwritten')
        for a, b in zip(values(out), first):
            same(a, b, f'{what}: answer after the inputs were overwritten')
    return out


def view(x, how):
    """Array, or a strided view of a larger one."""
    x = np.array(x, float)
    if how == 'view':
        w = np.full(x.shape + (2,), -7.)
        w[..., 0] = x
        return w[..., 0]
    return x


HOW = st.sampled_from(['array', 'array', 'view'])


# ------------------------------------------------------------ line sources
@st.composite
def fls_case(draw):
    inc = draw(st.booleans())
    f = draw(fg.inclined(2, 4) if inc else fg.vertical(2, 4))
    return {'field': f, 'alpha': 1e-6, 'lt': draw(fg.times(1, 4, lo=-4.)),
            'how': draw(HOW), 'one': draw(st.booleans()),
            'fn': draw(st.sampled_from(
                ['fls', 'fls', 'fls approx', 'approximation', 'vectorized',
                 'field', 'segments', 'distance', 'unique', 'eq fls'])),
            'as': draw(st.sampled_from(['list', 'field'])),
            'k': draw(st.integers(1, 3))}


@sub('C28', 'line sources', fls_case(), 240, 4800, shards=2)
def check_fls(c, ctx):
    f = c['field']
    if not fg.apart(f, 1.):
        ctx.set_trivial('crossing')
        return
    ht = gt.heat_transfer
    B = fg.boreholes(f)
    vert = fg.is_vertical(f)
    t = view(np.exp(np.array(c['lt'])) * fg.scale(f, c['alpha']), c['how'])
    fn = c['fn']
    ctx.label(fn, 'vertical' if vert else 'inclined')
    a = B[:1] if c['one'] else B[:2]
    b = B[1:]
    if c['as'] == 'field':
        a = gt.borefield.Borefield.from_boreholes(a)
    if fn in ('fls', 'fls approx'):
        examine(lambda time, b1, b2: ht.finite_line_source(
            time, c['alpha'], b1, b2, approximation=fn != 'fls', M=11),
            dict(time=t, b1=a, b2=b), ctx, 'finite_line_source')
    elif fn == 'approximation':
        b1, b2 = B[0], B[1]
        if vert:
            examine(lambda time, dis, H: ht.finite_line_source_approximation(
                time, c['alpha'], dis, H[0], b1.D, H[1], b2.D),
                dict(time=t, dis=view([[3., 5.], [6., 2.]], c['how'])
                     if len(t) == 1 else 4., H=[b1.H, b2.H]),
                ctx, 'finite_line_source_approximation')
        else:
            args = [view([getattr(q, k)], c['how']) for q in (b1, b2)
                    for k in ('r_b', 'x', 'y', 'H', 'D', 'tilt',
                              'orientation')]
            examine(lambda time, args:
                    ht.finite_line_source_inclined_approximation(
                        time, c['alpha'], *[v[0] for v in args], M=11),
                    dict(time=t, args=args), ctx,
                    'finite_line_source_inclined_approximation')
    elif fn == 'vectorized':
        dis = view(np.linspace(2., 9., 3), c['how'])
        H1, D1 = view([f[0][0]] * 3, c['how']), view([f[0][1]] * 3, c['how'])
        H2, D2 = view([f[1][0]] * 3, c['how']), view([f[1][1]] * 3, c['how'])
        examine(lambda time, dis, H1, D1, H2, D2:
                ht.finite_line_source_vectorized(
                    time, c['alpha'], dis, H1, D1, H2, D2),
                dict(time=t, dis=dis, H1=H1, D1=D1, H2=H2, D2=D2), ctx,
                'finite_line_source_vectorized')
    elif fn == 'eq fls':
        dis = view([[2., 4., 7.]], c['how'])
        w = view([[1.], [2.], [1.]], c['how'])
        examine(lambda time, dis, w, H, D:
                ht.finite_line_source_equivalent_boreholes_vectorized(
                    time, c['alpha'], dis, w, H[:1, None], D[:1, None],
                    H[1:, None], D[1:, None], np.array([[4.]])),
                dict(time=t, dis=dis, w=w,
                     H=view([100., 80.], c['how']),
                     D=view([2., 3.], c['how'])), ctx,
                'finite_line_source_equivalent_boreholes_vectorized')
    elif fn == 'segments':
        r = view(np.linspace(1., 2., c['k'] + 1)
                 / np.linspace(1., 2., c['k'] + 1).sum(), c['how'])
        examine(lambda b, r: b[0].segments(len(r), segment_ratios=r),
                dict(b=B, r=r), ctx, 'segments')
    elif fn == 'field':
        # fields are built from any mixture of arrays and numbers; arrays and
        # objects they hand out are their own
        F = gt.borefield.Borefield.from_boreholes(B)
        examine(lambda F, B: [F + B[0], B[0] + F, F[0], F[-1:],
                              gt.borefield.Borefield.from_boreholes(B)],
                dict(F=F, B=B), ctx, 'bore field operations')
        L = F.to_boreholes()
        before = freeze(F)
        for q in L:
            q.H, q.x, q.tilt = 1., -5., 1.
        G = gt.borefield.Borefield.from_boreholes(B)
        frozen = freeze(G)
        for q in B:
            q.H, q.x, q.tilt = 1., -5., 1.
        require(freeze(F) == before and freeze(G) == frozen,
                'boreholes taken from or given to a field are its own')
    elif fn == 'distance':
        examine(lambda B: [p.distance(q) for p in B for q in B] +
                [p.position() for p in B], dict(B=B), ctx, 'distance')
    else:
        B2 = list(B) + [gt.boreholes.Borehole(*f[0][:5])]
        fn_ = gt.boreholes.remove_duplicates if c['one'] else \
            gt.boreholes.find_duplicates
        with contextlib.redirect_stdout(io.StringIO()):
            examine(lambda B: [x for x in fn_(B)], dict(B=B2), ctx,
                    'duplicates')


# ------------------------------------------------------------------- pipes
@st.composite
def pipe_case(draw):
    c = draw(pg.pipe())
    return {'pipe': c, 'flow': draw(pg.flow(c, ntu=(0.05, 2.))),
            'r': draw(pg.ratios(1, 4)), 'how': draw(HOW),
            'fn': draw(st.sampled_from(
                ['outlet', 'inlet', 'fluid', 'Qb', 'Qf', 'Qt', 'c_outlet',
                 'c_inlet', 'c_temp', 'c_Qb', 'c_Qf', 'thermal_resistances',
                 'multipole', 'build', 'update']))}


@sub('C28', 'pipes', pipe_case(), 700, 14000, shards=2)
def check_pipe(case, ctx):
    c, how, fn = case['pipe'], case['how'], case['fn']
    ctx.label(fn, c['kind'])
    P = gt.pipes
    coax = c['kind'] == 'coaxial'
    if fn == 'build' or fn == 'update':
        b = pg.borehole(c)
        if coax:
            inp = dict(pos=tuple(c['pos']), r_in=view(c['r_in'], how),
                       r_out=view(c['r_out'], how), b=b)
            examine(lambda pos, r_in, r_out, b: list(P.Coaxial(
                pos, r_in, r_out, b, c['k_s'], c['k_g'], c['R_ff'],
                c['R_fp'], J=c['J']).coefficients_outlet_temperature(
                    0.3, 4000., 2)), inp, ctx, 'Coaxial')
        else:
            examine(lambda pos, b: list(P.SingleUTube(
                pos, c['r_in'], c['r_out'], b, c['k_s'], c['k_g'],
                c['R_fp'], J=c['J']).coefficients_outlet_temperature(
                    0.3, 4000., 2)) if c['kind'] == 'single' else
                list(P.MultipleUTube(
                    pos, c['r_in'], c['r_out'], b, c['k_s'], c['k_g'],
                    c['R_fp'], c['n'], J=c['J'])
                    .coefficients_outlet_temperature(0.3, 4000., 2)),
                dict(pos=[tuple(p) for p in c['pos']], b=b), ctx, 'U-tubes')
        return
    if fn in ('thermal_resistances', 'multipole'):
        if coax:
            pos, ro = [tuple(c['pos'])], [max(c['r_out'])]
        else:
            pos, ro = [tuple(p) for p in c['pos']], \
                [c['r_out']] * len(c['pos'])
        n = len(pos)
        R = view(np.full(n, c['R_fp']), how)
        if fn == 'thermal_resistances':
            examine(lambda pos, ro, R: list(P.thermal_resistances(
                pos, ro, c['r_b'], c['k_s'], c['k_g'], R, J=c['J'])),
                dict(pos=pos, ro=view(ro, how), R=R), ctx, fn)
        else:
            q = view(np.linspace(1., 2., n), how)
            x = view([0., c['r_b']], how)
            examine(lambda pos, ro, R, q, x: [P.multipole(
                pos, ro, c['r_b'], c['k_s'], c['k_g'], R, 0., q, c['J'],
                x_T=x, y_T=x * 0.)[i] for i in (0, 1)],
                dict(pos=pos, ro=view(ro, how), R=R, q=q, x=x), ctx, fn)
        return
    p = pg.build(c)
    k = pg.n_in(c)
    m = view(case['flow']['m'], how)
    cp = case['flow']['cp']
    one = c['kind'] != 'independent'
    if one:
        m = float(m[0])
        T_in = 20.
    else:
        cp = view([cp] * k, how)
        T_in = view(np.linspace(5., 20., k), how)
    n, r = case['r'][0], pg.rat(case['r'][1])
    T_b = view(np.linspace(9., 14., n), how)
    r = None if r is None else view(r, how)
    z = view(np.array([0., 0.3, 0.8, 1.]) * c['H'], how)
    inp = dict(pipe=p, T_in=T_in, T_b=T_b, m=m, cp=cp, r=r)
    if fn == 'inlet':
        inp['T_in'] = 500. if one else view(np.linspace(-300., 500., k),
                                               how)
    calls = {
        'outlet': lambda pipe, T_in, T_b, m, cp, r:
            pipe.get_outlet_temperature(T_in, T_b, m, cp, segment_ratios=r),
        'inlet': lambda pipe, T_in, T_b, m, cp, r:
            pipe.get_inlet_temperature(T_in, T_b, m, cp, segment_ratios=r),
        'Qb': lambda pipe, T_in, T_b, m, cp, r:
            pipe.get_borehole_heat_extraction_rate(
                T_in, T_b, m, cp, segment_ratios=r),
        'Qf': lambda pipe, T_in, T_b, m, cp, r:
            pipe.get_fluid_heat_extraction_rate(
                T_in, T_b, m, cp, segment_ratios=r),
        'Qt': lambda pipe, T_in, T_b, m, cp, r:
            pipe.get_total_heat_extraction_rate(
                T_in, T_b, m, cp, segment_ratios=r),
        'fluid': lambda pipe, T_in, T_b, m, cp, r, z:
            pipe.get_temperature(z, T_in, T_b, m, cp, segment_ratios=r),
        'c_temp': lambda pipe, m, cp, r, z: list(
            pipe.coefficients_temperature(z, m, cp, n, segment_ratios=r)),
        'c_outlet': lambda pipe, m, cp, r: list(
            pipe.coefficients_outlet_temperature(
                m, cp, n, segment_ratios=r)),
        'c_inlet': lambda pipe, m, cp, r: list(
            pipe.coefficients_inlet_temperature(m, cp, n, segment_ratios=r)),
        'c_Qb': lambda pipe, m, cp, r: list(
            pipe.coefficients_borehole_heat_extraction_rate(
                m, cp, n, segment_ratios=r)),
        'c_Qf': lambda pipe, m, cp, r: list(
            pipe.coefficients_fluid_heat_extraction_rate(
                m, cp, n, segment_ratios=r))}
    if fn.startswith('c_'):
        inp = {q: inp[q] for q in ('pipe', 'm', 'cp', 'r')}
    if fn in ('fluid', 'c_temp'):
        inp['z'] = z
    examine(calls[fn], inp, ctx, fn)


# ---------------------------------------------------------------- networks
@st.composite
def net_case(draw):
    c = draw(ng.network(4))
    return {'net': c, 'flow': draw(ng.flow(c)), 'seg': draw(ng.segments(c)),
            'how': draw(HOW), 'fn': draw(st.sampled_from(
                ['inlet', 'outlet', 'Qb', 'Qf', 'net_in', 'net_out', 'net_Q',
                 'c_inlet', 'c_outlet', 'c_Qb', 'c_Qf', 'c_net_in',
                 'c_net_out', 'c_net_Q', 'build', 'resistance']))}


@sub('C28', 'networks', net_case(), 600, 12000, shards=2)
def check_net(case, ctx):
    c, how, fn = case['net'], case['how'], case['fn']
    ctx.label(fn)
    bs, pipes = ng.parts(c)
    m, cp = ng.flow_args(case['flow'])
    if isinstance(m, np.ndarray):
        m = view(m, how)
    n, kw = ng.seg_args(case['seg'])
    r = kw.get('segment_ratios')
    nt = sum(ng.counts(c, case['seg']))
    T_b = view(np.linspace(9., 14., nt), how)
    if fn == 'build':
        examine(lambda bs, pipes, con, m, n: [
            gt.networks.Network(
                bs, pipes, bore_connectivity=con, m_flow_network=m,
                cp_f=float(cp), nSegments=n)
            .get_network_outlet_temperature(5., T_b, m, cp, n, **kw)],
            dict(bs=bs, pipes=pipes, con=list(c['con']), m=m, n=n), ctx,
            'Network')
        return
    N = gt.networks.Network(bs, pipes, bore_connectivity=list(c['con']))
    name = {'inlet': 'get_inlet_temperature',
            'outlet': 'get_outlet_temperature',
            'Qb': 'get_borehole_heat_extraction_rate',
            'Qf': 'get_fluid_heat_extraction_rate',
            'net_in': 'get_network_inlet_temperature',
            'net_out': 'get_network_outlet_temperature',
            'net_Q': 'get_network_heat_extraction_rate',
            'c_inlet': 'coefficients_inlet_temperature',
            'c_outlet': 'coefficients_outlet_temperature',
            'c_Qb': 'coefficients_borehole_heat_extraction_rate',
            'c_Qf': 'coefficients_fluid_heat_extraction_rate',
            'c_net_in': 'coefficients_network_inlet_temperature',
            'c_net_out': 'coefficients_network_outlet_temperature',
            'c_net_Q': 'coefficients_network_heat_extraction_rate'}
    if fn == 'resistance':
        examine(lambda N, m: [gt.networks.network_thermal_resistance(
            N, m, cp)], dict(N=N, m=m), ctx, fn)
    elif fn.startswith('c_'):
        examine(lambda N, m, n, r: list(getattr(N, name[fn])(
            m, cp, n, segment_ratios=r)), dict(N=N, m=m, n=n, r=r), ctx, fn)
    else:
        examine(lambda N, T_b, m, n, r: [getattr(N, name[fn])(
            5., T_b, m, cp, n, segment_ratios=r)],
            dict(N=N, T_b=T_b, m=m, n=n, r=r), ctx, fn)


# -------------------------------------------------------------- g-functions
EXTRA = {'disTol': 0.005, 'tol': 1e-7, 'kClusters': 2, 'kind': 'linear',
         'dtype': np.double, 'disp': False, 'mQuad': 11,
         'linear_threshold': 3000.}


@st.composite
def g_case(draw):
    what = draw(st.sampled_from(['list', 'list', 'field', 'network']))
    c = {'what': what, 'lt': draw(fg.times(1, 4)), 'how': draw(HOW),
         'late': draw(st.booleans()),
         'method': draw(st.sampled_from(['similarities', 'detailed',
                                         'equivalent'])),
         'profiles': draw(st.booleans())}
    if what == 'network':
        c.update(draw(fg.network(3, parallel=c['method'] == 'equivalent'
                                 and draw(st.booleans()))))
        for p in c['net']['pipes']:
            p['tilt'] = 0.
        n = len(c['net']['pipes'])
        c['vary'] = draw(st.booleans())
    else:
        c['field'] = draw(fg.vertical(1, 4))
        n = len(c['field'])
        c['bc'] = draw(st.sampled_from(['UHTR', 'UBWT', None]))
    c['opt'] = draw(fg.options(n, 3, same=c['method'] == 'equivalent'))
    c['extra'] = draw(st.lists(st.sampled_from(
        ['disTol', 'tol', 'kClusters', 'kind', 'dtype', 'disp', 'mQuad',
         'linear_threshold']), unique=True, max_size=8))
    return c


@sub('C28', 'gfunctions', g_case(), 240, 4800, shards=4)
def check_g(c, ctx):
    ctx.label(c['what'], c['method'])
    field = fg.net_field(c['net']) if c['what'] == 'network' else c['field']
    t = view(np.exp(np.array(c['lt'])) * fg.scale(field, 1e-6), c['how'])
    opt = fg.opt_args(c['opt'])
    opt['profiles'] = c['profiles']
    opt.update({k: EXTRA[k] for k in c['extra']})
    kw = dict(method=c['method'])
    inp = dict(time=t, options=opt)
    if c['what'] == 'network':
        m, cp = ng.flow_args(c['flow'])
        bs, pipes = ng.parts(c['net'])
        N = gt.networks.Network(bs, pipes,
                                bore_connectivity=list(c['net']['con']))
        inp['obj'] = N
        kw['cp_f'] = float(np.max(cp))
        if isinstance(m, np.ndarray) and c['method'] != 'equivalent':
            inp['m'] = view([m, -1.1 * m] if c['vary'] else m, c['how'])
            key = 'm_flow_borehole'
        else:
            s = float(np.sum(m))
            inp['m'] = view([s, -1.1 * s], c['how']) if c['vary'] else s
            key = 'm_flow_network'
    else:
        inp['m'], key = None, 'm_flow_network'
        kw['boundary_condition'] = c['bc']
        B = fg.boreholes(field)
        inp['obj'] = B if c['what'] == 'list' else \
            gt.borefield.Borefield.from_boreholes(B)

    def call(obj, time, m, options):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            args = dict(kw, options=options)
            if m is not None:
                args[key] = m
            if c['late']:
                G = gt.gfunction.gFunction(obj, 1e-6, **args)
                return np.array(G.evaluate_g_function(time))
            G = gt.gfunction.gFunction(obj, 1e-6, time=time, **args)
            if c['profiles'] and not (m is not None and np.ndim(m)):
                # the figures use the stored solution
                from matplotlib import pyplot as plt
                G.visualize_heat_extraction_rates()
                G.visualize_temperatures()
                plt.close('all')
            return np.array(G.gFunc)
    examine(call, inp, ctx, 'g-function')
    # the default options are not touched either
    if c['what'] != 'network' and len(field) <= 2:
        f2 = [[100., 2., 0.075, 5. * i, 0., 0., 0.] for i in range(2)]
        a = gt.gfunction.gFunction(fg.boreholes(f2), 1e-6,
                                   time=np.array([1e7]), method='similarities')
        b = gt.gfunction.gFunction(fg.boreholes(f2), 1e-6,
                                   time=np.array([1e7]), method='similarities',
                                   options={})
        same(a.gFunc, b.gFunc, 'default options')


# --------------------------------------------------------- load aggregation
@st.composite
def agg_case(draw):
    s = draw(agggen.scheme(nmax=30))
    return {'s': s, 'g': draw(agggen.response(s['ns'])),
            'q': draw(st.lists(gen.f(-5., 5.), min_size=s['nt'] * s['ns'],
                               max_size=s['nt'] * s['ns'])),
            'how': draw(HOW)}


@sub('C28', 'load aggregation', agg_case(), 300, 6000)
def check_agg(c, ctx):
    """One buffer for all loads, returned temperatures overwritten."""
    s = c['s']
    q = np.array(c['q']).reshape(s['nt'], s['ns'])
    out = []
    for reuse in (False, True):
        A = agggen.build(s)
        times = A.get_times_for_simulation()
        g = agggen.g_at(c['g'], np.asarray(times) / s['dt'])
        if s['ns'] == 1:
            g = g[0, 0]
        g = view(g, c['how'])
        before = freeze(g)
        if reuse:
            times[...] = -1.
        A.initialize(g)
        buf = np.zeros(s['ns'])
        res = []
        for i in range(s['nt']):
            A.next_time_step((i + 1) * s['dt'])
            if reuse:
                buf[...] = q[i]
                A.set_current_load(buf)
                require(np.array_equal(buf, q[i]), 'loads changed')
                T = A.temporal_superposition()
                res.append(np.array(T, float).copy())
                if isinstance(T, np.ndarray):
                    T[...] = 99.
                buf[...] = -77.
            else:
                A.set_current_load(q[i].copy())
                res.append(np.array(A.temporal_superposition(), float))
        require(freeze(g) == before, 'response factors changed')
        out.append(np.array(res))
    ctx.label(s['kind'])
    if s['nt'] == 1:
        ctx.set_trivial('one step')
    same(out[1], out[0], 'temperatures with a reused buffer')


# ---------------------------------------------------------------- utilities
@st.composite
def util_case(draw):
    return {'fn': draw(st.sampled_from(
        ['erfint', 'exp1', 'segment_ratios', 'times', 'layout', 'file',
         'fluid'])),
        'x': draw(st.lists(gen.f(-5., 5.), min_size=1, max_size=6)),
        'n': draw(st.integers(1, 20)), 'how': draw(HOW)}


@sub('C28', 'utilities', util_case(), 150, 3000)
def check_util(c, ctx):
    fn, U = c['fn'], gt.utilities
    ctx.label(fn)
    x = view(c['x'], c['how'])
    if fn == 'erfint':
        examine(lambda x: U.erfint(x), dict(x=x), ctx, fn)
    elif fn == 'exp1':
        examine(lambda x: U.exp1(x), dict(x=np.abs(x) + 0.01), ctx, fn)
    elif fn == 'segment_ratios':
        examine(lambda n: U.segment_ratios(n), dict(n=c['n']), ctx, fn)
    elif fn == 'times':
        examine(lambda n: [np.asarray(U.time_geometric(3600., 1e7, n + 1)),
                           np.asarray(U.time_ClaessonJaved(3600., 1e7)),
                           np.asarray(U.time_MarcottePasquier(3600., 1e7))],
                dict(n=c['n']), ctx, fn)
    elif fn == 'layout':
        o = view([3., 4.], c['how'])
        examine(lambda o: gt.borefield.Borefield.rectangle_field(
            2, 1 + c['n'] % 3, 5., 6., 100., 2., 0.075, origin=o),
            dict(o=tuple(o)), ctx, fn)
    elif fn == 'file':
        import tempfile
        F = gt.borefield.Borefield.rectangle_field(
            2, 3, 5., 6., 100., 2., 0.075)
        with tempfile.TemporaryDirectory() as d:
            examine(lambda F: (F.to_file(os.path.join(d, 'f.txt')),
                               gt.borefield.Borefield.from_file(
                                   os.path.join(d, 'f.txt')))[1],
                    dict(F=F), ctx, fn)
    else:
        F = gt.media.Fluid('MPG', 20.)
        before = {k: v for k, v in vars(F).items()}
        d = {}
        for _ in range(2):
            F.append_to_dict(d)
        require(vars(F) == before, 'append_to_dict changed the fluid')

