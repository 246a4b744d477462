"""C29: figures show the stored solution."""
import math
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fieldgen as fg, gen, netgen as ng, pipegen as pg
from pbt.harness import close, describe, finite, require, sub

describe('C29', (
    'Drawn solutions with stored profiles for every method, boundary '
    'condition, discretisation and number of flows; every figure is drawn '
    'for drawn selections of boreholes, flows and times, and the curves and '
    'markers are read back from it: each selected borehole has one curve of '
    'the colour of its marker, which must be the stored solution of that '
    'borehole. Fields and pipes are read back in the same way. Trivial when '
    'there is one borehole, one segment and one time.'),
    ['the depth of profiles is checked for vertical boreholes',
     'stored heat rates and temperatures are those judged by C11'])


def plt():
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot
    return pyplot


class Figures:
    """All figures opened by a call."""

    def __enter__(self):
        plt().close('all')
        return self

    def __exit__(self, *exc):
        plt().close('all')

    def all(self):
        p = plt()
        return [p.figure(k) for k in sorted(p.get_fignums())]


def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(round(x, 6) for x in to_rgba(c))


def curves(ax):
    """[(x, y, colour, has markers)] of an axis."""
    out = []
    for l in ax.lines:
        x, y = np.atleast_1d(l.get_xdata()), np.atleast_1d(l.get_ydata())
        out.append((np.asarray(x, float).ravel(), np.asarray(y, float).ravel(),
                    rgba(l.get_color()),
                    l.get_marker() not in (None, 'None', '', ' ')))
    return out


def read(fig, heads, tilts, selected, what, show_tilt):
    """Curve of each selected borehole, through the colours of the map."""
    require(len(fig.axes) == 2, f'{what}: two axes')
    m, p = (curves(a) for a in fig.axes)
    black = rgba('k')
    color = {}
    for i, (x, y) in enumerate(heads):
        here = [c for c in m if c[3] and len(c[0]) == 1
                and abs(c[0][0] - x) < 1e-9 and abs(c[1][0] - y) < 1e-9]
        require(len(here) == 1, f'{what}: one marker for borehole {i}',
                got=len(here))
        require((here[0][2] != black) == (i in selected),
                f'{what}: borehole {i} is coloured when selected')
        color[i] = here[0][2]
        ends = [c for c in m if not c[3] and len(c[0]) == 2
                and abs(c[0][0] - x) < 1e-9 and abs(c[1][0] - y) < 1e-9
                and abs(c[0][1] - tilts[i][0]) < 1e-6
                and abs(c[1][1] - tilts[i][1]) < 1e-6]
        require((len(ends) >= 1) == bool(show_tilt),
                f'{what}: trace of borehole {i} on the map', got=len(ends))
        if ends:
            require(ends[0][2] == color[i], f'{what}: colour of the trace')
    require(len(p) == len(selected), f'{what}: one curve for each selected '
            'borehole', got=len(p), expected=len(selected))
    out = {}
    for i in selected:
        mine = [c for c in p if c[2] == color[i]]
        require(len(mine) == 1, f'{what}: one curve of the colour of '
                f'borehole {i}', got=len(mine))
        out[i] = mine[0][:2]
    return out


@st.composite
def case(draw):
    what = draw(st.sampled_from(['UHTR', 'UBWT', 'MIFT', 'MIFT', 'MIFT',
                                 'network UHTR', 'network UBWT']))
    c = {'bc': what.split()[-1], 'alpha': 1e-6, 'lt': draw(fg.times(1, 4, lo=-7.)),
         'method': draw(st.sampled_from(['similarities', 'detailed',
                                         'equivalent']))}
    eq = c['method'] == 'equivalent'
    if what not in ('UHTR', 'UBWT'):
        c.update(draw(fg.network(4, parallel=eq)))
        for p in c['net']['pipes']:
            p['tilt'] = 0.
        n = len(c['net']['pipes'])
        c['more'] = draw(st.sampled_from([[], [2.], [-0.7], [2., -0.7]]))
    else:
        c['field'] = draw(fg.vertical(1, 5)) if eq or draw(
            st.integers(0, 3)) else draw(fg.inclined(1, 3))
        n = len(c['field'])
    c['opt'] = dict(draw(fg.options(n, 3, same=eq)))
    c['sel'] = draw(st.one_of(st.none(), st.lists(
        st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    c['when'] = draw(st.one_of(st.none(), gen.f(0., 1.)))
    c['tilt'] = draw(st.booleans())
    c['which'] = draw(st.booleans())
    c['fig'] = draw(st.sampled_from(['g', 'Q', 'Qz', 'T', 'Tz']))
    return c


@sub('C29', 'solutions', case(), 320, 5000, shards=8)
def check_solution(c, ctx):
    bc, al = c['bc'], c['alpha']
    o = fg.opt_args(c['opt'])
    o['profiles'] = True
    net = 'net' in c
    field = fg.net_field(c['net']) if net else c['field']
    if not net and not fg.apart(field, 1.):
        ctx.set_trivial('crossing')
        return
    t = np.exp(np.array(c['lt'])) * fg.scale(field, al)
    kw = dict(method=c['method'], boundary_condition=bc, options=o)
    nm = 0
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if net:
            m, cp = ng.flow_args(c['flow'])
            if c['method'] == 'equivalent':
                m = float(np.sum(m))
            kw['cp_f'] = float(np.max(cp))
            nm = len(c['more']) + 1 if c['more'] else 0
            if nm:
                m = np.array([m] + [x * m for x in c['more']])
            kw['m_flow_borehole' if np.ndim(m) == 2 or (
                not nm and np.ndim(m)) else 'm_flow_network'] = m
            if bc != 'MIFT':
                # there is one solution, whatever the flows
                ctx.label('network of another condition')
                nm = 0
            bs, pipes = ng.parts(c['net'])
            obj = gt.networks.Network(
                bs, pipes, bore_connectivity=list(c['net']['con']))
        else:
            obj = fg.boreholes(field)
        G = gt.gfunction.gFunction(obj, al, time=t, **kw)
    nt = len(t)
    S = G.solver
    B = S.boreholes                      # equivalent ones, if any
    nb = len(B)
    eq = c['method'] == 'equivalent' and G.method == 'equivalent'
    counts = fg.seg_counts(c['opt'], nb)
    ratios = fg.seg_ratios(c['opt'], nb)
    if nb == 1 and nt == 1 and counts[0] == 1:
        ctx.set_trivial('one of everything')
    ctx.label(bc, c['method'], c['fig'], f'{nm} flows')
    # stored solution, (flows, segments, times)
    Q, T = np.asarray(S.Q_b, float), np.asarray(S.T_b, float)
    ns = sum(counts)
    if bc == 'UHTR':
        Q = np.full((ns, nt), float(Q))
    if bc == 'UBWT':
        T = np.tile(T.reshape(1, nt), (ns, 1))
    Q, T = (x.reshape(nm or 1, ns, nt) for x in (Q, T))
    g = finite(G.gFunc).reshape((nm or 1, nm or 1, nt))
    ts = fg.scale(field, al)
    lt = np.log(t / ts)

    def near(a, b, what):
        # (single-precision interpolation is not used anywhere here)
        close(a, b, rtol=1e-9, atol=1e-9, what=what)

    if c['fig'] == 'g':
        with Figures() as F:
            pairs = [(i, j) for i in range(nm) for j in range(nm)]
            if c['which'] and nm:
                pairs = pairs[::-1][:2]
                fig = G.visualize_g_function(which=pairs)
            else:
                fig = G.visualize_g_function()
            require(len(F.all()) == 1, 'one figure')
            ls = curves(fig.axes[0])
            require(len(ls) == max(1, len(pairs)), 'one curve per g-function',
                    got=len(ls))
            if not nm:
                near(ls[0][0], lt, 'time axis')
                near(ls[0][1], g[0, 0], 'g-function')
            else:
                lab = {l.get_label().replace(' ', ''): k
                       for k, l in enumerate(fig.axes[0].lines)}
                for i, j in pairs:
                    k = lab.get(f'$g_{{{i}{j}}}$')
                    require(k is not None, f'curve of g_{i}{j} is labelled',
                            labels=list(lab))
                    near(ls[k][0], lt, 'time axis')
                    near(ls[k][1], g[i, j], f'g-function {i}{j}')
        return
    sel = None if c['sel'] is None else sorted(
        {i % nb for i in c['sel']}, key=c['sel'].index
        if nb == len(field) else None)
    i0 = np.cumsum([0] + counts)
    heads, ends, group = [], [], False
    for i, b in enumerate(B):
        # an equivalent borehole is drawn at each position of its group
        if np.size(b.x) > 1:
            group = True
            continue
        x, y, tilt, az = (float(np.ravel(v)[0]) for v in (
            b.x, b.y, b.tilt, b.orientation))
        heads.append((x, y))
        ends.append((x + b.H * math.sin(tilt) * math.cos(az),
                     y + b.H * math.sin(tilt) * math.sin(az)))
    when = None
    k = {'iBoreholes': sel, 'showTilt': c['tilt']}
    if c['fig'] in ('Qz', 'Tz') and c['when'] is not None and nt > 1:
        when = float(t[0] + c['when'] * (t[-1] - t[0]))
        k['time'] = when
    flows = list(range(nm or 1))
    if c['which'] and nm:
        flows = flows[::-1][:2]
        k['which'] = list(flows)
    name = {'Q': 'visualize_heat_extraction_rates',
            'T': 'visualize_temperatures',
            'Qz': 'visualize_heat_extraction_rate_profiles',
            'Tz': 'visualize_temperature_profiles'}[c['fig']]
    with Figures() as F:
        fig = getattr(G, name)(**k)
        figs = F.all()
        require(len(figs) == len(flows), f'{name}: one figure per flow',
                got=len(figs))
        require(fig is figs[-1], f'{name}: returns the last figure')
        if group:
            # the map of groups is not read
            ctx.label('groups')
            heads = None
        for f, fig in zip(flows, figs):
            idx = list(range(nb)) if sel is None else sel
            if heads is None:
                order = sorted(idx)
                p = curves(fig.axes[1])
                require(len(p) == len(idx), f'{name}: curves', got=len(p))
                data = {i: q[:2] for i, q in zip(order, p)}
            else:
                data = read(fig, heads, ends, idx, name, c['tilt'])
            for i in idx:
                s = slice(i0[i], i0[i + 1])
                V = (Q if c['fig'][0] == 'Q' else T)[f, s]
                x, y = data[i]
                b = B[i]
                if len(c['fig']) == 1:
                    near(x, lt, f'{name}: time axis')
                    near(y, ratios[i] @ V, f'{name}: borehole {i}')
                    continue
                v = V[:, -1] if when is None else np.array(
                    [np.interp(when, t, w) for w in V])
                r = ratios[i]
                uniform = bc == {'Q': 'UHTR', 'T': 'UBWT'}[c['fig'][0]]
                if uniform or len(r) == 1:
                    v, z = np.array([v[0], v[0]]), np.array([0., b.H])
                else:
                    z = b.H * (np.cumsum(r) - 0.5 * r)
                near(x, v, f'{name}: borehole {i}')
                if abs(b.tilt) < 1e-9:
                    near(y, b.D + z, f'{name}: depths of borehole {i}')


# ------------------------------------------------------------------ fields
def rows(got, exp, what, tol=1e-6):
    """The same rows, in any order."""
    left = [np.array(r, float) for r in exp]
    require(len(got) == len(left), f'{what}: count', got=len(got),
            expected=len(left))
    for r in got:
        d = [np.max(np.abs(np.array(r, float) - e)) for e in left]
        k = int(np.argmin(d))
        require(d[k] <= tol, f'{what}: not expected', got=list(r))
        left.pop(k)


@st.composite
def field_case(draw):
    return {'field': draw(st.one_of(fg.vertical(1, 6), fg.inclined(1, 6))),
            'top': draw(st.booleans()), 'd3': draw(st.booleans()),
            'labels': draw(st.booleans()), 'tilt': draw(st.booleans()),
            'old': draw(st.booleans())}


@sub('C29', 'fields', field_case(), 160, 3000, shards=4)
def check_field(c, ctx):
    if not (c['top'] or c['d3']):
        ctx.set_trivial('nothing drawn')
        return
    f = c['field']
    B = fg.boreholes(f)
    kw = dict(viewTop=c['top'], view3D=c['d3'], labels=c['labels'],
              showTilt=c['tilt'])
    ctx.label('function' if c['old'] else 'method')
    feet = [(b.x + b.H * math.sin(b.tilt) * math.cos(b.orientation),
             b.y + b.H * math.sin(b.tilt) * math.sin(b.orientation),
             b.D + b.H * math.cos(b.tilt)) for b in B]
    with Figures() as F, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['old']:
            fig = gt.boreholes.visualize_field(B, **kw)
        else:
            fig = gt.borefield.Borefield.from_boreholes(B) \
                .visualize_field(**kw)
        require(len(F.all()) == 1, 'one figure')
        require(len(fig.axes) == int(c['top']) + int(c['d3']), 'axes')
        if c['top']:
            ax = fig.axes[0]
            ls = curves(ax)
            pts = [(x, y) for q in ls if q[3] for x, y in zip(q[0], q[1])]
            rows(pts, [(b.x, b.y) for b in B],
                 'marks at the head of boreholes')
            tr = [q for q in ls if not q[3]]
            require(len(tr) == (len(B) if c['tilt'] else 0),
                    'one trace for each borehole', got=len(tr))
            if c['tilt']:
                rows([np.concatenate(q[:2]) for q in tr],
                     [(b.x, e[0], b.y, e[1]) for b, e in zip(B, feet)],
                     'traces')
            tx = {x.get_text().strip(): x.get_position() for x in ax.texts}
            if c['labels']:
                require(len(tx) == len(B), 'one label for each borehole',
                        got=list(tx))
                for i, b in enumerate(B):
                    close(np.array(tx.get(str(i), (np.nan, np.nan)), float),
                          np.array([b.x, b.y]), atol=1e-9,
                          what=f'label of borehole {i}')
            else:
                require(not tx, 'no labels')
        if c['d3']:
            ax = fig.axes[-1]
            heads, lines = [], []
            for l in ax.lines:
                x, y, z = (np.atleast_1d(np.asarray(v, float)).ravel()
                           for v in l.get_data_3d())
                if l.get_marker() not in (None, 'None', '', ' '):
                    heads += list(zip(x, y, np.broadcast_to(z, x.shape)))
                else:
                    lines.append((x[0], y[0], z[0], x[1], y[1], z[1]))
            rows(heads, [(b.x, b.y, b.D) for b in B], 'heads in 3D')
            rows(lines, [(b.x, b.y, b.D, *e) for b, e in zip(B, feet)],
                 'boreholes in 3D')
            z0, z1 = ax.get_zlim()
            require(z0 > z1, 'depth increases downwards', zlim=(z0, z1))


# ------------------------------------------------------------------- pipes
@sub('C29', 'pipes', pg.pipe(), 120, 2400, shards=2)
def check_pipes(c, ctx):
    p = pg.build(c)
    ctx.label(c['kind'])
    with Figures() as F:
        fig = p.visualize_pipes()
        require(len(F.all()) == 1 and len(fig.axes) == 1, 'one figure')
        ax = fig.axes[0]
        got = [(*q.center, q.radius) for q in ax.patches
               if hasattr(q, 'radius')]
        exp = [(0., 0., c['r_b'])]
        if c['kind'] == 'coaxial':
            exp += [(*c['pos'], r) for r in c['r_in'] + c['r_out']]
        else:
            exp += [(*q, r) for q in c['pos'] for r in (c['r_in'],
                                                        c['r_out'])]
        rows(got, exp, 'circles', 1e-9)
        tx = {t.get_text(): t.get_position() for t in ax.texts}
        require(set(tx) == {str(i) for i in range(2 * c['n'])},
                'pipes are numbered', got=sorted(tx))
        if c['kind'] != 'coaxial':
            for i, q in enumerate(c['pos']):
                close(np.array(tx[str(i)], float), np.array(q), atol=1e-9,
                      what=f'number of pipe {i}')
