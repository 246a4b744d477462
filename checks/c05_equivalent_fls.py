"""C05: responses between groups of boreholes are averages over the pairs."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import fls_ref, gen
from pbt.harness import close, describe, finite, require, same, sub

ht = gt.heat_transfer

describe('C05', (
    'Drawn groups of borehole positions (1 to 5 boreholes per group), '
    'distances counted exactly or merged within a drawn tolerance, several '
    'pairs of groups at once, several segment pairs, several times; compared '
    'with the mean over receiving boreholes of the summed first-principles '
    'responses. A case is trivial when each group is one borehole.'),
    ['line sources are vertical, as in the method'])


@st.composite
def case(draw):
    npairs = draw(st.integers(1, 3))
    groups = []
    for _ in range(npairs):
        n1, n2 = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        pos = draw(gen.layout(n1 + n2, n1 + n2))
        own = draw(st.booleans())
        groups.append([pos[:n1], pos[:n1] if own else pos[n1:]])
    nseg = draw(st.integers(1, 3))
    seg = [[draw(gen.f(5., 100.)), draw(gen.f(0.5, 20.)),
            draw(gen.f(5., 100.)), draw(gen.f(0.5, 20.))]
           for _ in range(nseg)]
    return {'groups': groups, 'seg': seg, 'r_b': draw(gen.r_b),
            'alpha': draw(gen.alpha),
            'lts': draw(st.lists(gen.f(-5., 6.), min_size=1, max_size=3)),
            'scalar': draw(st.booleans()),
            'real': draw(st.sampled_from([True, True, False])),
            'image': draw(st.sampled_from([True, True, False]))}


@sub('C05', 'average', case(), 260, 8000, shards=3)
def check_average(c, ctx):
    all_dis, counts = [], []
    for k, (g1, g2) in enumerate(c['groups']):
        for a in g1:
            for b in g2:
                all_dis.append(max(math.hypot(a[0] - b[0], a[1] - b[1]),
                                   c['r_b']))
                counts.append(k)
    u, inv = np.unique(np.array(all_dis), return_inverse=True)
    w = np.zeros((len(u), len(c['groups'])))
    for i, k in zip(inv, counts):
        w[i, k] += 1
    seg = np.array(c['seg'])
    H1, D1, H2, D2 = (seg[:, i].reshape(1, -1) for i in range(4))
    N2 = np.array([[len(g2)] for g1, g2 in c['groups']])
    H0 = float(np.max(seg[:, [0, 2]]))
    t = np.array([gen.ts(H0, c['alpha']) * math.exp(x) for x in c['lts']])
    if c['scalar']:
        t = t[:1]
    arg = float(t[0]) if c['scalar'] else t
    h = ht.finite_line_source_equivalent_boreholes_vectorized(
        arg, c['alpha'], u.reshape(1, -1), w, H1, D1, H2, D2, N2,
        reaSource=c['real'], imgSource=c['image'])
    sh = (len(c['groups']), len(seg))
    if not (c['real'] or c['image']):
        require(np.all(np.asarray(h) == 0.), 'no source but a response', h=h)
        ctx.set_trivial('no source')
        return
    h = finite(h, sh + (() if c['scalar'] else (len(t),)), 'h')
    h = h.reshape(sh + (len(t),))
    if all(len(g[0]) * len(g[1]) == 1 for g in c['groups']):
        ctx.set_trivial('single boreholes')
    ctx.label(f'{len(c["groups"])} pairs of groups')
    for k, (g1, g2) in enumerate(c['groups']):
        ds = [all_dis[i] for i in range(len(counts)) if counts[i] == k]
        for s, (h1, d1, h2, d2) in enumerate(c['seg']):
            ref = [sum(fls_ref.vertical(
                math.sqrt(4 * c['alpha'] * ti), d, h1, d1, h2, d2,
                c['real'], c['image']) for d in ds) / len(g2) for ti in t]
            close(h[k, s], ref, rtol=5e-6, atol=1e-6,
                  what=f'groups {k}, segments {s}')


@st.composite
def eqcase(draw):
    n = draw(st.integers(1, 5))
    m = draw(st.integers(1, 5))
    pos = draw(gen.layout(n + m, n + m))
    return {'p1': pos[:n], 'p2': pos[n:], 'own': draw(st.booleans()),
            'H': draw(gen.length), 'D': draw(gen.depth),
            'r_b': draw(gen.r_b),
            'tol': draw(st.sampled_from([1e-6, 0.01, 0.05, 0.2])),
            'ratios': draw(st.lists(gen.f(0.05, 1.), min_size=1,
                                    max_size=5)),
            'nested': draw(st.booleans())}


@sub('C05', 'groups', eqcase(), 300, 8000)
def check_groups(c, ctx):
    """A group of boreholes: pairwise distances, merged distances and
    segments."""
    Eq = getattr(gt.boreholes, '_EquivalentBorehole', None)
    if Eq is None:
        ctx.set_trivial('no such class')
        return
    B = lambda p: gt.boreholes.Borehole(c['H'], c['D'], c['r_b'], *p)
    L1 = [B(p) for p in c['p1']]
    L2 = L1 if c['own'] else [B(p) for p in c['p2']]
    e1, e2 = Eq(L1), Eq(L2)
    if c['nested'] and len(L1) > 1:
        e1 = Eq([Eq(L1[:1]), Eq(L1[1:])])
    require(e1.nBoreholes == len(L1), 'number of boreholes')
    dis = np.array([[max(math.hypot(a.x - b.x, a.y - b.y), c['r_b'])
                     for a in L1] for b in L2])
    close(e1.distance(e2), dis, rtol=1e-12, what='distances')
    u, w = e1.unique_distance(e2, disTol=c['tol'])
    u, w = finite(u), finite(w)
    ctx.label(f'tol={c["tol"]}')
    if len(L1) * len(L2) == 1:
        ctx.set_trivial('single boreholes')
    require(w.sum() == dis.size, 'distances lost or invented', u=u, w=w)
    require(np.all(w >= 1) and np.all(np.diff(u) > 0), 'order', u=u, w=w)
    close([np.dot(u, w)], [dis.sum()], rtol=1e-9, what='sum of distances')
    flat = np.sort(dis.ravel())
    i = 0
    for d, k in zip(u, w.astype(int)):
        blk = flat[i:i + k]
        require(blk[-1] <= blk[0] * (1 + c['tol']) * (1 + 1e-12),
                'merged distances differ by more than the tolerance',
                block=blk)
        require(i + k == len(flat) or
                flat[i + k] >= blk[0] * (1 + c['tol']) * (1 - 1e-12),
                'distances within tolerance were not merged')
        close([d], [blk.mean()], rtol=1e-9, what='merged distance')
        i += k
    r = np.array(c['ratios']) / sum(c['ratios'])
    segs = e1.segments(len(r), segment_ratios=r)
    require(len(segs) == len(r), 'number of segments')
    z = c['D']
    for s, ri in zip(segs, r):
        close([s.H, s.D], [ri * c['H'], z], rtol=1e-9, atol=1e-9,
              what='segment')
        z += ri * c['H']
        close(s.x, [b.x for b in L1], rtol=1e-12, what='segment x')
        close(s.y, [b.y for b in L1], rtol=1e-12, what='segment y')
