"""Generated pipes and an independent solution of the fluid temperatures."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st
from scipy.linalg import expm

from pbt import gen

KINDS = ('single', 'parallel', 'series', 'independent', 'coaxial')


@st.composite
def section(draw, kind, nmax=3):
    """Cross-section: pipe positions and radii."""
    r_b = draw(st.one_of(st.sampled_from([0.06, 0.075]), gen.f(0.05, 0.15)))
    c = {'kind': kind, 'r_b': r_b}
    if kind == 'coaxial':
        x = sorted(draw(st.lists(gen.f(0.12, 0.95), min_size=4, max_size=4,
                                 unique_by=lambda v: int(round(v, 3) * 100. + 1e-6))))
        r = [round(v, 3) * r_b for v in x]
        annular_in = draw(st.booleans())
        inner, outer = r[:2], r[2:]
        c['r_in'] = [outer[0], inner[0]] if annular_in else \
            [inner[0], outer[0]]
        c['r_out'] = [outer[1], inner[1]] if annular_in else \
            [inner[1], outer[1]]
        slack = (r_b - outer[1]) * draw(st.sampled_from([0., 0., 0.9]))
        a = draw(gen.angle)
        c['pos'] = [slack * math.cos(a), slack * math.sin(a)]
        c['n'] = 1
        c['R_ff'] = draw(gen.logf(0.005, 1.))
    else:
        n = 1 if kind == 'single' else draw(st.integers(1, nmax))
        if kind != 'single' and n == 1 and draw(st.booleans()):
            n = 2
        N = 2 * n
        D = draw(gen.f(0.35, 0.8)) * r_b
        room = min(D * math.sin(math.pi / N), r_b - D)
        r_out = room * draw(gen.f(0.3, 0.85))
        r_in = r_out * draw(gen.f(0.6, 0.95))
        j = (room - r_out) * draw(st.sampled_from([0., 0., 0.6])) / 1.5
        a0 = draw(st.one_of(st.just(0.), gen.angle))
        pos = []
        for i in range(N):
            t = a0 + 2 * math.pi * i / N
            dx, dy = (draw(gen.f(-1., 1.)), draw(gen.f(-1., 1.))) if j else \
                (0., 0.)
            pos.append([D * math.cos(t) + j * dx, D * math.sin(t) + j * dy])
        order = draw(st.one_of(st.just(list(range(N))),
                               st.permutations(list(range(N)))))
        c.update(pos=[pos[i] for i in order], r_in=r_in, r_out=r_out, n=n)
    c['k_s'] = draw(gen.f(0.5, 5.))
    c['k_g'] = draw(gen.f(0.5, 5.))
    c['R_fp'] = draw(gen.logf(0.01, 0.5))
    c['J'] = draw(st.sampled_from([0, 1, 2, 2, 3]))
    return c


@st.composite
def pipe(draw, kinds=KINDS, nmax=3):
    c = draw(section(draw(st.sampled_from(kinds)), nmax))
    c['H'] = draw(st.one_of(st.sampled_from([50., 100., 150.]),
                            gen.f(10., 300.)))
    c['D'] = draw(gen.depth)
    c['tilt'] = draw(st.sampled_from([0., 0., 0., 0.3]))
    c['reversible'] = draw(st.sampled_from([True, True, False]))
    return c


def borehole(c, x=0., y=0.):
    return gt.boreholes.Borehole(c['H'], c['D'], c['r_b'], x, y,
                                 tilt=c.get('tilt', 0.), orientation=0.)


def build(c, b=None, **kw):
    b = b or borehole(c)
    rev = kw.pop('reversible', c.get('reversible', True))
    c = dict(c, **kw)
    P = gt.pipes
    if c['kind'] == 'coaxial':
        return P.Coaxial(tuple(c['pos']), np.array(c['r_in']),
                         np.array(c['r_out']), b, c['k_s'], c['k_g'],
                         c['R_ff'], c['R_fp'], J=c['J'], reversible_flow=rev)
    pos = [tuple(p) for p in c['pos']]
    a = (pos, c['r_in'], c['r_out'], b, c['k_s'], c['k_g'], c['R_fp'])
    if c['kind'] == 'single':
        return P.SingleUTube(*a, J=c['J'], reversible_flow=rev)
    if c['kind'] == 'independent':
        return P.IndependentMultipleUTube(*a, c['n'], J=c['J'],
                                          reversible_flow=rev)
    return P.MultipleUTube(*a, c['n'], config=c['kind'], J=c['J'],
                           reversible_flow=rev)


def n_in(c):
    return c['n'] if c['kind'] == 'independent' else 1


def delta(c):
    """Matrix of delta-circuit resistances (from the public function; its
    value is judged by C19)."""
    if c['kind'] == 'coaxial':
        o = int(np.argmax(c['r_out']))
        R = gt.pipes.thermal_resistances(
            [tuple(c['pos'])], c['r_out'][o], c['r_b'], c['k_s'], c['k_g'],
            c['R_fp'], J=c['J'])[1][0, 0]
        Rd = np.full((2, 2), c['R_ff'])
        Rd[o, o] = R
        Rd[1 - o, 1 - o] = np.inf
        return Rd
    return np.array(gt.pipes.thermal_resistances(
        [tuple(p) for p in c['pos']], c['r_out'], c['r_b'], c['k_s'],
        c['k_g'], c['R_fp'], J=c['J'])[1])


@st.composite
def flow(draw, c, sign=True, ntu=(0.02, 4.)):
    """Inlet flows and heat capacities.  Flow is drawn through the number of
    transfer units so that all regimes are reached."""
    k = n_in(c)
    cp = draw(st.one_of(st.just(4000.), gen.f(1000., 5000.)))
    m = []
    for _ in range(k):
        u = draw(gen.logf(*ntu))
        # m cp = H / (R u)
        v = c['H'] / (u * (c['R_fp'] + 0.1) * cp)
        if sign and draw(st.integers(0, 3)) == 0:
            v = -v
        m.append(v)
    return {'m': m, 'cp': cp}


def flow_args(c, fl):
    if c['kind'] == 'independent':
        # cp: one heat capacity or one per inlet
        cp = fl['cp']
        return np.array(fl['m']), np.array(cp) if isinstance(cp, list) else cp
    return fl['m'][0], fl['cp']


@st.composite
def ratios(draw, nmin=1, nmax=6):
    n = draw(st.integers(nmin, nmax))
    if draw(st.booleans()):
        return n, None
    w = draw(st.lists(gen.f(0.1, 1.), min_size=n, max_size=n))
    return n, [x / sum(w) for x in w]


def rat(r):
    return None if r is None else np.array(r, dtype=float)


# ------------------------------------------------------------- reference
class Ref:
    """Fluid temperatures from the energy balance of each pipe,
    mcp_i dT_i/dz = (T_b - T_i)/R_ii + sum_j (T_j - T_i)/R_ij,
    solved over a chain of short elements with all unknowns at once."""

    def __init__(self, c, m, cp, Rd=None, reversible=None):
        n = c['n']
        Rd = delta(c) if Rd is None else Rd
        m = np.atleast_1d(np.asarray(m, float))
        rev = c.get('reversible', True) if reversible is None else reversible
        if not rev:
            m = np.abs(m)
        self.c, self.n, self.m, self.cp = c, n, m, cp
        kind = c['kind']
        # downward flow in pipe i is positive
        if kind == 'parallel':
            mp = np.full(n, m[0] / n)
        elif kind == 'independent':
            mp = m.copy()
        else:
            mp = np.full(n, m[0])
        w = mp * cp                    # cp: one value or one per inlet
        self.mcp = np.concatenate((w, -w))
        G = 1. / Rd
        K = G.copy()
        np.fill_diagonal(K, 0.)
        A = K - np.diag(np.sum(K, axis=1) + np.diag(G))
        self.A = A / self.mcp[:, None]
        self.B = np.diag(G) / self.mcp
        self.G = np.diag(G)

    def solve(self, T_in, T_b, ratios, z=()):
        n, N, H = self.n, 2 * self.n, self.c['H']
        T_in = np.atleast_1d(np.asarray(T_in, float))
        edges = np.concatenate(([0.], np.cumsum(ratios))) * H
        edges[-1] = H
        pts = sorted(set(edges) | set(float(x) for x in z))
        # split elements to keep each transfer matrix well conditioned
        norm = np.linalg.norm(self.A, 2)
        nodes = [pts[0]]
        for a, b in zip(pts[:-1], pts[1:]):
            k = max(1, int(math.ceil(norm * (b - a) / 1.5)))
            nodes += [a + (b - a) * (i + 1) / k for i in range(k - 1)] + [b]
        M = len(nodes)
        S = np.zeros((M * N, M * N))
        rhs = np.zeros(M * N)
        row = 0
        cache = {}
        for e in range(M - 1):
            d = nodes[e + 1] - nodes[e]
            key = round(d, 12)
            if key not in cache:
                big = np.zeros((N + 1, N + 1))
                big[:N, :N] = self.A * d
                big[:N, N] = self.B * d
                cache[key] = expm(big)
            E = cache[key]
            mid = 0.5 * (nodes[e] + nodes[e + 1])
            s = min(int(np.searchsorted(edges, mid) - 1), len(T_b) - 1)
            S[row:row + N, (e + 1) * N:(e + 2) * N] = np.eye(N)
            S[row:row + N, e * N:(e + 1) * N] = -E[:N, :N]
            rhs[row:row + N] = E[:N, N] * T_b[s]
            row += N
        last = (M - 1) * N
        for i in range(n):                       # bottom of the U-tubes
            S[row, last + i], S[row, last + n + i] = 1., -1.
            row += 1
        kind = self.c['kind']
        down = [i if self.mcp[i] > 0 else i + n for i in range(n)]
        up = [i + n if self.mcp[i] > 0 else i for i in range(n)]
        if kind == 'series':
            seq = list(range(n)) if self.m[0] > 0 else list(range(n))[::-1]
        for i in range(n):                       # head of the borehole
            S[row, down[i]] = 1.
            if kind == 'series' and i != seq[0]:
                S[row, up[seq[seq.index(i) - 1]]] = -1.
            else:
                rhs[row] = T_in[i] if kind == 'independent' else T_in[0]
            row += 1
        T = np.linalg.solve(S, rhs).reshape(M, N)
        self.nodes, self.T, self.T_b = nodes, T, T_b
        if kind == 'series':
            self.T_out = T[0, [up[seq[-1]]]]
        elif kind == 'independent':
            self.T_out = T[0, up]
        else:
            self.T_out = np.array([np.mean(T[0, up])])
        idx = [int(np.argmin(np.abs(np.array(nodes) - e))) for e in edges]
        # heat gained by the fluid crossing each segment
        self.Q_b = np.array([np.sum(self.mcp * (T[b] - T[a]))
                             for a, b in zip(idx[:-1], idx[1:])])
        self.Tz = np.array([T[int(np.argmin(np.abs(np.array(nodes) - x)))]
                            for x in z])
        return self
