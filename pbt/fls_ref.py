"""First-principles reference for line sources in a half space.

Continuous point source: erfc(R/sqrt(4 alpha t))/R.  The response factor from
line 1 to line 2 (mean over line 2) is
    h = 1/(2 H2) * int_1 int_2 [erfc(R/L)/R - erfc(R'/L)/R'],
L = sqrt(4 alpha t), R' measured from the mirror image of line 1 above the
ground surface.  None of the closed forms used by the library (erfint, exp1,
one-integral forms) appear here.
"""
import numpy as np
from scipy.special import erfc, roots_legendre

_X, _W = roots_legendre(12)


def _panels(a, b, width):
    n = max(1, int(np.ceil((b - a) / width)))
    e = np.linspace(a, b, n + 1)
    h = 0.5 * np.diff(e)
    m = 0.5 * (e[1:] + e[:-1])
    return (m[:, None] + h[:, None] * _X).ravel(), \
        (h[:, None] * _W).ravel()


def _kernel(L):
    if np.isinf(L):
        return lambda R: np.ones_like(R)
    return lambda R: erfc(R / L)


def _parallel(dis, brk, wts, L):
    """int w(u) erfc(sqrt(d^2+u^2)/L)/sqrt(d^2+u^2) du, w piecewise linear
    with values wts at the break points brk."""
    k = _kernel(L)
    pts = sorted(set(list(brk) + [0.]))
    tot = 0.
    for a, b in zip(pts[:-1], pts[1:]):
        if b <= brk[0] or a >= brk[-1] or b - a <= 0.:
            continue
        th, w = _panels(np.arcsinh(a / dis), np.arcsinh(b / dis), 0.4)
        u = dis * np.sinh(th)
        R = np.sqrt(dis**2 + u**2)
        tot += np.sum(w * np.interp(u, brk, wts) * k(R))
    return tot


def vertical(L, dis, H1, D1, H2, D2, real=True, image=True):
    """Response factor between two vertical lines; L = sqrt(4 alpha t)."""
    tot = 0.
    m = min(H1, H2)
    lo, hi = (D2 - D1 - H1), (D2 - D1 + H2)
    if real:
        brk = np.array([lo, lo + m, hi - m, hi])
        tot += _parallel(dis, brk, np.array([0., m, m, 0.]), L)
    if image:
        lo, hi = D1 + D2, D1 + D2 + H1 + H2
        brk = np.array([lo, lo + m, hi - m, hi])
        tot -= _parallel(dis, brk, np.array([0., m, m, 0.]), L)
    return tot / (2. * H2)


def direction(tilt, orientation):
    return np.array([np.sin(tilt) * np.cos(orientation),
                     np.sin(tilt) * np.sin(orientation), np.cos(tilt)])


def _line_line(P1, e1, H1, P2, e2, H2, L, extra2=0.):
    """int_0^H1 du int_0^H2 dv erfc(R/L)/R with
    R^2 = |P1+u e1-P2-v e2|^2 + extra2."""
    k = _kernel(L)
    w0 = P1 - P2
    # location along line 1 that is closest to line 2, for graded panels
    u0 = _closest(P1, e1, H1, P2, e2, H2)
    edges = {0., H1, u0}
    for s in (1., -1.):
        d = 0.02 * H1
        while d < H1:
            e = u0 + s * d
            if 0. < e < H1:
                edges.add(e)
            d *= 2.
    edges = sorted(edges)
    us, wu = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        if b - a < 1e-12:
            continue
        h, m = 0.5 * (b - a), 0.5 * (a + b)
        us.append(m + h * _X)
        wu.append(h * _W)
    us, wu = np.concatenate(us), np.concatenate(wu)
    tot = 0.
    for u, w in zip(us, wu):
        p = w0 + u * e1
        v0 = p @ e2
        c2 = max(p @ p - v0**2, 0.) + extra2
        c = max(np.sqrt(c2), 1e-9)
        tot += w * _inner(c, -v0, H2 - v0, k)
    return tot


def _inner(c, a, b, k):
    ta, tb = np.arcsinh(a / c), np.arcsinh(b / c)
    if ta < 0. < tb:
        parts = ((ta, 0.), (0., tb))
    else:
        parts = ((ta, tb),)
    s = 0.
    for x, y in parts:
        th, w = _panels(x, y, 0.7)
        s += np.sum(w * k(c * np.cosh(th)))
    return s


def _closest(P1, e1, H1, P2, e2, H2):
    u = np.linspace(0., H1, 201)
    p = (P1 - P2)[None, :] + u[:, None] * e1[None, :]
    v = np.clip(p @ e2, 0., H2)
    d = np.linalg.norm(p - v[:, None] * e2[None, :], axis=1)
    return float(u[np.argmin(d)])


def inclined(L, b1, b2, real=True, image=True):
    """b = (H, D, r_b, x, y, tilt, orientation).  As documented, the squared
    horizontal distance between the heads is at least r_b1**2."""
    H1, D1, rb1, x1, y1, t1, o1 = b1
    H2, D2, rb2, x2, y2, t2, o2 = b2
    P1 = np.array([x1, y1, D1])
    P2 = np.array([x2, y2, D2])
    e1, e2 = direction(t1, o1), direction(t2, o2)
    rr = (x1 - x2)**2 + (y1 - y2)**2
    extra = max(rb1**2 - rr, 0.)
    tot = 0.
    if real:
        tot += _line_line(P1, e1, H1, P2, e2, H2, L, extra)
    if image:
        M = np.array([1., 1., -1.])
        tot -= _line_line(P1 * M, e1 * M, H1, P2, e2, H2, L, extra)
    return tot / (2. * H2)


def min_distance(b1, b2, n=81):
    """Smallest distance between two lines (sampled) and between line 2 and
    the image of line 1."""
    out = []
    for mir in (1., -1.):
        M = np.array([1., 1., mir])
        H1, D1, rb1, x1, y1, t1, o1 = b1
        H2, D2, rb2, x2, y2, t2, o2 = b2
        P1, e1 = np.array([x1, y1, D1]) * M, direction(t1, o1) * M
        P2, e2 = np.array([x2, y2, D2]), direction(t2, o2)
        u = np.linspace(0., H1, n)
        p = (P1 - P2)[None, :] + u[:, None] * e1[None, :]
        v = np.clip(p @ e2, 0., H2)
        d = np.linalg.norm(p - v[:, None] * e2[None, :], axis=1)
        out.append(float(d.min()))
    return out
