"""Reference construction of g-functions: segments of lines, first-principles
response factors, superposition in time written as loops."""
import math

import numpy as np
import pygfunction as gt

from pbt import fls_ref

_H = {}


def segments(field, ratios):
    """[(borehole index, [H, D, r_b, x, y, tilt, orientation])]."""
    out = []
    for i, (b, r) in enumerate(zip(field, ratios)):
        H, D, rb, x, y, t, o = b
        u = 0.
        for w in r:
            out.append((i, [H * w, D + u * math.cos(t), rb,
                            x + u * math.sin(t) * math.cos(o),
                            y + u * math.sin(t) * math.sin(o), t, o]))
            u += H * w
    return out


def responses(field, ratios, times, alpha, M=31, quadrature=False):
    """h[i, j, k]: temperature of segment i per unit rate of segment j (rate
    per unit length, 2 pi k_s T). With `quadrature`, the vertical boreholes of
    a field with inclined ones are evaluated on their own walls by the same
    quadrature as the inclined ones (the documented method 'detailed' does
    so; at early times it has not converged to the double integral)."""
    seg = segments(field, ratios)
    n = len(seg)
    h = np.zeros((n, n, len(times)))
    vertical = all(b[5] == 0. for b in field)
    if vertical:
        cache = {}
        for k, t in enumerate(times):
            L = math.sqrt(4. * alpha * t)
            for i, (bi, si) in enumerate(seg):
                for j, (bj, sj) in enumerate(seg):
                    d = max(math.hypot(si[3] - sj[3], si[4] - sj[4]),
                            sj[2] if bi == bj else 0.)
                    key = (k, round(d, 9), si[0], si[1], sj[0], sj[1])
                    if key not in cache:
                        cache[key] = fls_ref.vertical(
                            L, d, sj[0], sj[1], si[0], si[1])
                    h[i, j, k] = cache[key]
        return h
    # inclined lines: the library's own point-by-point solution (judged by
    # C02), asked for one pair of segments at a time
    bs = [gt.boreholes.Borehole(s[0], s[1], s[2], s[3], s[4], tilt=s[5],
                                orientation=s[6]) for _, s in seg]
    t = np.array(times, float)
    for i in range(n):
        for j in range(n):
            (bi, si), (bj, sj) = seg[i], seg[j]
            if quadrature and bi == bj and si[5] == 0.:
                one = np.ones(1)
                h[i, j] = np.asarray(
                    gt.heat_transfer.finite_line_source_inclined_vectorized(
                        t, alpha, sj[2] * one,
                        *(sj[q] * one for q in (3, 4, 0, 1, 5, 6)),
                        *(si[q] * one for q in (3, 4, 0, 1, 5, 6)),
                        M=M)).reshape(-1)
                continue
            h[i, j] = np.asarray(gt.heat_transfer.finite_line_source(
                t, alpha, [bs[j]], [bs[i]], M=M)).reshape(-1)
    return h


def interp(h, times, dt):
    """Responses at time dt: linear in time from zero, as documented."""
    t = np.concatenate(([0.], times))
    hh = np.concatenate((np.zeros(h.shape[:2] + (1,)), h), axis=2)
    k = int(np.searchsorted(t, dt, side='left'))
    k = min(max(k, 1), len(t) - 1)
    w = (dt - t[k - 1]) / (t[k] - t[k - 1])
    return (1. - w) * hh[:, :, k - 1] + w * hh[:, :, k]


def reconstructed(times, Q):
    """The load history resampled so that its steps, counted back from the
    present, are those of the response factors: the energy of each new
    interval is conserved.  times, Q: up to and including the present step."""
    edges = [0.] + list(times)                       # forward history
    now = times[-1]
    back = list(times)                               # ages
    out = []
    for p in range(len(times)):
        # interval of ages (a0, a1)
        a0 = 0. if p == 0 else back[p - 1]
        a1 = back[p]
        lo, hi = now - a1, now - a0
        e = np.zeros(Q.shape[0])
        for q in range(len(times)):
            o = min(hi, edges[q + 1]) - max(lo, edges[q])
            if o > 0.:
                e += Q[:, q] * o
        out.append(e / (a1 - a0))
    return np.array(out)          # index p: mean rate at ages in interval p


def past(h, times, Q):
    """Temperature rise due to the loads before the present step (the load of
    the present step is not counted)."""
    Q = Q.copy()
    Q[:, -1] = 0.
    q = reconstructed(times, Q)
    T = np.zeros(h.shape[0])
    prev = np.zeros(h.shape[:2])
    for p in range(len(times)):
        T += (h[:, :, p] - prev) @ q[p]
        prev = h[:, :, p]
    return T


def exact(h_of, times, Q, k):
    """Superposition of the actual steps at time index k."""
    T = 0.
    e = [0.] + list(times)
    for q in range(k + 1):
        T = T + (h_of(e[k + 1] - e[q]) - h_of(e[k + 1] - e[q + 1])) @ Q[:, q]
    return T
