"""C19: internal resistances solve conduction in the cross-section."""
import math

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import close, describe, finite, require, same, sub
from pbt.multipole_ref import Field

describe('C19', (
    'Drawn arrangements of one to six pipes (concentric, symmetric or not, '
    'near each other and near the wall), radii and resistances per pipe, '
    'conductivities and orders; resistances and temperatures are compared '
    'with an independent solution (images by the circle theorem, Fourier '
    'modes by FFT, one linear solve), with the laws of conduction applied to '
    'the reported temperatures, and over sequences of evaluations that '
    'change one argument at a time or write into arrays. Trivial when there '
    'is one pipe at the centre.'),
    ['iterations are asked to converge to 1e-5 as documented, unless a '
     'smaller tolerance is passed'])

TR, MP = gt.pipes.thermal_resistances, gt.pipes.multipole


@st.composite
def section(draw, nmax=6, jmax=4, near=0.95):
    n = draw(st.integers(1, nmax))
    r_b = draw(st.one_of(st.sampled_from([0.06, 0.075]), gen.f(0.04, 0.2)))
    kind = draw(st.sampled_from(['ring', 'ring', 'free']))
    if n == 1:
        D = draw(st.sampled_from([0., 0.3, 0.6]) | gen.f(0., 0.8)) * r_b
        a = draw(gen.angle)
        pos = [[D * math.cos(a), D * math.sin(a)]]
        room = r_b - D
        room = [room]
    else:
        D = draw(gen.f(0.3, 0.8)) * r_b
        a0 = draw(st.one_of(st.just(0.), gen.angle))
        pos = []
        for i in range(n):
            t = a0 + 2 * math.pi * i / n
            d = D
            if kind == 'free':
                t += draw(gen.f(-.3, .3)) / n * 2 * math.pi
                d *= draw(gen.f(0.5, 1.1))
            pos.append([d * math.cos(t), d * math.sin(t)])
        pos = [pos[i] for i in draw(st.permutations(list(range(n))))]
        room = []
        for i in range(n):
            g = [math.dist(pos[i], pos[j]) / 2 for j in range(n) if j != i]
            room.append(min(g + [r_b - math.hypot(*pos[i])]))
    if draw(st.booleans()):
        r = min(room) * draw(gen.f(0.2, near))
    else:
        r = [x * draw(gen.f(0.2, near)) for x in room]
    Rf = draw(gen.logf(0.005, 1.)) if draw(st.booleans()) else \
        [draw(gen.logf(0.005, 1.)) for _ in range(n)]
    return {'pos': pos, 'r': r, 'r_b': r_b, 'k_s': draw(gen.f(0.3, 6.)),
            'k_g': draw(gen.f(0.3, 6.)), 'R_fp': Rf,
            'J': draw(st.integers(0, jmax))}


def args(c):
    def v(x):
        return np.array(x) if isinstance(x, list) else x
    return ([tuple(p) for p in c['pos']], v(c['r']), c['r_b'], c['k_s'],
            c['k_g'], v(c['R_fp']))


def settle(c, ctx):
    n = len(c['pos'])
    ctx.label(f'{n} pipes', f'J={c["J"]}',
              'arrays' if isinstance(c['r'], list) else 'numbers')
    if n == 1 and math.hypot(*c['pos'][0]) < 1e-9:
        ctx.set_trivial('centred pipe')


def forget():
    """Replace whatever the module keeps from the last call."""
    TR([(0.011, 0.)], 0.01, 0.05, 1., 1., 0.1, J=0)


@st.composite
def case(draw):
    c = draw(section())
    n = len(c['pos'])
    c['q'] = [draw(gen.f(-50., 50.)) for _ in range(n)]
    c['T_b'] = draw(gen.f(-10., 30.))
    c['pts'] = [[draw(gen.f(0.02, 3.)), draw(gen.angle)] for _ in range(4)]
    return c


@sub('C19', 'conduction', case(), 900, 20000, shards=4)
def check_conduction(c, ctx):
    settle(c, ctx)
    a, J, n = args(c), c['J'], len(c['pos'])
    F = Field(*a, J)
    q, T_b = np.array(c['q']), c['T_b']
    sc = float(np.max(np.abs(F.R)))
    # tight iterations
    pts = []
    for x, t in c['pts']:
        w = x * c['r_b'] * complex(math.cos(t), math.sin(t))
        d = np.abs(w - F.z) / F.r
        if np.all(np.abs(d - 1.) > 1e-6) and abs(x - 1.) > 1e-9:
            pts.append(w)
    pts = np.array(pts, complex)
    Tf, T, it, err = MP(*a, T_b, q, J, x_T=pts.real, y_T=pts.imag, eps=1e-12,
                        it_max=400)
    if J > 0 and err > 1e-9:
        ctx.set_trivial('iterations do not converge')
        return
    Tf = finite(Tf, (n,), 'fluid temperatures')
    T = finite(T, (len(pts),), 'temperatures')
    qs = float(np.max(np.abs(q))) + 1e-3
    close(Tf - T_b, F.R @ q, rtol=1e-7, scale=qs * sc,
          what='fluid temperatures')
    ref = T_b + F.T(pts, q)
    for k, w in enumerate(pts):
        d = np.abs(w - F.z) / F.r
        if np.min(d) < 1.:
            ref[k] = Tf[int(np.argmin(d))]
            ctx.label('point in a pipe')
        elif abs(w) > c['r_b']:
            ctx.label('point in the ground')
    close(T, ref, rtol=1e-7, scale=qs * sc, what='temperatures at points')
    # resistances with the documented iterations
    forget()
    R, Rd = TR(*a, J=J)
    R, Rd = finite(R, (n, n), 'resistances'), arr_rd(Rd, n)
    tol = 1e-9 if J == 0 else 2e-4
    close(R, F.R, rtol=tol, scale=sc, what='resistances')
    # delta circuit: flows for any temperatures of pipes and wall
    K = 1. / Rd
    Q = np.linalg.solve(R, Tf - T_b)
    flow = np.array([sum(K[i, j] * (Tf[i] - Tf[j]) for j in range(n)
                         if j != i) + K[i, i] * (Tf[i] - T_b)
                     for i in range(n)])
    close(Q, flow, rtol=1e-7, scale=qs, what='delta circuit')


def arr_rd(Rd, n):
    Rd = np.asarray(Rd, float)
    require(Rd.shape == (n, n) and not np.any(np.isnan(Rd)),
            'delta-circuit resistances are numbers', Rd=Rd)
    return Rd


@sub('C19', 'laws', case(), 300, 10000, shards=6)
def check_laws(c, ctx):
    """The reported temperatures obey conduction and wall conditions."""
    settle(c, ctx)
    c = dict(c, J=c['J'] + 6)
    a, J, n = args(c), c['J'], len(c['pos'])
    r_b = c['r_b']
    q, T_b = np.array(c['q']), c['T_b']
    z = np.array([complex(*p) for p in c['pos']])
    r = np.broadcast_to(np.asarray(a[1], float), (n,))
    Rf = np.broadcast_to(np.asarray(a[5], float), (n,))

    def T_of(w):
        w = np.asarray(w, complex)
        Tf, T, it, err = MP(*a, T_b, q, J, x_T=w.real.ravel(),
                            y_T=w.imag.ravel(), eps=1e-11, it_max=400)
        return np.asarray(Tf), np.asarray(T).reshape(w.shape), err
    ph = np.exp(2j * np.pi * np.arange(16) / 16)
    eps = 1e-4 * r_b
    w = np.concatenate((
        [r_b * ph * (1 - 1e-9), r_b * ph * (1 + 1e-9)],
        [(r_b - eps) * ph, (r_b + eps) * ph, 40. * r_b * ph,
         80. * r_b * ph]))
    Tf, T, err = T_of(w)
    if err > 1e-8:
        ctx.set_trivial('iterations do not converge')
        return
    finite(T)
    if np.max(np.abs(q)) < 0.1:
        ctx.set_trivial('no heat flow')
        return
    sc = float(np.max(np.abs(Tf - T_b))) + float(np.max(np.abs(T - T_b)))
    close(T[0], T[1], rtol=1e-6, scale=sc, what='continuity at the wall')
    # far enough from the pipes for finite differences
    gap = np.array([np.min(np.abs(r_b * x - z) - r) for x in ph])
    ok = gap > 0.1 * r_b
    flux = c['k_g'] * (T[0] - T[2]) / eps, c['k_s'] * (T[3] - T[1]) / eps
    fs = float(np.max(np.abs(flux))) + sc * c['k_g'] / r_b
    if np.any(ok):
        close(flux[0][ok], flux[1][ok], rtol=2e-2, scale=fs,
              what='flux across the wall')
    m = 192
    wall = r_b * np.exp(2j * np.pi * (np.arange(m) + .5) / m)
    close([np.mean(T_of(wall * (1 - 1e-12))[1])], [T_b], rtol=1e-5, scale=sc,
          what='mean temperature of the wall')
    tot = float(np.sum(q))
    close([np.mean(T[4] - T[5])],
          [tot * math.log(2.) / (2 * math.pi * c['k_s'])], rtol=1e-6,
          scale=float(np.max(np.abs(q))) / c['k_s'], what='total heat flow')
    # convective condition of every pipe, up to the neglected modes
    for i in range(min(n, 2)):
        near = [abs(z[i] - z[j]) - r[j] for j in range(n) if j != i] \
            + [r_b - abs(z[i])]
        if r[i] / min(near) > 0.75:
            ctx.label('near neighbour')
            continue
        M = 24
        p = np.exp(2j * np.pi * np.arange(M) / M)
        h = 1e-4 * r[i]
        w = z[i] + np.array([r[i] * (1 + 1e-9), r[i] + h, r[i] + 2 * h]
                            )[:, None] * p
        _, t, _ = T_of(w)
        d = (-3 * t[0] + 4 * t[1] - t[2]) / (2 * h)
        lhs = Tf[i] - t[0]
        rhs = -2 * math.pi * c['k_g'] * Rf[i] * r[i] * d
        s = max(float(np.max(np.abs(lhs))), float(np.max(np.abs(rhs))),
                1e-2 * sc)
        ctx.label('pipe condition')
        rho = r[i] / min(near)
        close(lhs, rhs, rtol=2e-3 + 6 * rho**(J + 1) / (1 - rho), scale=s,
              what=f'convective condition of pipe {i}')
        close([np.mean(lhs)], [q[i] * Rf[i]], rtol=1e-4, scale=s,
              what=f'heat flow of pipe {i}')


@st.composite
def sym(draw):
    c = draw(section())
    n = len(c['pos'])
    c.update(turn=draw(gen.angle), mirror=draw(st.booleans()),
             perm=list(draw(st.permutations(list(range(n))))),
             s=draw(gen.logf(0.2, 5.)), k=draw(gen.logf(0.2, 5.)))
    return c


@sub('C19', 'symmetries', sym(), 500, 10000, shards=2)
def check_symmetries(c, ctx):
    settle(c, ctx)
    n, J = len(c['pos']), c['J']
    a = args(c)
    forget()
    R, Rd = TR(*a, J=J)
    R, Rd = finite(R, (n, n)), arr_rd(Rd, n)
    sc = float(np.max(np.abs(R)))
    tol = 1e-9 if J == 0 else 1e-4
    pos, r, r_b, k_s, k_g, Rf = a
    forget()
    e = complex(math.cos(c['turn']), math.sin(c['turn']))
    z = [complex(*p) * e for p in pos]
    if c['mirror']:
        z = [x.conjugate() for x in z]
    R2, _ = TR([(x.real, x.imag) for x in z], r, r_b, k_s, k_g, Rf, J=J)
    close(R2, R, rtol=tol, scale=sc, what='turned cross-section')
    s = c['s']
    R2, _ = TR([(x * s, y * s) for x, y in pos], r * s, r_b * s, k_s, k_g, Rf,
               J=J)
    close(R2, R, rtol=tol, scale=sc, what='scaled cross-section')
    k = c['k']
    R2, _ = TR(pos, r, r_b, k_s * k, k_g * k, Rf / k, J=J)
    close(np.asarray(R2) * k, R, rtol=tol, scale=sc,
          what='scaled conductivities')
    pm = c['perm']
    R2, Rd2 = TR([pos[i] for i in pm], r[pm] if np.ndim(r) else r, r_b, k_s,
                 k_g, Rf[pm] if np.ndim(Rf) else Rf, J=J)
    close(R2, R[pm][:, pm], rtol=tol, scale=sc, what='renumbered pipes')
    close(1. / arr_rd(Rd2, n), (1. / Rd)[pm][:, pm], rtol=10 * tol,
          scale=float(np.max(np.abs(np.linalg.inv(R)))) * 10,
          what='renumbered delta circuit')
    close(R, R.T, rtol=tol, scale=sc, what='reciprocity')
    x = np.linalg.eigvalsh(0.5 * (R + R.T))
    require(np.min(x) > 0., 'heat flows from hot to cold', eig=x)
    # numbers for every pipe equal numbers per pipe
    if np.ndim(r) == 0 or np.ndim(Rf) == 0:
        ctx.label('numbers expanded')
        R2, _ = TR(pos, np.full(n, r) if np.ndim(r) == 0 else r, r_b, k_s,
                   k_g, np.full(n, Rf) if np.ndim(Rf) == 0 else Rf, J=J)
        close(R2, R, rtol=1e-12, what='arrays of equal numbers')


@sub('C19', 'convergence', section(nmax=4, near=0.6), 250, 5000, shards=2)
def check_convergence(c, ctx):
    """Few multipoles are close to the converged solution."""
    settle(c, ctx)
    a, n = args(c), len(c['pos'])
    E = Field(*a, 14)
    for J, tol in ((0, 0.3), (1, 0.1), (2, 0.03), (3, 0.015), (6, 2e-3)):
        forget()
        R, _ = TR(*a, J=J)
        d = np.linalg.norm(finite(R, (n, n)) - E.R, 2) / \
            np.linalg.norm(E.R, 2)
        require(d < tol, f'accuracy with {J} multipoles', error=d)


OPS = st.sampled_from(['same', 'pos', 'swap', 'r', 'r_b', 'k_s', 'k_g',
                       'R_fp', 'J', 'one r', 'one R', 'fewer', 'back',
                       'write in', 'write out', 'y', 'swap R', 'swap r',
                       'turn', 'mirror'])


def fits(c):
    p, r = c['pos'], c['r']
    n = len(p)
    return all(math.hypot(*p[i]) + r[i] < 0.98 * c['r_b'] and all(
        math.dist(p[i], p[j]) > 1.02 * (r[i] + r[j]) for j in range(i))
        for i in range(n)) if isinstance(r, list) else True


@st.composite
def history(draw):
    c = draw(section(nmax=4, jmax=2, near=0.7))
    n = len(c['pos'])
    if not isinstance(c['r'], list) and draw(st.booleans()):
        c['r'] = [c['r']] * n
    if not isinstance(c['R_fp'], list) and draw(st.booleans()):
        c['R_fp'] = [c['R_fp']] * n
    c['ops'] = [[draw(OPS), draw(st.sampled_from([0.999, 1.001, 0.9])),
                 draw(st.integers(0, n - 1))] for _ in
                range(draw(st.integers(1, 6)))]
    return c


@sub('C19', 'histories', history(), 600, 12000, shards=3)
def check_histories(c, ctx):
    n = len(c['pos'])

    def rec(c):
        return {k: ([list(x) if isinstance(x, list) else x for x in c[k]]
                    if isinstance(c[k], list) else c[k])
                for k in ('pos', 'r', 'r_b', 'k_s', 'k_g', 'R_fp', 'J')}
    first = cur = rec(c)
    forget()
    arrays = args(cur)
    log = [(cur, TR(*arrays, J=cur['J']), None)]
    out = log[0][1]
    log[0] = (cur, (out[0].copy(), out[1].copy()), 'first')
    for op, x, i in c['ops']:
        cur = rec(cur)
        m = len(cur['pos'])
        i = i % m
        mut = False
        if op == 'pos':
            cur['pos'][i][0] *= x
        elif op == 'y':
            cur['pos'][i][1] *= x
        elif op == 'swap':
            j = (i + 1) % m
            cur['pos'][i], cur['pos'][j] = cur['pos'][j], cur['pos'][i]
        elif op in ('swap R', 'swap r') and \
                isinstance(cur['R_fp' if op[-1] == 'R' else 'r'], list):
            j = (i + 1) % m
            v = cur['R_fp' if op[-1] == 'R' else 'r']
            v[i], v[j] = v[j], v[i]
            if not fits(cur):
                v[i], v[j] = v[j], v[i]
        elif op in ('turn', 'mirror'):
            e = complex(math.cos(x), math.sin(x))
            for k, (u, w) in enumerate(cur['pos']):
                z = complex(u, -w if op == 'mirror' else w)
                z = z if op == 'mirror' else z * e
                cur['pos'][k] = [z.real, z.imag]
        elif op in ('r', 'R_fp'):
            cur[op] = [v * min(x, 1.) * .99 for v in cur[op]] \
                if isinstance(cur[op], list) else cur[op] * min(x, 1.) * .99
        elif op in ('r_b',):
            cur[op] *= max(x, 1.) * 1.001
        elif op in ('k_s', 'k_g'):
            cur[op] *= x
        elif op == 'J':
            cur['J'] = (cur['J'] + 1) % 3
        elif op == 'one r' and isinstance(cur['r'], list):
            cur['r'][i] *= 0.9
        elif op == 'one R' and isinstance(cur['R_fp'], list):
            cur['R_fp'][i] *= x
        elif op == 'fewer' and m > 1:
            cur['pos'].pop(i)
            for k in ('r', 'R_fp'):
                if isinstance(cur[k], list):
                    cur[k].pop(i)
        elif op == 'back':
            cur = rec(first)
        elif op == 'write out':
            out[0][0, 0] += 1.
            out[1][0, 0] += 1.
        elif op == 'write in':
            # the caller changes its own arrays and asks again
            p, r, r_b, k_s, k_g, Rf = arrays
            if isinstance(cur['r'], list) and np.ndim(r):
                r[i] *= 0.9
                cur['r'] = r.tolist()
                mut = True
            if isinstance(cur['R_fp'], list) and np.ndim(Rf):
                Rf[i] *= 1.1
                cur['R_fp'] = Rf.tolist()
                mut = True
        ctx.label(op)
        if not mut:
            arrays = args(cur)
        out = TR(*arrays, J=cur['J'])
        log.append((rec(cur), (np.array(out[0]), np.array(out[1])), op))
    if len(log) < 3:
        ctx.set_trivial('one step')
    for k, (s, (R, Rd), op) in enumerate(log):
        forget()
        R0, Rd0 = TR(*args(s), J=s['J'])
        sc = float(np.max(np.abs(R0)))
        close(R, R0, rtol=1e-5, scale=sc, what=f'call {k} ({op})')
        close(1. / Rd, 1. / Rd0, rtol=1e-4, what=f'delta circuit {k} ({op})',
              scale=float(np.max(np.abs(1. / Rd0))))
