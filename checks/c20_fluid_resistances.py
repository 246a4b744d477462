"""C20: fluid-side resistances follow their correlations."""
import math
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st
from scipy.optimize import brentq

from pbt import gen
from pbt.harness import close, describe, fail, raises, require, scalar, sub

describe('C20', (
    'Drawn radii, roughnesses and fluids, with flows drawn through the '
    'Reynolds number over laminar, transition and turbulent regimes and '
    'their limits; friction factors, film coefficients and resistances are '
    'compared with an independent implementation (Colebrook by bracketing) '
    'and checked for continuity, sign and assembly from parts. Trivial when '
    'the flow is laminar and far from the transition.'),
    ['Colebrook solved to the documented tolerance of 1e-6'])

P = gt.pipes
F = P.fluid_friction_factor_circular_pipe
H = P.convective_heat_transfer_coefficient_circular_pipe
HA = P.convective_heat_transfer_coefficient_concentric_annulus
RP = P.conduction_thermal_resistance_circular_pipe
T = gt.PipeType if hasattr(gt, 'PipeType') else gt.enums.PipeType

reynolds = st.one_of(
    gen.logf(1., 2250.), gen.f(2250., 2350.), gen.f(2300.5, 4000.),
    gen.f(3950., 4050.), gen.logf(4000., 1e6))


@st.composite
def props(draw):
    return {'mu': draw(gen.logf(2e-4, 3e-2)), 'rho': draw(gen.f(800., 1200.)),
            'k': draw(gen.f(0.1, 0.8)), 'cp': draw(gen.f(1500., 4500.)),
            'eps': draw(st.sampled_from([0., 1e-6, 1e-6, 1e-5]) |
                        gen.logf(1e-7, 1e-3))}


@st.composite
def flow(draw):
    c = draw(props())
    c.update(r=draw(gen.logf(0.005, 0.1)), Re=draw(reynolds),
             sign=draw(st.sampled_from([1., 1., -1.])))
    return c


def colebrook(Re, E):
    x = brentq(lambda x: x + 2 * math.log10(E / 3.7 + 2.51 * x / Re),
               0.5, 40., xtol=1e-14)
    return 1. / x**2


def friction(Re, E):
    return 64. / Re if Re < 2300. else colebrook(Re, E)


def gnielinski(Re, Pr, f):
    return f / 8 * (Re - 1000.) * Pr / (
        1. + 12.7 * math.sqrt(f / 8) * (Pr**(2 / 3) - 1.))


def nusselt(Re, Pr, E, lam, Re_f=None):
    """Range of Nusselt numbers that the documentation allows.  `Re_f` is
    the Reynolds number at which the friction factor is evaluated."""
    Re_f = Re if Re_f is None else Re_f
    if abs(Re / 4000. - 1.) < 1e-9:
        a = gnielinski(Re, Pr, friction(Re_f, E))
        return a, a
    if Re > 4000.:
        a = gnielinski(Re, Pr, friction(Re_f, E))
        return a, a
    if Re <= 2300.:
        return lam, lam
    g = (Re - 2300.) / 1700.
    # friction factor of the flow itself, or that at the end of transition
    s = Re_f / Re
    v = [(1 - g) * lam + g * gnielinski(4000., Pr, friction(x, E))
         for x in (Re_f, 4000. * s)]
    return min(v), max(v)


def quiet(fn, *a):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return fn(*a)


def near_limit(Re, d=1e-7):
    return abs(Re / 2300. - 1.) < d


def regime(Re, ctx):
    ctx.label('laminar' if Re < 2300 else 'transition' if Re < 4000
              else 'turbulent')
    if Re < 2000.:
        ctx.set_trivial('laminar')


def within(h, lo, hi, what, rtol=2e-5, **kw):
    h = scalar(h, what)
    require(lo * (1 - rtol) <= h <= hi * (1 + rtol), what, got=h,
            low=lo, high=hi, **kw)


@sub('C20', 'circular', flow(), 3000, 60000, shards=2)
def check_circular(c, ctx):
    regime(c['Re'], ctx)
    r, mu, Re = c['r'], c['mu'], c['Re']
    m = c['sign'] * Re * math.pi * r * mu / 2
    E = c['eps'] / (2 * r)
    Pr = c['cp'] * mu / c['k']
    f = scalar(quiet(F, m, r, mu, c['rho'], c['eps']), 'friction factor')
    if near_limit(Re):
        ctx.label('limit')
        return
    close(f, friction(Re, E), rtol=1e-5, what='friction factor')
    h = quiet(H, m, r, mu, c['rho'], c['k'], c['cp'], c['eps'])
    lo, hi = nusselt(Re, Pr, E, 3.66)
    within(h, lo * c['k'] / (2 * r), hi * c['k'] / (2 * r),
           'film coefficient of a circular pipe', Re=Re, Pr=Pr)
    # a tighter tolerance is honoured
    f = quiet(F, m, r, mu, c['rho'], c['eps'], 1e-12)
    close(f, friction(Re, E), rtol=1e-10, what='friction factor, tight')
    # density plays no part at a given mass flow rate
    f2 = quiet(F, m, r, mu, 2. * c['rho'], c['eps'])
    close(f2, friction(Re, E), rtol=1e-5, what='friction factor, density')


@sub('C20', 'continuity', flow(), 800, 20000)
def check_continuity(c, ctx):
    """The film coefficient does not jump at the limits of the transition."""
    r, mu = c['r'], c['mu']
    a = (mu, c['rho'], c['k'], c['cp'], c['eps'])
    x = c['r'] * 0.4
    for lim, tol in ((2300., 1e-4), (4000., 2e-4)):
        m = lim * math.pi * r * mu / 2
        h = [scalar(quiet(H, m * s, r, *a)) for s in (1 - 1e-7, 1 + 1e-7)]
        close(h[1], h[0], rtol=tol, what=f'film coefficient at Re={lim}')
        m = lim * math.pi * (r + x) * mu / 2
        for i in (0, 1):
            h = [scalar(quiet(HA, m * s, x, r, *a)[i])
                 for s in (1 - 1e-7, 1 + 1e-7)]
            close(h[1], h[0], rtol=tol,
                  what=f'annulus film coefficient {i} at Re={lim}')
    h = scalar(quiet(H, 0., r, *a), 'film coefficient of fluid at rest')
    close(h, 3.66 * c['k'] / (2 * r), rtol=1e-9, what='fluid at rest')
    # more flow never cools less in turbulent flow
    hs = [scalar(quiet(H, R * math.pi * r * mu / 2, r, *a))
          for R in (4001., 6000., 1e4, 1e5)]
    require(all(q >= p for p, q in zip(hs, hs[1:])),
            'turbulent film coefficient increases with flow', h=hs)


@st.composite
def annulus(draw):
    c = draw(flow())
    c['x'] = draw(gen.f(0.1, 0.95))
    return c


@sub('C20', 'annulus', annulus(), 2500, 50000, shards=2)
def check_annulus(c, ctx):
    regime(c['Re'], ctx)
    ro, mu, Re = c['r'], c['mu'], c['Re']
    ri = c['x'] * ro
    m = c['sign'] * Re * math.pi * (ri + ro) * mu / 2
    D = 2 * (ro - ri)
    E, Pr = c['eps'] / D, c['cp'] * mu / c['k']
    h = quiet(HA, m, ri, ro, mu, c['rho'], c['k'], c['cp'], c['eps'])
    require(len(h) == 2, 'two coefficients', h=h)
    if near_limit(Re):
        return
    # Reynolds number of a circular pipe of the hydraulic diameter: used by
    # the library for the friction factor (known finding)
    Rc = 2 * abs(m) / (math.pi * (ro - ri) * mu)
    for v, lam, name in ((h[0], 3.66 + 1.2 * c['x']**-0.8, 'inner'),
                         (h[1], 3.66 + 1.2 * c['x']**0.5, 'outer')):
        v = scalar(v, f'{name} film coefficient')
        ok = False
        for R in [Re] if c.get('__known__') else [Re, Rc]:
            if near_limit(R):
                return
            lo, hi = nusselt(Re, Pr, E, lam, R)
            lo, hi = lo * c['k'] / D, hi * c['k'] / D
            ok = ok or lo * (1 - 2e-5) <= v <= hi * (1 + 2e-5)
        require(ok, f'{name} film coefficient of an annulus', got=v,
                low=lo, high=hi, Re=Re)


@st.composite
def assembly(draw):
    c = {'fluid': draw(st.sampled_from(['Water', 'MPG', 'MEG', 'MMA', 'MEA'])),
         'pct': draw(gen.f(11., 30.)), 'T': draw(gen.f(5., 30.)),
         'Re': draw(reynolds), 'sign': draw(st.sampled_from([1., 1., -1.])),
         'eps': draw(st.sampled_from([0., 1e-6, 1e-5])),
         'type': draw(st.sampled_from([t.name for t in T]))}
    r = draw(gen.f(0.008, 0.02))
    w = [draw(gen.f(0.05, 0.4)) for _ in range(3)]
    c['k_p'] = [draw(gen.logf(0.1, 20.)), draw(gen.logf(0.1, 20.))]
    # inner pipe (r, r1), annulus up to r2, outer pipe up to r3
    c['r'] = [r, r * (1 + w[0]), r * (1 + w[0] + w[1]),
              r * (1 + w[0] + w[1] + w[2])]
    c['as'] = draw(st.sampled_from(['array', 'list', 'tuple']))
    return c


@sub('C20', 'assembly', assembly(), 1500, 30000, shards=2)
def check_assembly(c, ctx):
    ctx.label(c['type'], c['fluid'])
    fl = quiet(gt.media.Fluid, c['fluid'], c['pct'], c['T'])
    r, Re, eps = c['r'], c['Re'], c['eps']
    t = T[c['type']]
    k = c['k_p']
    f = (fl.mu, fl.rho, fl.k, fl.cp, eps)
    args = None
    if c['type'].startswith('COAXIAL'):
        m = c['sign'] * Re * math.pi * (r[1] + r[2]) * fl.mu / 2
        a_in, a_out = quiet(HA, m, r[1], r[2], *f)
        h_in = quiet(H, m, r[0], *f)
        wall = math.log(r[3] / r[2]) / (2 * math.pi * k[1])
        fp = wall + 1. / (2 * math.pi * r[2] * a_out)
        ff = 1. / (2 * math.pi * r[0] * h_in) \
            + math.log(r[1] / r[0]) / (2 * math.pi * k[0]) \
            + 1. / (2 * math.pi * r[1] * a_in)
        r_in, r_out, kp = [r[0], r[2]], [r[1], r[3]], list(k)
        if c['type'] == 'COAXIAL_ANNULAR_IN':
            r_in, r_out, kp = r_in[::-1], r_out[::-1], kp[::-1]
        cv = {'array': np.array, 'list': list, 'tuple': tuple}[c['as']]
        args = (t, m, cv(r_in), cv(r_out), cv(kp), eps, fl)
        close(scalar(quiet(P.fluid_to_fluid_thermal_resistance, *args)), ff,
              rtol=1e-9, what='fluid-to-fluid resistance')
    else:
        n = 2 if c['type'] == 'DOUBLE_UTUBE_PARALLEL' else 1
        m = c['sign'] * Re * math.pi * r[0] * fl.mu / 2 * n
        h = quiet(H, m / n, r[0], *f)
        fp = math.log(r[1] / r[0]) / (2 * math.pi * k[0]) \
            + 1. / (2 * math.pi * r[0] * h)
        args = (t, m, r[0], r[1], k[0], eps, fl)
        raises(ValueError, lambda: quiet(
            P.fluid_to_fluid_thermal_resistance, *args),
            'fluid-to-fluid resistance of a U-tube')
        # independent of any of the functions above
        E, Pr = eps / (2 * r[0]), fl.cp * fl.mu / fl.k
        if not near_limit(Re):
            lo, hi = nusselt(Re, Pr, E, 3.66)
            got = scalar(quiet(P.fluid_to_pipe_thermal_resistance, *args))
            film = got - math.log(r[1] / r[0]) / (2 * math.pi * k[0])
            within(film, 1. / (math.pi * hi * fl.k),
                   1. / (math.pi * lo * fl.k), 'film resistance', rtol=1e-4)
    R = scalar(quiet(P.fluid_to_pipe_thermal_resistance, *args))
    close(R, fp, rtol=1e-9, what='fluid-to-pipe resistance')
    R2 = scalar(quiet(P.fluid_to_pipe_thermal_resistance, t, -m, *args[2:]))
    close(R2, R, rtol=1e-12, what='reversed flow')
    close(scalar(quiet(RP, r[0], r[1], k[0])),
          math.log(r[1] / r[0]) / (2 * math.pi * k[0]), rtol=1e-12,
          what='conduction resistance')
    R12 = quiet(RP, np.array(r[:-1]), np.array(r[1:]), k[0])
    close(np.sum(R12), math.log(r[3] / r[0]) / (2 * math.pi * k[0]),
          rtol=1e-9, what='nested pipes')
