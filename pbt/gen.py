"""Strategies.  Everything drawn is plain data (JSON-able)."""
import math

from hypothesis import strategies as st


def f(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False)


def logf(lo, hi):
    """Log-uniform-ish float."""
    a, b = math.log(lo), math.log(hi)
    return f(0., 1.).map(
        lambda x: min(max(math.exp(a + x * (b - a)), lo), hi))


def nice(lo, hi, step):
    """Multiples of `step` mixed with arbitrary floats."""
    n0, n1 = int(math.ceil(lo / step)), int(math.floor(hi / step))
    return st.one_of(st.integers(n0, n1).map(lambda k: k * step), f(lo, hi))


# units of time: seconds, mostly, or hours or years
unit = st.sampled_from([1., 1., 1., 3600., 3.156e7])
alpha = st.builds(lambda a, u: a * u, logf(2e-7, 3e-6), unit)
r_b = st.one_of(st.sampled_from([0.05, 0.075, 0.1]), f(0.03, 0.25))
length = st.one_of(st.sampled_from([50., 100., 150.]), f(2., 400.))
depth = st.one_of(st.sampled_from([0., 0.5, 1., 2., 4.]), f(0., 30.))
tilt = st.one_of(st.sampled_from([math.pi / 9, math.pi / 6, math.pi / 4]),
                 f(0.01, 1.4))
angle = st.one_of(st.sampled_from([k * math.pi / 4 for k in range(-4, 9)]),
                  f(-math.pi, 2 * math.pi))
bools = st.booleans()


# where the origin of coordinates is: near the boreholes, or that of a map
shift = st.one_of(f(-50., 50.), f(-50., 50.), f(-50., 50.),
                  st.sampled_from([497311.37, 4921876.41, -3e4, 1e3]))


def time_of(H, lo=-12., hi=5.):
    """ln(t/ts) uniform, given the length that sets the time scale; the case
    stores ln(t/ts)."""
    return f(lo, hi)


def ts(H, alpha):
    return H**2 / (9. * alpha)


@st.composite
def layout(draw, nmin=1, nmax=6, spacing=(3., 12.), grid=True):
    """Distinct well-separated (>= spacing[0]) head positions."""
    n = draw(st.integers(nmin, nmax))
    B = draw(st.one_of(st.sampled_from([5., 6., 7.5]), f(*spacing)))
    kind = draw(st.sampled_from(['grid', 'line', 'jitter', 'sparse']))
    cells = [(i, j) for i in range(4) for j in range(4)]
    if kind == 'line':
        pos = [(i * B, 0.) for i in range(n)]
    else:
        pick = draw(st.permutations(cells))[:n]
        if kind == 'grid':
            pick = sorted(pick)
        pos = [(i * B, j * B) for i, j in pick]
        if kind == 'jitter':
            pos = [(x + draw(f(-0.2, 0.2)) * B, y + draw(f(-0.2, 0.2)) * B)
                   for x, y in pos]
        elif kind == 'sparse':
            s = draw(f(1., 4.))
            pos = [(x * s, y * s) for x, y in pos]
    # the field is anywhere: from the origin of coordinates, around it, beyond
    # it, or on a map
    ox, oy = draw(st.sampled_from([(0., 0.)] * 5 + [
        (-1.5 * B, -1.5 * B), (-20. * B, 3. * B), (497311.37, 4921876.41)]))
    return [[float(x + ox), float(y + oy)] for x, y in pos]


def apart(values, lo=1e-12, hi=1e-5):
    """No two of the values differ by a relative amount between lo and hi:
    nearer than hi, results may be shared, nearer than lo they are equal."""
    v = sorted(abs(float(x)) for x in values)
    return all(not lo * b < b - a < hi * b for a, b in zip(v, v[1:]))
