"""C21: fluid properties are consistent for every mixture."""
import warnings

import numpy as np
import pygfunction as gt
from hypothesis import strategies as st
from scp.ethyl_alcohol import EthylAlcohol
from scp.ethylene_glycol import EthyleneGlycol
from scp.methyl_alcohol import MethylAlcohol
from scp.propylene_glycol import PropyleneGlycol
from scp.water import Water

from pbt import gen
from pbt.harness import close, describe, raises, require, scalar, sub

describe('C21', (
    'Drawn fluids under every accepted name and case, concentrations and '
    'temperatures in and out of range; properties are compared with the '
    'underlying correlations, with identities between properties and '
    'between attributes and methods. Trivial when out of range.'),
    ['the correlations of the scp package are taken as the definition of '
     'each property'])

KIND = {
    'WATER': lambda x: Water(),
    'MPG': PropyleneGlycol, 'PROPYLENEGLYCOL': PropyleneGlycol,
    'MEG': EthyleneGlycol, 'ETHYLENEGLYCOL': EthyleneGlycol,
    'MMA': MethylAlcohol, 'METHYLALCOHOL': MethylAlcohol,
    'MEA': EthylAlcohol, 'ETHYLALCOHOL': EthylAlcohol}
FAMILY = {'WATER': ['WATER'], 'MPG': ['MPG', 'PROPYLENEGLYCOL'],
          'MEG': ['MEG', 'ETHYLENEGLYCOL'], 'MMA': ['MMA', 'METHYLALCOHOL'],
          'MEA': ['MEA', 'ETHYLALCOHOL']}
FLUID = gt.media.Fluid


@st.composite
def mixture(draw):
    name = draw(st.sampled_from(sorted(KIND)))
    c = {'name': name, 'pct': draw(st.sampled_from([10., 20., 25.]) |
                                   gen.f(0., 60.)),
         'T': draw(st.sampled_from([0., 5., 20., 40.]) | gen.f(-10., 60.)),
         'case': draw(st.sampled_from(['upper', 'lower', 'title']))}
    return c


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


def spell(c):
    return getattr(c['name'], c['case'])()


def made(c):
    return quiet(FLUID, spell(c), c['pct'], c['T'])


ATTR = {'rho': 'density', 'mu': 'dynamic_viscosity',
        'nu': 'kinematic_viscosity', 'cp': 'specific_heat_capacity',
        'rhoCp': 'volumetric_heat_capacity', 'k': 'thermal_conductivity',
        'Pr': 'Prandlt_number'}


@sub('C21', 'properties', mixture(), 3000, 60000, shards=2)
def check_properties(c, ctx):
    ctx.label(c['name'])
    f = made(c)
    s = quiet(KIND[c['name']], c['pct'] / 100)
    if not s.t_min <= c['T'] <= s.t_max or (
            hasattr(s, 'x') and abs(s.x - c['pct'] / 100) > 1e-12):
        ctx.set_trivial('out of range')
    want = {'rho': quiet(s.density, c['T']), 'mu': quiet(s.viscosity, c['T']),
            'cp': quiet(s.specific_heat, c['T']),
            'k': quiet(s.conductivity, c['T'])}
    want['nu'] = want['mu'] / want['rho']
    want['rhoCp'] = want['rho'] * want['cp']
    want['Pr'] = want['cp'] * want['mu'] / want['k']
    for a, meth in ATTR.items():
        v = scalar(getattr(f, a), a)
        require(v > 0., f'{a} is positive', value=v)
        close(v, want[a], rtol=1e-12, what=a)
        close(scalar(quiet(getattr(f, meth)), meth), v, rtol=1e-12,
              what=f'{meth}() and .{a}')
    close(f.nu * f.rho, f.mu, rtol=1e-12, what='mu = nu rho')
    close(f.rho * f.cp, f.rhoCp, rtol=1e-12, what='rhoCp = rho cp')
    close(f.Pr * f.k, f.cp * f.mu, rtol=1e-12, what='Pr k = cp mu')
    close(f.T_C, c['T'], what='temperature kept')
    require(isinstance(repr(f), str) and str(f.rho) in repr(f), 'repr')


@sub('C21', 'names', mixture(), 500, 10000)
def check_names(c, ctx):
    """All names of a fluid are the same fluid, and fluids differ."""
    ctx.label(c['name'])
    f = made(c)
    fam = next(k for k, v in FAMILY.items() if c['name'] in v)
    for n in FAMILY[fam]:
        g = quiet(FLUID, n, c['pct'], c['T'])
        require(g.name == f.name, 'same fluid under both names')
        for a in ATTR:
            close(getattr(g, a), getattr(f, a), rtol=0., what=f'{a} of {n}')
    if not 12. < c['pct'] < 50. or not 1. < c['T'] < 40.:
        ctx.set_trivial('limits')
    else:
        for k in FAMILY:
            if k != fam:
                g = quiet(FLUID, k, c['pct'], c['T'])
                require(g.name != f.name and any(
                    abs(getattr(g, a) / getattr(f, a) - 1.) > 1e-6
                    for a in ('rho', 'mu', 'cp', 'k')),
                    f'{k} differs from {fam}')
    for bad in (c['name'] + 'X', c['name'][:-1], '', ' ' + c['name']):
        raises(ValueError, lambda: quiet(FLUID, bad, c['pct']),
               f'name "{bad}"')
    # the default temperature is 20 degrees
    g, h = quiet(FLUID, c['name'], c['pct']), \
        quiet(FLUID, c['name'], c['pct'], 20.)
    for a in ('T_C', *ATTR):
        close(getattr(g, a), getattr(h, a), rtol=0., what=f'default {a}')


@st.composite
def sweep(draw):
    c = draw(mixture())
    c['pct'] = draw(gen.f(12., 40.))
    c['T'] = draw(gen.f(0.5, 40.))
    return c


@sub('C21', 'continuity', sweep(), 500, 10000)
def check_continuity(c, ctx):
    ctx.label(c['name'])
    f = made(c)
    for d in ({'T': c['T'] + 1e-4}, {'pct': c['pct'] + 1e-4},
              {'T': c['T'] - 1e-4}, {'pct': c['pct'] - 1e-4}):
        g = made(dict(c, **d))
        for a in ATTR:
            close(getattr(g, a), getattr(f, a), rtol=1e-4,
                  what=f'{a} is continuous', near=d)
    w, m = made(dict(c, T=c['T'] + 2.)), made(dict(c, T=c['T'] - 0.4))
    require(w.mu < m.mu and w.rho < m.rho,
            'warmer fluid is lighter and less viscous'
            ) if c['T'] > 5. else None


@sub('C21', 'tables', st.lists(mixture(), min_size=1, max_size=4), 300, 5000)
def check_tables(cs, ctx):
    """Rows appended to a table are the properties of each fluid in turn."""
    d = {}
    fl = [made(c) for c in cs]
    if len({str(c) for c in cs}) < 2:
        ctx.set_trivial('one fluid')
    for f in fl:
        quiet(f.append_to_dict, d)
    for a in ('T_C', *ATTR):
        require(a in d and len(d[a]) == len(fl), f'column {a}',
                keys=sorted(d))
        for f, s in zip(fl, d[a]):
            close(float(s), getattr(f, a), rtol=1e-5, atol=1e-12,
                  what=f'{a} in table')
