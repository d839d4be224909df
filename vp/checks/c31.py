"""Helpers: conversion factors between units, and training grids for surrogate models."""
import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import prog as P

ID = 'C31'
EXAMPLES = {'quick': 45000, 'thorough': 800000}
RULE = ('a case is a set of generated units of one dimension, whose conversion factors are compared with each other and with '
        'the definitions of the units (units), or generated samples of several inputs on a grid (grid); non-trivial: two '
        'different units, or at least two inputs with at least two samples')

# definition of each unit in the SI base units of its dimension
UNITS = {
    'length': {'meter': 1., 'm': 1., 'foot': .3048, 'ft': .3048, 'inch': .0254, 'mile': 1609.344, 'yard': .9144, 'km': 1e3,
               'mm': 1e-3, 'micrometer': 1e-6, 'nautical_mile': 1852.},
    'time': {'second': 1., 's': 1., 'minute': 60., 'hour': 3600., 'day': 86400., 'week': 604800., 'ms': 1e-3},
    'mass': {'kilogram': 1., 'kg': 1., 'gram': 1e-3, 'g': 1e-3, 'pound': .45359237, 'lb': .45359237, 'ounce': .45359237 / 16,
             'metric_ton': 1e3, 'mg': 1e-6},
    'force': {'newton': 1., 'N': 1., 'kN': 1e3, 'dyne': 1e-5, 'pound_force': .45359237 * 9.80665, 'lbf': .45359237 * 9.80665},
    'pressure': {'pascal': 1., 'Pa': 1., 'kPa': 1e3, 'bar': 1e5, 'atmosphere': 101325., 'MPa': 1e6},
    'energy': {'joule': 1., 'J': 1., 'kJ': 1e3, 'erg': 1e-7, 'watt_hour': 3600., 'kWh': 3.6e6, 'electron_volt': 1.602176634e-19},
    'power': {'watt': 1., 'W': 1., 'kW': 1e3, 'MW': 1e6},
    'angle': {'radian': 1., 'degree': np.pi / 180, 'turn': 2 * np.pi},
    'speed': {'knot': 1852. / 3600, 'mph': 1609.344 / 3600, 'kph': 1 / 3.6},
    'frequency': {'hertz': 1., 'Hz': 1., 'kHz': 1e3},
    'volume': {'liter': 1e-3, 'milliliter': 1e-6, 'gallon': .0254**3 * 231},
    'temperature': {'kelvin': 1., 'degR': 5 / 9},
}


@st.composite
def cases(draw):
    G = P.Draw(draw)
    if G.b():
        d = G.c(sorted(UNITS))
        return {'kind': 'units', 'dim': d, 'names': [G.c(sorted(UNITS[d])) for _ in range(3)],
                'other': G.c([''] + [G.c(sorted(UNITS[e])) for e in sorted(UNITS) if e not in (d, 'angle', 'frequency')])}
    n = G.i(1, 4)
    lens = [G.i(1, 4) for _ in range(n)]
    ins = [[G.i(-40, 40) / 8 for _ in range(k)] for k in lens]
    return {'kind': 'grid', 'ins': ins, 'ny': G.c([1, 1, 2, 3]), 'flat': G.b(), 'last': G.b(), 'lists': G.b()}


def strategy(tier):
    return cases()


def close(what, got, want):
    if not isinstance(got, (int, float, np.number)) or not abs(got - want) <= 1e-9 * abs(want):
        Hn.fail('%s is %r, not %r' % (what, got, want))


def check_units(case):
    from omtools.utils.units import units
    u = UNITS[case['dim']]
    a, b, c = case['names']
    f = {}
    for x, y in ((a, b), (b, a), (b, c), (a, c)):
        with Hn.real('converting %s to %s' % (y, x)):
            f[x, y] = units(x, y)
        close('one %s in %s' % (y, x), f[x, y], u[y] / u[x])
    close('there and back', f[a, b] * f[b, a], 1.)
    close('one %s in %s in two steps' % (c, a), f[a, b] * f[b, c], f[a, c])
    if case['other']:
        try:
            r = units(a, case['other'])
        except Exception:
            return
        Hn.fail('%s is converted to %s, by %r' % (case['other'], a, r))


def check_grid(case):
    from omtools.utils.structure_data import structure_data
    ins = [np.array(x) for x in case['ins']]
    lens = [len(x) for x in ins]
    pts = np.stack(np.meshgrid(*ins, indexing='ij'), -1).reshape(-1, len(ins))

    def values(x):
        return np.stack([np.sin((k + 1) * x @ np.arange(1., len(ins) + 1)) + x[..., 0] for k in range(case['ny'])], -1)
    shape = [int(np.prod(lens))] if case['flat'] else lens
    out = values(pts).reshape(shape + [case['ny']])
    if case['ny'] == 1 and case['last']:
        out = out.reshape(shape)
    given = [x.tolist() if case['lists'] else x.copy() for x in ins]
    keep = out.copy()
    with Hn.real('structuring data'):
        xt, lim = structure_data(given, out, case['ny']) if case['ny'] != 1 else structure_data(given, out)
    xt, lim = np.asarray(xt), np.asarray(lim)
    if xt.shape != pts.shape:
        Hn.fail('points have shape %s, not %s' % (xt.shape, pts.shape))
    # each row is the point at which the row of the output was sampled
    d = P.mismatch('output at the points', values(xt), out.reshape(len(pts), case['ny']))
    if d:
        Hn.fail(d)
    if not np.array_equal(xt, pts):
        Hn.fail('points are not those of the grid: %s' % xt.tolist())
    if lim.shape != (len(ins), 2):
        Hn.fail('limits have shape %s' % (lim.shape,))
    for i, x in enumerate(ins):
        if not (lim[i, 0] <= x.min() and lim[i, 1] >= x.max()):
            Hn.fail('limits %s of input %d do not enclose its samples' % (lim[i], i))
    if not np.array_equal(out, keep) or any(not np.array_equal(x, y) for x, y in zip(given, ins)):
        Hn.fail('the samples were modified')


def check_case(case):
    check_units(case) if case['kind'] == 'units' else check_grid(case)


def classify(case):
    if case['kind'] == 'units':
        return {'units:' + case['dim']}
    return {'grid:%d' % len(case['ins']), 'ny:%d' % case['ny']}


def nontrivial(case):
    if case['kind'] == 'units':
        return len(set(case['names'])) > 1
    return sum(len(x) > 1 for x in case['ins']) > 1
