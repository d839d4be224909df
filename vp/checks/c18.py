import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import impl, omrun
from vp import prog as P

ID = 'C18'
EXAMPLES = {'quick': 680, 'thorough': 6000}
RULE = ('a case is a component of which some or all implicit outputs are bracketed, with brackets given as '
        'numbers, arrays or both; non-trivial: a residual has an output inside an operation')


@st.composite
def cases(draw, big):
    G = P.Gen(draw)
    case = impl.gen(G, True, big)
    mixed = impl.brackets(G, case)
    if not mixed and G.c([False, False, True]):
        case['maxiter'] = G.c([1, 2, 5, 10, 20, 60, 150])
    return case


def strategy(tier):
    return cases(tier != 'quick')


def check_case(case):
    impl.check(case)


def coarse(case, prob, path, want, point):
    """A limited number of bisections halves the bracket that often."""
    for s, w in zip(case['sys']['states'], case['width']):
        got = omrun.get(prob, path(s['name']))
        x = want[s['name']]
        tol = w * 0.5**(case['maxiter'] + 1) * (1 + 1e-6) + 1e-9 * max(1, np.max(np.abs(x)))
        if got.shape != x.shape or not np.all(np.abs(got - x) <= tol):
            Hn.fail('%s after %d bisections of a bracket of width %g: got %s, solution %s' % (
                s['name'], case['maxiter'], w, got.tolist(), x.tolist()))


def check_case(case):
    if case.get('maxiter', 100) < 50:
        impl.check(case, values=coarse)
    else:
        impl.check(case)


def classify(case):
    out = impl.classify(case)
    for s in case['sys']['states']:
        if s['br'] is None:
            out.add('unbracketed-state')
            continue
        a, b = s['br']
        out.add('bracket:%s,%s' % tuple('array' if isinstance(x, list) else 'scalar' for x in (a, b)))
        d = np.asarray(a) - np.asarray(b)
        if np.min(d) > 0:
            out.add('bracket-swapped')
        elif np.max(d) > 0:
            out.add('bracket-swapped-for-some')
    if 'maxiter' in case:
        out.add('maxiter:%d' % case['maxiter'])
    return out


def nontrivial(case):
    return any(s['br'] for s in case['sys']['states'])
