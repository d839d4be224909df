from hypothesis import strategies as st

from vp import impl
from vp import prog as P

ID = 'C17'
EXAMPLES = {'quick': 1800, 'thorough': 12000}
RULE = ('a case is a component of implicit outputs with residuals c*(x - g(x, e)) or c*(x**2 - e), optionally '
        'with constants computed inside, in generated surroundings and with generated solvers; non-trivial: a '
        'residual depends on an output through an operation')


@st.composite
def cases(draw, big):
    return impl.gen(P.Gen(draw), False, big)


def strategy(tier):
    return cases(tier != 'quick')


def check_case(case):
    impl.check(case)


classify = impl.classify


def nontrivial(case):
    return case['kind'] == 'root' or any(s['terms'] for s in case['sys']['states'])
