from hypothesis import strategies as st
from vp import hier, strat
from vp import prog as P

ID = 'C19'
EXAMPLES = {'quick': 5600, 'thorough': 24000}
RULE = ('a case is a program written flat and split by a generated plan into nested groups, classes, '
        'components and executed statements; non-trivial: at least one nested level and two operations')


@st.composite
def cases(draw, nmax):
    G = P.Gen(draw)
    G.fill(strat.WEIGHTED + ['mulc', 'add', 'sin', 'mul'] * 4, G.i(2, nmax))
    return hier.envelope(G, strat.envelope(G, {'prog': G.finish()}))


def strategy(tier):
    return cases(10 if tier == 'quick' else 16)


def check_case(case):
    hier.check(case)


def classify(case):
    return strat.op_classes(case) | hier.plan_kinds(case['plan']) | ({'late-indep'} if case['late'] else set())


def nontrivial(case):
    return any('plan' in s or s['k'] == 'exec' for s in case['plan']) and len(case['prog']['nodes']) >= 2
