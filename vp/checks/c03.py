from hypothesis import strategies as st
from vp import harness as Hn
from vp import hier, omrun, strat
from vp import prog as P

ID = 'C03'
EXAMPLES = {'quick': 6000, 'thorough': 40000}
RULE = ('a case is a generated program (sharing, dead branches, late registration, both branch sorting '
        'orders, sometimes nested groups), whose execution order is compared with its data flow; non-trivial: '
        'at least four operations and an expression used more than once')
OPS = ['add', 'sub', 'mul', 'sin', 'tanh', 'mulc', 'addc', 'average', 'sum', 'cos', 'index', 'assign', 'define', 'add',
       'sub', 'neg', 'reshape', 'wide', 'dot', 'expand', 'add', 'mulc', 'sin', 'if_else']


@st.composite
def cases(draw, nmax):
    G = P.Gen(draw)
    G.fill(OPS, G.i(2, nmax))
    case = strat.envelope(G, {'prog': G.finish()})
    if G.c([True, False, False]):
        hier.envelope(G, case, maxdepth=2)
    return case


def strategy(tier):
    return cases(24 if tier == 'quick' else 36)


def check_case(case):
    if 'plan' in case:
        prob, _ = hier.check(case, derivs=False)
    else:
        prob = omrun.check_program(case, values=True, derivs=False)
    omrun.check_order(prob)


def classify(case):
    out = strat.op_classes(case)
    if 'plan' in case:
        out |= hier.plan_kinds(case['plan'])
    if case['rev']:
        out.add('reverse-branch-sorting')
    if any(o['late'] for o in case['prog']['outs']):
        out.add('registered-late')
    return out


def nontrivial(case):
    nodes = case['prog']['nodes']
    uses = {}
    for n in nodes:
        for a in set(n['args']):
            uses[a] = uses.get(a, 0) + 1
    return len(nodes) >= 4 and any(v > 1 for v in uses.values())
