"""Total derivatives of a model equal the exact derivatives of its expressions."""
from hypothesis import strategies as st

from vp import harness as Hn
from vp import hier, omrun, strat
from vp import prog as P

ID = 'C02'
EXAMPLES = {'quick': 7500, 'thorough': 60000}
RULE = ('a case is a generated program (flat, or split over nested groups and stock components), a derivative mode and '
        'the input points where derivatives are taken; non-trivial: some output depends on an input through at least '
        'two operations')


@st.composite
def cases(draw, nmax):
    G = P.Gen(draw)
    h = G.c([False, False, True])
    G.fill(strat.WEIGHTED + (['mulc', 'add', 'sin', 'mul'] * 3 if h else []), G.i(1, nmax))
    case = strat.envelope(G, {'prog': G.finish()})
    if h:
        hier.envelope(G, case, maxdepth=2)
    else:
        case['sub'] = G.c([False, False, True])
        case['lin'] = G.c(['', '', 'csc', 'dense', 'direct', 'krylov', 'gs'])
    return case


def strategy(tier):
    return cases(10 if tier == 'quick' else 18)


def check_case(case):
    if 'plan' in case:
        hier.check(case, derivs=True)
        return
    prob = omrun.check_program(case, values=False, derivs=True)
    prog = case['prog']
    if case.get('sub'):
        # derivatives of one output with respect to one input, in isolation
        of = [n for n, _ in P.outputs(prog)]
        wrt = P.live_leaves(prog)
        if of and wrt:
            lv = P.leaf_arrays(prog, 2)      # where check_program ends
            o, w = of[case['hash'] % len(of)], wrt[case['hash'] // 7 % len(wrt)]
            with Hn.real('computing total derivatives'):
                g = omrun.totals(prob, [o], [w])[o, w]
            m = P.mismatch('derivative of %s with respect to %s alone' % (o, w), g, P.ref_jacobian(prog, lv, [o], [w])[o, w],
                           rtol=1e-6, atol=1e-8)
            if m:
                Hn.fail(m)


def classify(case):
    return strat.op_classes(case) | (hier.plan_kinds(case['plan']) if 'plan' in case else {'flat', 'lin:' + case.get('lin', '')})


def nontrivial(case):
    prog = case['prog']
    L = P.nleaf(prog)
    return len(prog['nodes']) >= 2 and any(a >= L for n in prog['nodes'] for a in n['args'])
