"""Outputs of a model equal the mathematical meaning of its expressions."""
from vp import omrun, strat
from vp import prog as P

ID = 'C01'
EXAMPLES = {'quick': 10500, 'thorough': 120000}
RULE = ('a case is a generated program (operations of every kind composed into one DAG, with named outputs and two input '
        'points); non-trivial: at least two operations, at least one of which reads the result of another')


def strategy(tier):
    return strat.composite(16 if tier == 'quick' else 28)


def check_case(case):
    omrun.check_program(case, values=True, derivs=False)


def classify(case):
    return strat.op_classes(case)


def nontrivial(case):
    prog = case['prog']
    L = P.nleaf(prog)
    return len(prog['nodes']) >= 2 and any(a >= L for n in prog['nodes'] for a in n['args'])
