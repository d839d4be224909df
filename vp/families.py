"""Checks of one family of operations: values and derivatives of programs built around it."""
from vp import omrun, strat


def install(ns, ops, quick, thorough, **kw):
    ops = list(ops)

    def strategy(tier):
        k = dict(kw)
        k.setdefault('focus', (1, 3) if tier == 'quick' else (1, 5))
        k.setdefault('pre', (0, 2) if tier == 'quick' else (0, 3))
        return strat.focused(ops, **k)

    def nontrivial(case):
        return any(n['op'] in ops for n in case['prog']['nodes'])

    ns.update(EXAMPLES={'quick': quick, 'thorough': thorough}, strategy=strategy, nontrivial=nontrivial,
              classify=strat.op_classes, check_case=lambda case: omrun.check_program(case) and None)
