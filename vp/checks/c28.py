"""Models can be differentiated by complex step."""
import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import hier, omrun, strat
from vp import prog as P

ID = 'C28'
EXAMPLES = {'quick': 8200, 'thorough': 40000}
RULE = ('a case is a generated program (flat, or split over nested groups and stock components) whose derivatives are '
        'taken by complex step: over the whole model, over some of its groups, or component by component; non-trivial: '
        'some output depends on an input through at least two operations')


@st.composite
def cases(draw, nmax):
    G = P.Gen(draw)
    h = G.c([False, True])
    G.fill(strat.WEIGHTED + ['pnorm', 'rotmat', 'max', 'min'] + (['mulc', 'add', 'sin', 'mul'] * 3 if h else []), G.i(1, nmax))
    case = strat.envelope(G, {'prog': G.finish()})
    if h:
        hier.envelope(G, case, maxdepth=2, imp=False)
    case['how'] = G.c(['totals', 'totals', 'partials', 'partials'] + ['groups'] * (2 * h))
    case['which'] = [G.b() for _ in range(8)]
    return case


def strategy(tier):
    return cases(8 if tier == 'quick' else 14)


def check_case(case):
    import openmdao.api as om
    import omtools.api as ot
    prog = case['prog']
    how = case['how']
    with Hn.real('building and running a valid model'):
        if 'plan' in case:
            H = hier.Hier(ot, prog, case['plan'], case['late'], case.get('rev'))
            model = H.build()
            path = lambda n: H.path.get(n, n)
        else:
            model = P.make_group(ot, prog, **({'reverse_branch_sorting': True} if case.get('rev') else {}))
            path = lambda n: n
        prob = om.Problem(model=model)
        if how == 'totals':
            model.approx_totals(method='cs')
        prob.setup(mode=case['mode'], force_alloc_complex=True)
        if how == 'groups':
            subs = [s for s in model.system_iter(recurse=True, typ=om.Group)]
            for s, w in zip(subs, case['which']):
                if w:
                    s.approx_totals(method='cs')
        prob.run_model()
    leaves = hier.reachable_leaves(prog, H) if 'plan' in case else P.live_leaves(prog)
    outs = P.outputs(prog)
    of = [n for n, _ in outs]
    for point in [0, 1]:
        lv = P.leaf_arrays(prog, point)
        want = P.evaluate(prog, lv)
        if point:
            with Hn.real('running at new input values'):
                for n in leaves:
                    prob.set_val(n, lv[n])
                prob.run_model()
        tag = 'run %d: ' % (point + 1)
        for n, r in outs:
            d = P.mismatch('value of ' + n, omrun.get(prob, path(n)), want[r])
            if d:
                Hn.fail(tag + d)
        if not of or not leaves or point not in case['dpoints'] + [1]:
            continue
        if how == 'partials':
            with Hn.real('checking partial derivatives by complex step'):
                data = prob.check_partials(method='cs', out_stream=None)
            for comp, d in data.items():
                for (o, w), x in d.items():
                    m = P.mismatch('derivative of %s with respect to %s in %s by complex step' % (o, w, comp),
                                   np.array(x['J_fd']), np.array(x['J_fwd']), rtol=1e-6, atol=1e-8)
                    if m:
                        Hn.fail(tag + m)
        with Hn.real('computing total derivatives'):
            got = omrun.totals(prob, [path(n) for n in of], leaves)
        for (o, w), x in P.ref_jacobian(prog, lv, of, leaves).items():
            m = P.mismatch('derivative of %s with respect to %s' % (o, w), got[path(o), w], x, rtol=1e-6, atol=1e-8)
            if m:
                Hn.fail(tag + m)
        # values are those of the same inputs afterwards
        for n, r in outs:
            d = P.mismatch('value of %s after computing derivatives' % n, omrun.get(prob, path(n)), want[r])
            if d:
                Hn.fail(tag + d)


def classify(case):
    return strat.op_classes(case) | {'how:' + case['how']} | \
        (hier.plan_kinds(case['plan']) if 'plan' in case else {'flat'})


def nontrivial(case):
    prog = case['prog']
    L = P.nleaf(prog)
    return len(prog['nodes']) >= 2 and any(a >= L for n in prog['nodes'] for a in n['args'])
