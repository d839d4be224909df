"""Running omtools models through OpenMDAO's public interface."""
import numpy as np

from vp import harness as Hn
from vp import prog as P


def new_problem(model, mode='auto', **kw):
    import openmdao.api as om
    prob = om.Problem(model=model)
    prob.setup(mode=mode, **kw)
    return prob


def get(prob, name):
    return np.array(prob.get_val(name))


def totals(prob, of, wrt):
    import openmdao.api as om
    krylov = [g.linear_solver for g in prob.model.system_iter(include_self=True, recurse=True)
              if isinstance(g.linear_solver, om.ScipyKrylov)]
    for k in krylov:
        k.options['err_on_non_converge'] = True
    try:
        r = prob.compute_totals(of=of, wrt=wrt, return_format='flat_dict')
    except om.AnalysisError:
        if krylov:
            # GMRES breaks down where rounding keeps the residual right above its tolerance
            raise Hn.Inconclusive('the Krylov solver says that it did not converge')
        raise
    finally:
        for k in krylov:
            k.options['err_on_non_converge'] = False
    return {(o, w): np.array(r[o, w]) for o in of for w in wrt}


def check_values(prob, prog, point, leafvals=None, tag=''):
    lv = leafvals or P.leaf_arrays(prog, point)
    want = P.ref_outputs(prog, lv)
    for n in P.live_leaves(prog):
        with Hn.real('reading %s' % n):
            g = get(prob, n)
        m = P.mismatch('input value ' + n, g, lv[n])
        if m:
            Hn.fail(tag + m)
    for n, w in want.items():
        with Hn.real('reading output %s' % n):
            g = get(prob, n)
        m = P.mismatch('value of ' + n, g, w)
        if m:
            Hn.fail(tag + m)


def check_jac(prob, prog, point, leafvals=None, tag=''):
    lv = leafvals or P.leaf_arrays(prog, point)
    of = [n for n, _ in P.outputs(prog)]
    wrt = P.live_leaves(prog)
    if not of or not wrt:
        return
    with Hn.real('computing total derivatives'):
        got = totals(prob, of, wrt)
    want = P.ref_jacobian(prog, lv, of, wrt)
    for k in want:
        m = P.mismatch('derivative of %s with respect to %s' % k, got[k], want[k], rtol=1e-6, atol=1e-8)
        if m:
            Hn.fail(tag + m)


def set_point(prob, prog, point):
    lv = P.leaf_arrays(prog, point)
    for n in P.live_leaves(prog):
        prob.set_val(n, lv[n])


def linear_solver(model, kind):
    import openmdao.api as om
    if kind in ('csc', 'dense'):
        model.linear_solver = om.DirectSolver(assemble_jac=True)
        model.options['assembled_jac_type'] = kind
    elif kind == 'direct':
        model.linear_solver = om.DirectSolver(assemble_jac=False)
    elif kind == 'krylov':
        model.linear_solver = om.ScipyKrylov(maxiter=2000, atol=1e-13, rtol=1e-13, iprint=-1)
    elif kind == 'gs':
        model.linear_solver = om.LinearBlockGS(maxiter=3, iprint=-1)


def check_program(case, values=True, derivs=True):
    """Build case['prog'] as an omtools group, run at both input points."""
    import omtools.api as ot
    prog = case['prog']
    with Hn.real('building and running a valid model'):
        model = P.make_group(ot, prog, **({'reverse_branch_sorting': True} if case.get('rev') else {}))
        linear_solver(model, case.get('lin'))
        prob = new_problem(model, case.get('mode', 'auto'))
        prob.run_model()
    for point in range(3):
        if point:
            with Hn.real('running at new input values'):
                set_point(prob, prog, point)
                prob.run_model()
        tag = 'run %d: ' % (point + 1)
        if values:
            check_values(prob, prog, point, tag=tag)
        if derivs and (min(point, 1) in case.get('dpoints', [0])):
            check_jac(prob, prog, point, tag=tag)
    return prob


def execution_order(prob):
    """Path names of the components, in the order in which they run."""
    from openmdao.api import Group
    order = []

    def walk(s):
        if isinstance(s, Group):
            for c in s.system_iter(include_self=False, recurse=False):
                walk(c)
        else:
            order.append(s.pathname)
    walk(prob.model)
    return order


def check_order(prob):
    """Every component runs after the components it reads from."""
    order = {n: i for i, n in enumerate(execution_order(prob))}
    conns = prob.model._conn_global_abs_in2out
    for tgt, src in conns.items():
        t, s = tgt.rsplit('.', 1)[0], src.rsplit('.', 1)[0]
        if s.startswith('_auto_ivc') or t == s:
            continue
        if order[s] > order[t]:
            Hn.fail('execution order: %s runs before %s, whose output %s it reads' % (t, s, src))
