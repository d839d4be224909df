"""Outputs defined in terms of themselves."""
import numpy as np
from hypothesis import strategies as st

from vp import fix
from vp import harness as Hn
from vp import omrun
from vp import prog as P

ID = 'C16'
EXAMPLES = {'quick': 2700, 'thorough': 40000}
RULE = ('a case is a system of outputs defined in terms of themselves and each other (contractions with known '
        'fixed point, and square roots), with initial values, solvers and surroundings; non-trivial: some '
        'output depends on itself or another')


@st.composite
def cases(draw, big):
    G = P.Gen(draw)
    kind = G.c(['converge', 'converge', 'steps', 'sqrt'])
    if kind == 'sqrt':
        s = G.newshape((1, 2), 4)
        G.newleaf(s, 'pos')
        n = int(np.prod(s))
        v0 = [G.c([1., 2., 0.5, 4.]) for _ in range(n)]
        sign = G.c([1, -1])
        if sign < 0:
            v0 = [-x for x in v0]
        if G.c([False, True]):
            v0 = v0[0]
        case = {'sys': {'prog': G.finish(), 'states': [{'name': 's0', 'shape': list(s), 'v0': v0, 'terms': [], 'b': 0}]},
                'sign': sign}
    else:
        n = G.c([1, 1, 2, 3] if kind == 'converge' else [1, 2])
        states = fix.gen(G, n, coupled=kind == 'converge', nbase=(0, 6 if big else 4))
        case = {'sys': fix.finish(G, states)}
    case['kind'] = kind
    case['where'] = G.c(['flat', 'with', 'cls'])
    case['share'] = G.b()
    case['post'] = G.b()
    case['solver'] = G.c(['gs', 'gs', 'newton'])
    case['lin'] = G.c(['direct', 'krylov', 'gs', 'direct'])
    case['mode'] = G.c(['fwd', 'rev'])
    if case['solver'] == 'newton':
        # Newton's method converges from anywhere when the slopes are bounded (0.25), and
        # when the nonlinear inner expressions are evaluated outside of the group
        if kind == 'sqrt':
            case['solver'] = 'gs'
        else:
            case['where'] = G.c(['with', 'cls'])
            for s in case['sys']['states']:
                for t in s['terms']:
                    t['w'] *= 0.4
    case['hash'] = G.i(0, 1000)
    case['runs'] = G.i(1, 3)
    return case


def strategy(tier):
    return cases(tier != 'quick')


def model(case):
    import openmdao.api as om
    import omtools.api as ot
    sys = case['sys']
    prog = sys['prog']
    L = P.nleaf(prog)
    names = {}

    def solvers(g):
        if case['kind'] == 'steps':
            return
        if case['solver'] == 'gs':
            g.nonlinear_solver = om.NonlinearBlockGS(maxiter=300, atol=1e-13, rtol=1e-14, iprint=-1)
        else:
            g.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=100, atol=1e-13, rtol=1e-14, iprint=-1)
            g.linear_solver = om.DirectSolver()
        if case['lin'] == 'direct' or case['solver'] == 'newton':
            g.linear_solver = om.DirectSolver()
        elif case['lin'] == 'krylov':
            g.linear_solver = om.ScipyKrylov(maxiter=500, atol=1e-13, rtol=1e-13, iprint=-1)
        else:
            g.linear_solver = om.LinearBlockGS(maxiter=500, atol=1e-13, rtol=1e-14, iprint=-1)

    def write(g, exprs):
        xs = [g.create_output(s['name'], shape=tuple(s['shape']),
                              val=np.asarray(s['v0']).reshape(s['shape']) if isinstance(s['v0'], list) else s['v0'])
              for s in sys['states']]
        if case['kind'] == 'sqrt':
            x = xs[0]
            x.define(0.5 * (x + exprs[0] / x))
        else:
            for k, s in enumerate(sys['states']):
                keep = []
                e = fix.rhs(ot, s, xs, exprs, keep)
                if case['share'] and keep:
                    # an expression in terms of the output is an output, too
                    g.register_output('f%d' % k, keep[0][1])
                    names['f%d' % k] = (k, keep[0][0])
                xs[k].define(e)
        solvers(g)

    def setup(top):
        exprs = {}
        for i, l in enumerate(prog['leaves']):
            exprs[i] = P.declare_leaf(top, l)
        if case['where'] == 'flat':
            fix.nodes(top, ot, prog, exprs)
            write(top, exprs)
            return
        fix.nodes(top, ot, prog, exprs)
        used = fix.used_refs(sys)
        v = P.evaluate(prog, P.leaf_arrays(prog))
        for r in used:
            if r >= L:
                top.register_output('q%d' % r, exprs[r])

        def inner(g):
            ie = {}
            for r in sorted(used):
                if r < L:
                    ie[r] = g.declare_input(prog['leaves'][r]['name'], shape=v[r].shape,
                                            val=np.asarray(prog['leaves'][r]['v'][0]).reshape(v[r].shape))
                else:
                    ie[r] = g.declare_input('q%d' % r, shape=v[r].shape)
            write(g, ie)
        if case['where'] == 'with':
            with top.create_group('cyc') as g:
                inner(g)
        else:
            top.add_subsystem('cyc', type('Cyc', (ot.Group,), {'setup': inner})(), promotes=['*'])
        if case['post']:
            for s in sys['states']:
                x = top.declare_input(s['name'], shape=tuple(s['shape']))
                top.register_output('p_' + s['name'], ot.sin(x) * 2. + x)
                names['p_' + s['name']] = s['name']
    return type('Top', (ot.Group,), {'setup': setup})(), names


def further(case, names):
    sys = case['sys']

    def fn(xs, vals):
        r = {s['name']: x for s, x in zip(sys['states'], xs)}
        for n, d in names.items():
            if n.startswith('p_'):
                r[n] = np.sin(r[d]) * 2. + r[d]
            else:
                k, t = d
                s = sys['states'][k]
                x = xs[t['j']]
                if t['via'] == 'avg':
                    x = np.ones(tuple(s['shape'])) * np.mean(x)
                x = t['c'] * x
                if t['e'] is not None:
                    x = x + vals[t['e']]
                r[n] = fix.F[t['f']](x)
        return r
    return fn


def live(case):
    """Names of leaves which are part of the model"""
    sys = case['sys']
    prog = sys['prog']
    L = P.nleaf(prog)
    if case['where'] == 'flat' or True:
        seen, stack = set(), list(fix.used_refs(sys))
        while stack:
            r = stack.pop()
            if r not in seen:
                seen.add(r)
                if r >= L:
                    stack += prog['nodes'][r - L]['args']
    return [l['name'] for i, l in enumerate(prog['leaves']) if i in seen or l['kind'] == 'indep']


def check_case(case):
    sys = case['sys']
    prog = sys['prog']
    with Hn.real('building a valid cyclic model'):
        m, names = model(case)
        prob = omrun.new_problem(m, case['mode'])
        prob.final_setup()
    leaves = live(case)
    if case['kind'] == 'steps':
        # without a solver every run is one step from the initial value
        vals = P.evaluate(prog, P.leaf_arrays(prog))
        xs = [fix.start(s) for s in sys['states']]
        for r in range(case['runs']):
            with Hn.real('running the model'):
                prob.run_model()
            xs = [fix.step(sys, k, xs, vals) for k in range(len(xs))]
            for s, x in zip(sys['states'], xs):
                d = P.mismatch('%s after %d steps from its initial value' % (s['name'], r + 1), omrun.get(prob, s['name']), x)
                if d:
                    Hn.fail(d)
        return
    for point in range(2):
        lv = P.leaf_arrays(prog, point)
        if point:
            for n in leaves:
                prob.set_val(n, lv[n])
        with Hn.real('running the model'):
            prob.run_model()
        if case['kind'] == 'sqrt':
            a = lv[prog['leaves'][0]['name']]
            want = {'s0': case['sign'] * np.sqrt(a)}
            jac = {('s0', prog['leaves'][0]['name']): np.diag((case['sign'] * 0.5 / np.sqrt(a)).reshape(-1))}
            if 'p_s0' in names:
                want['p_s0'] = np.sin(want['s0']) * 2. + want['s0']
            leaves = [prog['leaves'][0]['name']]
        else:
            fn = further(case, names)
            want = {k: v.real for k, v in fix.reference(sys, lv, fn).items()}
            jac = None
        for n, w in want.items():
            d = P.mismatch('value of ' + n, omrun.get(prob, n), w, rtol=1e-6, atol=1e-8)
            if d:
                Hn.fail('run %d: %s' % (point + 1, d))
        if point == 1 or not leaves:
            continue
        of = [k for k in want if k != 'p_s0' or jac is None]
        if jac is None:
            jac = fix.ref_jac(sys, lv, of, leaves, fn)
        with Hn.real('computing total derivatives'):
            got = omrun.totals(prob, of, leaves)
        for k, w in jac.items():
            d = P.mismatch('derivative of %s with respect to %s' % k, got[k], w, rtol=1e-5, atol=1e-7)
            if d:
                Hn.fail(d)


def classify(case):
    out = {'kind:' + case['kind'], 'where:' + case['where'], 'solver:' + case['solver'],
           'states:%d' % len(case['sys']['states'])}
    for k, s in enumerate(case['sys']['states']):
        if any(t['j'] != k for t in s['terms']):
            out.add('coupled')
        if sum(t['j'] == k for t in s['terms']) > 1:
            out.add('several-uses')
        if isinstance(s['v0'], float):
            out.add('scalar-initial-value')
    if case['share']:
        out.add('shared-inner-expression')
    return out


def nontrivial(case):
    return case['kind'] == 'sqrt' or any(s['terms'] for s in case['sys']['states'])
