"""Models with an ImplicitComponent whose residuals are c * (x - g(x, e)), or c * (x**2 - e)."""
import numpy as np

from vp import fix
from vp import harness as Hn
from vp import omrun
from vp import prog as P

BASE = fix.BASEOPS + ['assign', 'sub', 'dot']


def gen(G, bracketed, big):
    kind = G.c(['system', 'system', 'system', 'root'])
    case = {'kind': kind}
    const = None
    if kind == 'root':
        s = G.newshape((1, 2), 4)
        G.newleaf(s, 'pos')
        n = int(np.prod(s))
        sign = G.c([1, -1])
        v0 = [sign * G.c([1., 2., 0.5, 4.]) for _ in range(n)]
        if G.c([False, True]):
            v0 = v0[0]
        if bracketed:
            v0 = G.c([1., -1., 3.])
        case['sign'] = sign
        b = 0
        # e may be computed from the leaf
        states = [{'name': 's0', 'shape': list(s), 'v0': v0, 'terms': [], 'b': b}]
    else:
        n = G.c([1, 2, 1, 3]) if not bracketed else G.c([1, 1, 2])
        fix.BASEOPS, keep = BASE, fix.BASEOPS
        try:
            states = fix.gen(G, n, elementwise=bracketed, coupled=not bracketed, nbase=(0, 6 if big else 4))
        finally:
            fix.BASEOPS = keep
        if not bracketed:
            for s in states:
                for t in s['terms']:
                    t['w'] *= 0.4
    for s in states:
        s['c'] = G.c([1., -1., 2., -0.5, 3.])
        if G.c([False, False, True]):       # elements of the residual scaled one by one
            s['c'] = [G.c([1., -1., 2., -0.5, 3.]) for _ in range(int(np.prod(s['shape'])))]
    # which leaves are constants, computed by a subsystem of the component
    case['sys'] = sys = fix.finish(G, states)
    for l in sys['prog']['leaves']:
        l['inner'] = kind != 'root' and G.c([False, False, True])
        if l['inner']:
            l['v'] = [l['v'][0], l['v'][0]]
    case['outside'] = G.c([False, False, True])
    case['own'] = G.b()
    if case['outside']:
        for l in sys['prog']['leaves']:
            l['inner'] = False
    case['parent'] = G.c(['ot', 'ot', 'om', 'om_np'])
    case['post'] = G.b()
    case['mode'] = G.c(['fwd', 'rev'])
    case['hash'] = G.i(0, 1000)
    case['aux'] = G.b()
    if not bracketed:
        case['solver'] = G.c(['comp', 'comp', 'top', 'top_runonce'])
        case['lin'] = G.c(['direct', 'krylov'])
    return case


def brackets(G, case):
    """Brackets of the outputs, around the solutions at the first two points; True if some output has none."""
    sys = case['sys']
    sols = []
    for point in range(2):
        r = solution(dict(case, post=False), P.leaf_arrays(sys['prog'], point))
        sols.append([np.real(r[s['name']]) for s in sys['states']])
    case['width'] = []
    mixed = len(sys['states']) > 1 and G.b()
    for k, s in enumerate(sys['states']):
        if mixed and k == 0:
            s['br'] = None
            case['width'].append(None)
            for t in s['terms']:
                t['w'] *= 0.4
            continue
        lo = np.minimum(sols[0][k], sols[1][k])
        hi = np.maximum(sols[0][k], sols[1][k])
        rng = np.random.default_rng(G.i(0, 2**16))
        style = G.c(['scalar', 'array', 'mixed'])
        d1 = rng.integers(1, 40, lo.shape) / 8. * G.c([1., 1., 1., 1., 1e2, 1e4, 1e6])
        d2 = rng.integers(1, 40, lo.shape) / 8. * G.c([1., 1., 1., 1., 1e2, 1e4, 1e6])
        a, b = lo - d1, hi + d2
        if style != 'array':
            a = np.full(lo.shape, np.min(a))
            if style == 'scalar':
                b = np.full(lo.shape, np.max(b))
        if case['kind'] == 'root':      # the other root must be outside of the bracket
            if case['sign'] > 0:
                a = np.zeros(lo.shape)
                style = 'mixed' if style == 'array' else style
            else:
                b = np.zeros(lo.shape)
                if style == 'scalar':
                    a = np.full(lo.shape, np.min(a))
        a, b = np.round(a * 64) / 64, np.round(b * 64) / 64
        case['width'].append(float(np.max(b - a)))
        enc = lambda x: float(x.reshape(-1)[0]) if np.all(x == x.reshape(-1)[0]) and style != 'array' else \
            x.reshape(-1).tolist()
        br = [enc(a), enc(b)]
        if G.b():
            br = br[::-1]
        if all(isinstance(x, list) for x in br) and G.b():      # ends swapped for some elements
            for i in range(len(br[0])):
                if G.b():
                    br[0][i], br[1][i] = br[1][i], br[0][i]
        s['br'] = br
    if not mixed and G.c([False, False, True]):     # a root is a root however the residual is scaled
        for s in sys['states']:
            k = G.c([1e-9, 1e-6, 1e-4, 1e5, 1e9])
            s['c'] = [c * k for c in s['c']] if isinstance(s['c'], list) else s['c'] * k
        case['scaled'] = True
    case['mixed'] = mixed
    return mixed


def start(s):
    return np.asarray(s['v0']).reshape(s['shape']) if isinstance(s['v0'], list) else s['v0']


def inner_nodes(sys):
    return sorted(r for r in fix.used_refs(sys) if r >= P.nleaf(sys['prog']))


def is_output(prog, r):
    return prog['nodes'][r - P.nleaf(prog)]['op'] in ('assign', 'define')


def qname(prog, r):
    return prog['nodes'][r - P.nleaf(prog)]['p']['name'] if is_output(prog, r) else 'q%d' % r


def live(case):
    """Names of the leaves which are inputs of the component (or of the expressions it reads)"""
    sys = case['sys']
    prog = sys['prog']
    L = P.nleaf(prog)
    seen, stack = set(), list(fix.used_refs(sys))
    while stack:
        r = stack.pop()
        if r not in seen:
            seen.add(r)
            if r >= L:
                stack += prog['nodes'][r - L]['args']
    return [l['name'] for i, l in enumerate(prog['leaves']) if i in seen and not l['inner']]


def component(case, ot, om):
    sys = case['sys']
    prog = sys['prog']
    L = P.nleaf(prog)
    v = P.evaluate(prog, P.leaf_arrays(prog))

    def setup(self):
        g = self.group
        exprs = {}
        if case['outside']:
            for r in sorted(fix.used_refs(sys)):
                if r < L:
                    l = prog['leaves'][r]
                    exprs[r] = g.declare_input(l['name'], shape=v[r].shape, val=v[r])
                else:
                    exprs[r] = g.declare_input(qname(prog, r), shape=v[r].shape)
        else:
            for i, l in enumerate(prog['leaves']):
                if not l['inner']:
                    exprs[i] = g.declare_input(l['name'], shape=tuple(l['shape']), val=v[i])
            inner = [i for i, l in enumerate(prog['leaves']) if l['inner']]
            if inner:
                def consts(c):
                    for i in inner:
                        l = prog['leaves'][i]
                        k = c.create_indep_var('k_' + l['name'], shape=v[i].shape, val=v[i] / 2.)
                        c.register_output(l['name'], 2. * k)
                if case.get('own'):
                    consts(self.create_group('consts'))
                else:
                    with g.create_group('consts') as c:
                        consts(c)
                for i in inner:
                    l = prog['leaves'][i]
                    exprs[i] = g.declare_input(l['name'], shape=v[i].shape)
            fix.nodes(g, ot, prog, exprs)
            if case['aux'] and prog['nodes']:
                g.register_output('aux', exprs[L] * 2.)
        xs = [g.create_implicit_output(s['name'], shape=tuple(s['shape']), val=start(s)) for s in sys['states']]
        order = list(range(len(xs)))
        for k in order:
            s = sys['states'][k]
            if case['kind'] == 'root':
                r = xs[k]**2 - exprs[s['b']]
            else:
                r = xs[k] - fix.rhs(ot, s, xs, exprs)
            if isinstance(s['c'], list):
                r = r * np.asarray(s['c']).reshape(s['shape'])
            elif s['c'] != 1.:
                r = s['c'] * r
            if s.get('br'):
                a, b = s['br']
                a = np.asarray(a).reshape(s['shape']) if isinstance(a, list) else a
                b = np.asarray(b).reshape(s['shape']) if isinstance(b, list) else b
                xs[k].define_residual_bracketed(r, x1=a, x2=b)
            else:
                xs[k].define_residual(r)
        if case.get('solver') == 'comp':
            self.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=100, atol=1e-13, rtol=1e-14, iprint=-1)
            self.linear_solver = linear(case, om)
    return type('Comp', (ot.ImplicitComponent,), {'setup': setup})(**options(case))


def options(case):
    return {'maxiter': case['maxiter']} if 'maxiter' in case else {}


def linear(case, om):
    if case.get('lin') == 'krylov':
        return om.ScipyKrylov(maxiter=500, atol=1e-13, rtol=1e-13, iprint=-1)
    return om.DirectSolver()


def model(case):
    import openmdao.api as om
    import omtools.api as ot
    sys = case['sys']
    prog = sys['prog']
    L = P.nleaf(prog)
    comp = component(case, ot, om)
    pfx = 'comp.' if case['parent'] == 'om_np' else ''

    def outside(g):
        exprs = {i: P.declare_leaf(g, l) for i, l in enumerate(prog['leaves'])}
        fix.nodes(g, ot, prog, exprs)
        for r in inner_nodes(sys):
            if not is_output(prog, r):
                g.register_output(qname(prog, r), exprs[r])

    def solvers(top):
        if case.get('solver') == 'top':
            top.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=100, atol=1e-13, rtol=1e-14, iprint=-1)
            top.linear_solver = linear(case, om)
        elif case.get('solver') == 'top_runonce':
            top.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=100, atol=1e-13, rtol=1e-14, iprint=-1)
            top.linear_solver = om.LinearRunOnce()
        elif case.get('mixed'):
            top.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, max_sub_solves=2, maxiter=100, atol=1e-13,
                                                   rtol=1e-14, iprint=-1)
            top.linear_solver = om.DirectSolver()

    def consumers(g):
        for s in sys['states']:
            x = g.declare_input(s['name'], shape=tuple(s['shape']))
            g.register_output('p_' + s['name'], ot.sin(x) * 2. + x)

    def pre(g):
        for l in prog['leaves']:
            if not l['inner'] and l['kind'] == 'indep' and not (case['outside']):
                P.declare_leaf(g, l)
        if case['outside']:
            outside(g)
    if case['parent'] == 'ot':
        def setup(top):
            pre(top)
            top.add_subsystem('comp', comp, promotes=['*'])
            if case['post']:
                consumers(top)
            solvers(top)
        top = type('Top', (ot.Group,), {'setup': setup})()
    else:
        top = om.Group()
        promotes = ['*'] if case['parent'] == 'om' else None
        needs_pre = case['outside'] or (any(l['kind'] == 'indep' and not l['inner'] for l in prog['leaves'])
                                        and case['parent'] == 'om')
        if needs_pre:
            top.add_subsystem('pre', type('Pre', (ot.Group,), {'setup': pre})(), promotes=['*'])
        if case['parent'] == 'om_np' and case['outside']:
            top.add_subsystem('comp', comp, promotes_inputs=['*'])
        else:
            top.add_subsystem('comp', comp, promotes=promotes)
        if case['post'] and case['parent'] == 'om':
            top.add_subsystem('post', type('Post', (ot.Group,), {'setup': consumers})(), promotes=['*'])
        solvers(top)
    return top


def paths(case):
    """(path of states, path of leaves)"""
    np_ = case['parent'] == 'om_np'
    return ('comp.%s' if np_ else '%s'), ('comp.%s' if np_ and not case['outside'] else '%s')


def further(case):
    sys = case['sys']
    post = case['post'] and case['parent'] != 'om_np'

    def fn(xs, vals):
        r = {s['name']: x for s, x in zip(sys['states'], xs)}
        if post:
            for s in sys['states']:
                r['p_' + s['name']] = np.sin(r[s['name']]) * 2. + r[s['name']]
        return r
    return fn


def solution(case, lv):
    sys = case['sys']
    if case['kind'] == 'root':
        vals = P.evaluate(sys['prog'], lv)
        return further(case)([case['sign'] * np.sqrt(vals[sys['states'][0]['b']])], vals)
    return fix.reference(sys, lv, further(case))


def jacobian(case, lv, of, wrt):
    J = {}
    for w in wrt:
        cols = []
        for q in range(lv[w].size):
            c = {k: v.astype(complex) for k, v in lv.items()}
            c[w].reshape(-1)[q] += 1j * P.H
            r = solution(case, c)
            cols.append({o: np.imag(r[o]) / P.H for o in of})
        for o in of:
            J[o, w] = np.stack([c[o].reshape(-1) for c in cols], axis=1)
    return J


def residuals(case, xs, lv):
    sys = case['sys']
    vals = P.evaluate(sys['prog'], lv)
    if case['kind'] == 'root':
        return [xs[0]**2 - vals[sys['states'][0]['b']]]
    return [xs[k] - fix.step(sys, k, xs, vals) for k in range(len(xs))]


def jacobian_at(case, lv, xs, of, wrt):
    """Derivatives given by the implicit function theorem for outputs that have values xs, solution or not."""
    sys = case['sys']
    xs = [np.real(x).astype(float) for x in xs]
    flat = lambda r: np.concatenate([np.imag(a).reshape(-1) for a in r]) / P.H
    cols = []
    for k, x in enumerate(xs):
        for q in range(x.size):
            c = [a.astype(complex) for a in xs]
            c[k].reshape(-1)[q] += 1j * P.H
            cols.append(flat(residuals(case, c, lv)))
    drdx = np.stack(cols, axis=1)
    J = {}
    for w in wrt:
        cols = []
        for q in range(lv[w].size):
            c = {k: v.astype(complex) for k, v in lv.items()}
            c[w].reshape(-1)[q] += 1j * P.H
            cols.append(flat(residuals(case, [a.astype(complex) for a in xs], c)))
        dx = -np.linalg.solve(drdx, np.stack(cols, axis=1))
        start = 0
        for s, x in zip(sys['states'], xs):
            d = dx[start:start + x.size]
            start += x.size
            J[s['name'], w] = d
            J['p_' + s['name'], w] = (2. * np.cos(x) + 1.).reshape(-1, 1) * d
    return {(o, w): J[o, w] for o in of for w in wrt}


def check(case, rtol=1e-6, atol=1e-8, values=None):
    sys = case['sys']
    prog = sys['prog']
    with Hn.real('building a valid implicit model'):
        prob = omrun.new_problem(model(case), case['mode'])
        prob.final_setup()
    sp, lp = paths(case)
    path = lambda n: sp % n if n[0] == 's' else n
    for s in sys['states']:
        d = P.mismatch('initial value of ' + s['name'], omrun.get(prob, path(s['name'])), np.ones(s['shape']) * start(s))
        if d:
            Hn.fail(d)
    leaves = live(case)
    for point in range(3):
        lv = P.leaf_arrays(prog, point)
        with Hn.real('running the model'):
            if point:
                for n in leaves:
                    prob.set_val(lp % n, lv[n])
            prob.run_model()
        want = {k: np.real(v) for k, v in solution(case, lv).items()}
        if values is not None:
            values(case, prob, path, want, point)
        else:
            for n, w in want.items():
                d = P.mismatch('value of ' + n, omrun.get(prob, path(n)), w, rtol=rtol, atol=atol)
                if d:
                    Hn.fail('run %d: %s' % (point + 1, d))
        if not leaves:
            continue
        of = list(want)
        if values is not None:      # outputs are not quite a solution
            J = jacobian_at(case, lv, [omrun.get(prob, path(s['name'])) for s in sys['states']], of, leaves)
        else:
            J = jacobian(case, lv, of, leaves)
        with Hn.real('computing total derivatives'):
            got = omrun.totals(prob, [path(o) for o in of], [lp % n for n in leaves])
        for (o, w), x in J.items():
            d = P.mismatch('derivative of %s with respect to %s' % (o, w), got[path(o), lp % w], x, rtol=1e-5, atol=1e-7)
            if d:
                Hn.fail('run %d: %s' % (point + 1, d))


def classify(case):
    sys = case['sys']
    out = {'kind:' + case['kind'], 'parent:' + case['parent'], 'mode:' + case['mode'],
           'states:%d' % len(sys['states'])}
    for k in ('solver', 'lin'):
        if k in case:
            out.add(k + ':' + case[k])
    for k in ('outside', 'own', 'aux', 'mixed', 'post', 'scaled'):
        if case.get(k):
            out.add(k)
    for k, s in enumerate(sys['states']):
        if isinstance(s['c'], list):
            out.add('array-scaled-residual')
        if any(t['j'] != k for t in s['terms']):
            out.add('coupled')
        if sum(t['j'] == k for t in s['terms']) > 1:
            out.add('several-uses')
    if any(l['inner'] for l in sys['prog']['leaves']):
        out.add('inner-subsystem')
    refs = [r for s in sys['states'] for r in {s['b']} | {t['e'] for t in s['terms']} if r is not None]
    if len(refs) != len(set(refs)):
        out.add('shared-input')
    return out
