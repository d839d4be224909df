"""Models can be optimized: gradient-based optimization of a generated model finds the optimum."""
import os

import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import prog as P

ID = 'C30'
EXAMPLES = {'quick': 980, 'thorough': 16000}
RULE = ('a case is a strictly convex least-squares problem with at most one linear constraint, in generated variables, '
        'written as a generated omtools model (forms of products, blocks, norms, changes of variables, subgroups, implicit '
        'outputs, loops), optimized by SLSQP from two starting points with derivatives of the model; the oracle is the '
        'solution of the optimality conditions; every case is non-trivial')
ASSUMPTIONS = ['SciPy\'s SLSQP converges on small, well-conditioned convex problems with exact derivatives']


@st.composite
def cases(draw):
    G = P.Draw(draw)
    vs = []
    for k in range(G.i(1, 3)):
        vs.append({'shape': G.c([[1], [2], [3], [2, 2], [1, 2], [2, 1]]), 'change': G.c(['', '', 'tanh', 'sin', 'shift', 'double']),
                   'form': G.c(['matvec', 'einsum', 'einsum_s', 'expand', 'rows', 'inner', 'matmat']),
                   'dv': G.c(['flag', 'flag', 'setup', 'model', 'prob']), 'scale': G.c([1., 1., 2., .5])})
    return {'vars': vs, 'm': G.i(1, 2), 'seed': G.i(0, 2**20), 'start': G.i(0, 2**20),
            'blocks': G.b(), 'norm': G.c(['sum', 'dot', 'inner', 'pnorm', 'pow', 'average', 'einsum', 'matvec']),
            'wrap': G.c(['', '', 'sqrt', 'scale']), 'via': G.c(['', '', '', 'implicit', 'loop', 'sub', 'group']),
            'con': G.c(['', 'eq', 'eq', 'low', 'up', 'eq2']), 'conform': G.c(['sum', 'index', 'rows']),
            'conscale': G.c([1., 1., 2., .25]), 'objscale': G.c([1., 1., .5, 4.]), 'color': G.c([False, False, False, True]),
            'record': G.c([False, False, True]), 'mode': G.c(['fwd', 'rev', 'auto']), 'hash': G.i(0, 1000)}


def strategy(tier):
    return cases()


def numbers(c):
    rng = np.random.default_rng(c['seed'])
    n = [int(np.prod(v['shape'])) for v in c['vars']]
    N = sum(n)
    m = N + c['m']
    A = np.vstack([np.eye(N), np.zeros((m - N, N))]) + .3 * rng.uniform(-1, 1, (m, N))
    b = rng.uniform(-2, 2, m)
    # residuals cannot all vanish (norms have no derivatives there)
    x = np.linalg.lstsq(A, b, rcond=None)[0]
    if np.linalg.norm(A @ x - b) < .5:
        z = np.linalg.svd(A)[0][:, -1]
        b = b + z
        x = np.linalg.lstsq(A, b, rcond=None)[0]
        if np.linalg.norm(A @ x - b) < .5:
            b = b - 2 * z
    k = {'': 0, 'eq2': min(2, N)}.get(c['con'], 1)
    E = rng.choice([1., 2., -1., .5], (k, N))
    if k == 2:
        E = E * 0.
        E[0, :] = 1.
        E[1, 0], E[1, -1] = 1., -.5
        if N == 1:
            E, k = E[:1], 1
    e = rng.uniform(-1, 1, k)
    off = np.cumsum([0] + n)
    return n, A, b, E, e, off


def solve(c):
    n, A, b, E, e, off = numbers(c)
    H, g = A.T @ A, A.T @ b
    free = np.linalg.solve(H, g)
    if not len(E):
        return free
    if c['con'] == 'low' and np.all(E @ free >= e):
        return free
    if c['con'] == 'up' and np.all(E @ free <= e):
        return free
    k = len(E)
    K = np.block([[H, E.T], [E, np.zeros((k, k))]])
    return np.linalg.solve(K, np.concatenate([g, e]))[:len(g)]


CHANGE = {'': lambda ot, u: u, 'tanh': lambda ot, u: u + .5 * ot.tanh(u), 'sin': lambda ot, u: ot.sin(u) * .4 + u,
          'shift': lambda ot, u: 1.5 - u, 'double': lambda ot, u: 2. * u + u}


def change_ref(kind, u):
    return {'': u, 'tanh': u + .5 * np.tanh(u), 'sin': u + .4 * np.sin(u), 'shift': 1.5 - u, 'double': 3. * u}[kind]


def model(c, start):
    import openmdao.api as om
    import omtools.api as ot
    n, A, b, E, e, off = numbers(c)
    m = len(b)

    def product(g, i, v, x):
        B = A[:, off[i]:off[i + 1]]
        f = v['form']
        q = n[i]
        y = x if tuple(v['shape']) == (q,) else ot.reshape(x, (q,))
        if f in ('matvec', 'einsum', 'einsum_s', 'inner', 'matmat'):
            M = g.create_indep_var('A%d' % i, shape=B.shape, val=B)
            if f == 'matvec':
                return ot.matvec(M, y)
            if f == 'inner':
                return ot.inner(M, y, axes=([1], [0]))
            if f == 'matmat':
                return ot.reshape(ot.matmat(M, ot.reshape(y, (q, 1))), (m,))
            return ot.einsum(M, y, subscripts='ij,j->i', partial_format='sparse' if f == 'einsum_s' else 'dense')
        if f == 'expand':
            return ot.sum(ot.expand(y, (m, q), 'j->ij') * B, axes=(1,))
        o = g.create_output('prod%d' % i, shape=(m,))
        for j in range(m):
            o[j] = ot.sum(y * B[j])
        return o

    def objective(g, r):
        k = c['norm']
        if k == 'sum':
            f = .5 * ot.sum(r * r)
        elif k == 'pow':
            f = ot.sum(r**2) / 2.
        elif k == 'dot':
            f = .5 * ot.dot(r, r)
        elif k == 'inner':
            f = ot.inner(r, .5 * r)
        elif k == 'pnorm':
            f = .5 * ot.pnorm(r)**2
        elif k == 'average':
            f = ot.average(r**2) * (m / 2.)
        elif k == 'einsum':
            f = .5 * ot.einsum(r, 1. * r, subscripts='i,i->')
        else:
            f = .5 * ot.matvec(ot.reshape(r, (1, m)), r)
        w = c['wrap']
        f = (1. + f)**.5 if w == 'sqrt' else 3. * f - 1. if w == 'scale' else f
        g.register_output('f', f)

    def passed(g, r):
        """The residuals, by way of other parts of the model"""
        via = c['via']
        if via == '':
            return r
        g.register_output('r_in', 1. * r if c['blocks'] else r)
        if via == 'implicit':
            class Comp(ot.ImplicitComponent):
                def setup(self):
                    q = self.group
                    rr = q.declare_input('r_in', shape=(m,))
                    s = q.create_implicit_output('r_out', shape=(m,))
                    s.define_residual(2. * s - 2. * rr)
                    self.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=20, atol=1e-13, rtol=1e-14, iprint=-1)
                    self.linear_solver = om.DirectSolver()
            g.add_subsystem('comp', Comp(), promotes=['*'])
        elif via == 'loop':
            with g.create_group('loop') as q:
                rr = q.declare_input('r_in', shape=(m,))
                s = q.create_output('r_out', shape=(m,))
                s.define(.2 * s + .8 * rr)
                q.nonlinear_solver = om.NonlinearBlockGS(maxiter=100, atol=1e-14, rtol=1e-14, iprint=-1)
                q.linear_solver = om.DirectSolver()
        elif via == 'sub':
            class Sub(ot.Group):
                def setup(self):
                    rr = self.declare_input('r_in', shape=(m,))
                    self.register_output('r_out', 1. * rr)
            g.add_subsystem('sub', Sub(), promotes=['*'])
        else:
            with g.create_group('part') as q:
                rr = q.declare_input('r_in', shape=(m,))
                q.register_output('r_out', rr + 0.)
        return g.declare_input('r_out', shape=(m,))

    def constraint(g, ys):
        rows = []
        for row, _ in zip(E, e):
            t = None
            for i, y in enumerate(ys):
                w = row[off[i]:off[i + 1]]
                if c['conform'] == 'index' and n[i] > 1:
                    parts = [y[j] * float(w[j]) for j in range(n[i])]
                else:
                    parts = [ot.sum(y * w)]
                for p in parts:
                    t = p if t is None else t + p
            rows.append(t)
        if c['conform'] == 'rows' or len(rows) > 1:
            o = g.create_output('c', shape=(len(rows),))
            for j, t in enumerate(rows):
                o[j] = t if t not in rows[:j] else 1. * t
        else:
            g.register_output('c', rows[0])

    def limits():
        con = c['con']
        return {'lower': e} if con == 'low' else {'upper': e} if con == 'up' else {'equals': e}

    def setup(g):
        xs, ys = [], []
        for i, v in enumerate(c['vars']):
            u = g.create_indep_var('u%d' % i, shape=tuple(v['shape']), val=start[i], dv=v['dv'] == 'flag')
            if v['dv'] == 'setup':
                g.add_design_var('u%d' % i, ref=v['scale'])
            x = CHANGE[v['change']](ot, u)
            xs.append(x)
        prods = [product(g, i, v, x) for i, (v, x) in enumerate(zip(c['vars'], xs))]
        t = prods[0]
        for q in prods[1:]:
            t = t + q
        r = t - b
        if c['blocks']:
            h = m // 2 + 1
            o = g.create_output('r', shape=(m,))
            o[0:h] = r[0:h]
            if h < m:
                o[h:m] = r[h:m]
            r = o
        objective(g, passed(g, r))
        if len(E):
            for i, x in enumerate(xs):
                ys.append(x if tuple(c['vars'][i]['shape']) == (n[i],) else ot.reshape(x, (n[i],)))
            constraint(g, ys)
        g.add_objective('f', scaler=c['objscale'])
    g = type('Model', (ot.Group,), {'setup': setup})()
    prob = om.Problem(model=g)
    for i, v in enumerate(c['vars']):
        if v['dv'] in ('model', 'prob'):
            prob.model.add_design_var('u%d' % i, ref=v['scale'])
    if len(E):
        prob.model.add_constraint('c', ref=c['conscale'], **limits())
    prob.driver = om.ScipyOptimizeDriver(optimizer='SLSQP', tol=1e-13, maxiter=300, disp=False)
    if c['color']:
        prob.driver.declare_coloring(show_summary=False, show_sparsity=False)
    return prob


def check_case(c):
    import openmdao.api as om
    n, A, b, E, e, off = numbers(c)
    want = solve(c)
    rng = np.random.default_rng(c['start'])
    starts = [[rng.uniform(-1., 1., v['shape']) for v in c['vars']] for _ in range(2)]
    rec = 'cases.sql'
    with Hn.real('building a valid model'):
        prob = model(c, starts[0])
        if c['record']:
            if os.path.exists(rec):
                os.remove(rec)
            prob.driver.add_recorder(om.SqliteRecorder(rec, record_viewer_data=False))
            prob.driver.recording_options['includes'] = ['*']
        prob.setup(mode=c['mode'])
        prob.final_setup()
    for k, s in enumerate(starts):
        with Hn.real('optimizing'):
            if k:
                for i, v in enumerate(s):
                    prob.set_val('u%d' % i, v)
            prob.run_driver()
            x = np.concatenate([change_ref(v['change'], np.array(prob.get_val('u%d' % i))).reshape(-1) for i, v in enumerate(c['vars'])])
            f = float(np.array(prob.get_val('f')).reshape(-1)[0])
        if not np.allclose(x, want, rtol=2e-4, atol=2e-4):
            Hn.fail('optimization %d: optimum at %s, expected %s' % (k + 1, x.tolist(), want.tolist()))
        r = A @ x - b
        h = .5 * r @ r
        h = {'sqrt': np.sqrt(1 + h), 'scale': 3 * h - 1}.get(c['wrap'], h)
        if not np.isclose(f, h, rtol=1e-7, atol=1e-7):
            Hn.fail('optimization %d: objective %r, expected %r' % (k + 1, f, h))
    if c['record']:
        with Hn.real('reading recorded cases'):
            prob.cleanup()
            out = prob.get_outputs_dir() / rec
            cr = om.CaseReader(str(out))
            last = cr.get_case(cr.list_cases('driver', out_stream=None)[-1])
            for i in range(len(c['vars'])):
                d = P.mismatch('recorded value of u%d' % i, last['u%d' % i], np.array(prob.get_val('u%d' % i)))
                if d:
                    Hn.fail(d)
            del cr
            os.remove(out)


def classify(c):
    return {'via:' + c['via'], 'con:' + c['con'], 'norm:' + c['norm'], 'vars:%d' % len(c['vars'])} | \
        {'form:' + v['form'] for v in c['vars']} | {'dv:' + v['dv'] for v in c['vars']}


def nontrivial(c):
    return True
