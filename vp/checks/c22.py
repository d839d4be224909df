"""Results depend on the current input values only, not on what was done before."""
import numpy as np
from hypothesis import strategies as st

from vp import fix
from vp import harness as Hn
from vp import hier, impl, omrun, strat
from vp import ops as O
from vp import prog as P

ID = 'C22'
EXAMPLES = {'quick': 4500, 'thorough': 30000}
RULE = ('a case is a model (flat, hierarchical or with an implicit component) and a generated history of setting inputs, '
        'running, computing total derivatives and checking partial derivatives; non-trivial: at least two runs at '
        'different input values with another operation between them')
# defined and smooth for any input values
SAFE = ['add', 'sub', 'mul', 'addc', 'subc', 'mulc', 'cmulx', 'csubx', 'neg', 'sin', 'cos', 'tanh', 'arctan', 'sech', 'sum',
        'average', 'max', 'min', 'dot', 'cross', 'inner', 'outer', 'matmat', 'matvec', 'einsum', 'einsum_new', 'reshape',
        'transpose', 'reorder', 'expand', 'rotmat', 'index', 'assign', 'define', 'wide', 'mulc', 'mulc', 'divc', 'posc']


@st.composite
def cases(draw, big):
    G = P.Gen(draw)
    kind = G.c(['flat', 'flat', 'hier', 'all', 'impl'])
    if kind == 'impl':
        case = impl.gen(G, False, False)
        # coupled or not, every leaf may move on its own unless a root is computed
        case['sync'] = True
        prog = case['sys']['prog']
        live = [i for i, l in enumerate(prog['leaves']) if not l['inner']]
    else:
        ops = strat.WEIGHTED if kind == 'all' else SAFE + (['mulc', 'add', 'sin', 'mul'] * 3 if kind == 'hier' else [])
        G.fill(ops, G.i(1, 12 if big else 8))
        case = strat.envelope(G, {'prog': G.finish()})
        if kind == 'hier':
            hier.envelope(G, case, maxdepth=2)
        case['sync'] = kind == 'all'
        live = list(range(len(case['prog']['leaves'])))
    case['kind2'] = kind
    hist = []
    for _ in range(G.i(3, 14 if big else 8)):
        k = G.c(['run', 'run', 'totals', 'totals', 'partials', 'set', 'set', 'set', 'driver', 'read']
                + (['off', 'off'] if kind == 'impl' else []))
        if k == 'off':
            hist.append(['off', G.i(0, 1000)])
            continue
        if k == 'set':
            if not case['sync'] and live and G.c([True, True, False]):
                hist.append(['set', G.c(live), G.i(0, 2)])
            else:
                hist.append(['setall', G.i(0, 2)])
            continue
        if k == 'totals':
            hist.append(['totals', G.i(0, 5), G.i(0, 5), G.b()])
        else:
            hist.append([k])
    case['hist'] = hist
    return case


def strategy(tier):
    return cases(tier != 'quick')


class Model:
    """What both kinds of models have in common."""
    def __init__(self, case):
        import omtools.api as ot
        self.case = case
        if case['kind2'] == 'impl':
            sys = case['sys']
            self.prog = sys['prog']
            top = impl.model(case)
            sp, lp = impl.paths(case)
            self.path = lambda n: sp % n if n[0] == 's' else n
            self.lpath = lambda n: lp % n
            self.leaves = impl.live(case)
            self.solve = lambda lv: {k: np.real(v) for k, v in impl.solution(case, lv).items()}
            self.jac = lambda lv, of, wrt: impl.jacobian(case, lv, of, wrt)
            self.tol = (1e-6, 1e-8, 1e-5, 1e-7)
        else:
            self.prog = prog = case['prog']
            if 'plan' in case:
                H = hier.Hier(ot, prog, case['plan'], case['late'], case.get('rev'))
                top = H.build()
                self.path = lambda n: H.path.get(n, n)
                self.leaves = hier.reachable_leaves(prog, H)
            else:
                top = P.make_group(ot, prog, **({'reverse_branch_sorting': True} if case.get('rev') else {}))
                self.path = lambda n: n
                self.leaves = P.live_leaves(prog)
            self.lpath = lambda n: n
            self.solve = lambda lv: P.ref_outputs(prog, lv)
            self.jac = lambda lv, of, wrt: P.ref_jacobian(prog, lv, of, wrt)
            self.tol = (1e-7, 1e-9, 1e-6, 1e-8)
        self.prob = omrun.new_problem(top, case['mode'], force_alloc_complex=case['kind2'] != 'impl')


def check_case(case):
    with Hn.real('building a valid model'):
        M = Model(case)
        M.prob.final_setup()
    prog = M.prog
    arr = [P.leaf_arrays(prog, q) for q in range(3)]
    cur = dict(arr[0])
    done = []
    dirty = True

    def tag():
        return 'after %s: ' % ', '.join(done)

    def values():
        want = M.solve(cur)
        for n, w in want.items():
            with Hn.real('reading %s' % n):
                g = omrun.get(M.prob, M.path(n))
            d = P.mismatch('value of ' + n, g, w, rtol=M.tol[0], atol=M.tol[1])
            if d:
                Hn.fail(tag() + d)
        for n in M.leaves:
            if M.case['kind2'] != 'impl':
                d = P.mismatch('value of ' + n, omrun.get(M.prob, M.lpath(n)), cur[n])
                if d:
                    Hn.fail(tag() + d)
        return want

    def run(driver=False):
        with Hn.real(tag() + 'running the model'):
            M.prob.run_driver() if driver else M.prob.run_model()
        done.append('run')

    for h in case['hist'] + [['run'], ['totals', 0, 0, False]]:
        k = h[0]
        if k in ('set', 'setall'):
            names = [prog['leaves'][h[1]]['name']] if k == 'set' else [l['name'] for l in prog['leaves']]
            for n in names:
                if n in M.leaves:
                    v = arr[h[-1]][n]
                    with Hn.real(tag() + 'setting %s' % n):
                        M.prob.set_val(M.lpath(n), v)
                    cur[n] = v
                    dirty = True
                    done.append('set %s to point %d' % (n, h[-1]))
            continue
        if k in ('run', 'driver'):
            run(k == 'driver')
            values()
            dirty = False
            continue
        if dirty:
            run()
            dirty = False
        if k == 'read':
            values()
            continue
        if k == 'off':
            # derivatives at outputs which are not a solution
            rng = np.random.default_rng(h[1])
            xs = []
            for s in case['sys']['states']:
                x = case.get('sign', 1) * rng.integers(4, 25, tuple(s['shape'])) / 8.
                with Hn.real(tag() + 'setting %s' % s['name']):
                    M.prob.set_val(M.path(s['name']), x)
                xs.append(x)
            done.append('set outputs')
            of = [s['name'] for s in case['sys']['states']]
            if M.leaves:
                with Hn.real(tag() + 'computing total derivatives'):
                    got = omrun.totals(M.prob, [M.path(o) for o in of], [M.lpath(w) for w in M.leaves])
                done.append('totals')
                for (o, w), x in impl.jacobian_at(case, cur, xs, of, M.leaves).items():
                    d = P.mismatch('derivative of %s with respect to %s' % (o, w), got[M.path(o), M.lpath(w)], x,
                                   rtol=M.tol[2], atol=M.tol[3])
                    if d:
                        Hn.fail(tag() + d)
            run()
            values()
            continue
        if k == 'partials':
            # finite differences would stay behind in the constant partials, by a fault of OpenMDAO
            with Hn.real(tag() + 'checking partial derivatives'):
                M.prob.check_partials(out_stream=None, method='fd' if case['kind2'] == 'impl' else 'cs')
            done.append('check_partials')
            values()
            continue
        want = M.solve(cur)
        of, wrt = list(want), list(M.leaves)
        if not of or not wrt:
            continue
        if h[3]:
            wrt = [wrt[h[2] % len(wrt)]]
            # iterative linear solvers of OpenMDAO ignore coupling of the outputs of one component
            # unless all of them are asked for
            if case['kind2'] != 'impl' or (case['lin'] == 'direct' and case['solver'] != 'top_runonce'):
                of = [of[h[1] % len(of)]]
        J = M.jac(cur, of, wrt)
        with Hn.real(tag() + 'computing total derivatives'):
            got = omrun.totals(M.prob, [M.path(o) for o in of], [M.lpath(w) for w in wrt])
        done.append('totals')
        for (o, w), x in J.items():
            d = P.mismatch('derivative of %s with respect to %s' % (o, w), got[M.path(o), M.lpath(w)], x,
                           rtol=M.tol[2], atol=M.tol[3])
            if d:
                Hn.fail(tag() + d)
        values()
    d = O.check_user_arrays()
    if d:
        Hn.fail(tag() + d)


def classify(case):
    out = {'model:' + case['kind2']} | {'do:' + h[0] for h in case['hist']}
    out.add('history:%d' % len(case['hist']))
    return out


def nontrivial(case):
    h = [x[0] for x in case['hist']]
    return any(x.startswith('set') for x in h) and any(x in ('run', 'totals', 'partials', 'driver') for x in h)
