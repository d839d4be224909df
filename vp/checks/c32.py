"""Models work with OpenMDAO's own tools."""
import os

import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import hier, omrun, strat
from vp import prog as P

ID = 'C32'
EXAMPLES = {'quick': 6000, 'thorough': 80000}
RULE = ('a case is a generated program (flat, or split over nested groups and stock components), and a tool of OpenMDAO '
        'that is applied to it; non-trivial: some output depends on an input through at least two operations')

FLAT = ['submodel', 'src_indices', 'configure', 'responses']
ANY = ['doe', 'load', 'list', 'n2', 'check_totals', 'jacvec', 'residuals']


@st.composite
def cases(draw, nmax):
    G = P.Gen(draw)
    tool = G.c(FLAT + ANY + ['configure', 'src_indices', 'jacvec', 'load', 'list'])
    h = tool in ANY and G.b()
    G.fill(strat.WEIGHTED + (['mulc', 'add', 'sin', 'mul'] * 3 if h else []), G.i(1, nmax))
    case = strat.envelope(G, {'prog': G.finish()})
    case['tool'] = tool
    case['seed'] = G.i(0, 2**20)
    case['flags'] = [G.b() for _ in range(8)]
    if h:
        hier.envelope(G, case, maxdepth=2, imp=tool != 'check_totals')
    return case


def strategy(tier):
    return cases(6 if tier == 'quick' else 12)


class Run:
    def __init__(self, case):
        import omtools.api as ot
        self.case, self.prog = case, case['prog']
        self.rng = np.random.default_rng(case['seed'])
        self.names = P.outputs(self.prog)
        self.shape = {l['name']: tuple(l['shape']) for l in self.prog['leaves']}
        self.kind = {l['name']: l['kind'] for l in self.prog['leaves']}
        if 'plan' in case:
            H = hier.Hier(ot, self.prog, case['plan'], case['late'], case.get('rev'))
            with Hn.real('building a valid model'):
                self.model = H.build()
            self.path = lambda n: H.path.get(n, n)
            self.H = H
            self.leaves = None
        else:
            self.model = P.make_group(ot, self.prog, **({'reverse_branch_sorting': True} if case.get('rev') else {}))
            self.path = lambda n: n
            self.leaves = P.live_leaves(self.prog)

    def known(self):
        """Leaves, once the model is set up."""
        if self.leaves is None:
            self.leaves = hier.reachable_leaves(self.prog, self.H)
        return self.leaves

    def set(self, prob, point, pre=''):
        lv = P.leaf_arrays(self.prog, point)
        for n in self.known():
            prob.set_val(pre + n, lv[n])
        return lv

    def values(self, prob, lv, tag='', path=None):
        path = path or self.path
        want = P.evaluate(self.prog, lv)
        for n, r in self.names:
            with Hn.real('reading %s' % path(n)):
                got = omrun.get(prob, path(n))
            d = P.mismatch('value of ' + n, got, want[r])
            if d:
                Hn.fail(tag + d)

    def same(self, what, got, want, **k):
        d = P.mismatch(what, got, want, **k)
        if d:
            Hn.fail(d)


def problem(R, **k):
    with Hn.real('setting up and running a valid model'):
        prob = omrun.new_problem(R.model, R.case['mode'], **k)
        prob.run_model()
    return prob


def do_list(R):
    prob = problem(R)
    for point in (0, 1):
        with Hn.real('listing variables'):
            lv = R.set(prob, point)
            prob.run_model()
            outs = {m['prom_name']: m for _, m in prob.model.list_outputs(out_stream=None, prom_name=True, shape=True)}
            ins = prob.model.list_inputs(out_stream=None, prom_name=True, shape=True)
            meta = {m['prom_name']: m for m in prob.model.get_io_metadata(iotypes=('output',)).values()}
        want = P.evaluate(R.prog, lv)
        for n, w in [(R.path(n), want[r]) for n, r in R.names] + [(n, lv[n]) for n in R.known() if R.kind[n] == 'indep']:
            for what, t in (('outputs', outs), ('metadata', meta)):
                if n not in t:
                    Hn.fail('%s is missing in the list of %s' % (n, what))
                if tuple(t[n]['shape']) != w.shape:
                    Hn.fail('%s has shape %s in the list of %s, not %s' % (n, t[n]['shape'], what, w.shape))
            R.same('listed value of ' + n, outs[n]['val'], w)
        for a, m in ins:
            n = m['prom_name']
            if n in R.shape and n in R.known():
                if np.shape(m['val']) == lv[n].shape:
                    R.same('value of input %s of %s' % (n, a), m['val'], lv[n])


def do_load(R):
    import openmdao.api as om
    with Hn.real('recording a valid model'):
        prob = om.Problem(model=R.model)
        if os.path.exists('c32.sql'):
            os.remove('c32.sql')
        prob.add_recorder(om.SqliteRecorder('c32.sql', record_viewer_data=False))
        prob.recording_options['includes'] = ['*']
        prob.recording_options['record_inputs'] = True
        prob.setup(mode=R.case['mode'])
        prob.run_model()
        lv0 = R.set(prob, 1)
        prob.run_model()
        prob.record('a')
        lv = R.set(prob, 0)
        prob.run_model()
    R.values(prob, lv, 'moved: ')
    with Hn.real('loading a recorded case'):
        prob.cleanup()
        cr = om.CaseReader(str(prob.get_outputs_dir() / 'c32.sql'))
        c = cr.get_case('a')
        prob.load_case(c)
    del cr
    R.values(prob, lv0, 'loaded: ')
    for n in R.known():
        R.same('loaded value of ' + n, omrun.get(prob, n), lv0[n])
    with Hn.real('running'):
        prob.run_model()
    R.values(prob, lv0, 'loaded and run: ')


def do_doe(R):
    import openmdao.api as om
    prob = problem(R)          # which inputs there are is known after set-up
    leaves = R.known()
    if not leaves or not R.names:
        return
    with Hn.real('running a design of experiments'):
        pts = [P.leaf_arrays(R.prog, k) for k in (0, 1, 2, 0)]
        R2 = Run(R.case)
        prob = om.Problem(model=R2.model)
        for n in leaves:
            prob.model.add_design_var(n)
        for n, _ in R.names:
            prob.model.add_constraint(R.path(n), upper=1e3)
        prob.driver = om.DOEDriver(om.ListGenerator([[(n, p[n].ravel()) for n in leaves] for p in pts]))
        if os.path.exists('c32d.sql'):
            os.remove('c32d.sql')
        prob.driver.add_recorder(om.SqliteRecorder('c32d.sql', record_viewer_data=False))
        prob.driver.recording_options['includes'] = ['*']
        prob.setup(mode=R.case['mode'])
        prob.run_driver()
        prob.cleanup()
        cr = om.CaseReader(str(prob.get_outputs_dir() / 'c32d.sql'))
        cs = [cr.get_case(c) for c in cr.list_cases('driver', out_stream=None)]
    if len(cs) != len(pts):
        Hn.fail('%d cases recorded instead of %d' % (len(cs), len(pts)))
    for k, (c, p) in enumerate(zip(cs, pts)):
        want = P.evaluate(R.prog, p)
        for n, r in R.names:
            with Hn.real('reading %s of a recorded case' % n):
                got = np.array(c[R.path(n)])
            R.same('case %d: value of %s' % (k, n), got, want[r])


def do_n2(R):
    import openmdao.api as om
    prob = problem(R)
    with Hn.real('making an N2 diagram'):
        f = os.path.abspath('c32.html')
        om.n2(prob, outfile=f, show_browser=False, display_in_notebook=False)
        size = os.path.getsize(f)
        os.remove(f)
    if size < 1000:
        Hn.fail('the N2 diagram is empty')
    R.values(prob, P.leaf_arrays(R.prog, 0), 'after the diagram: ')


def jac(R, lv):
    return P.ref_jacobian(R.prog, lv, [n for n, _ in R.names], R.known())


def do_check_totals(R):
    prob = problem(R, force_alloc_complex=True)
    if not R.known() or not R.names:
        return
    lv = R.set(prob, 1)
    with Hn.real('checking total derivatives'):
        prob.run_model()
        data = prob.check_totals(of=[R.path(n) for n, _ in R.names], wrt=R.known(), method='cs', out_stream=None)
    J = jac(R, lv)
    for (o, w), x in J.items():
        d = data[R.path(o), w]
        a = d['J_fwd'] if R.case['mode'] == 'fwd' else d['J_rev']
        R.same('derivative of %s with respect to %s' % (o, w), np.array(a), x, rtol=1e-6, atol=1e-8)
        R.same('approximate derivative of %s with respect to %s' % (o, w), np.array(d['J_fd']), x, rtol=1e-6, atol=1e-8)
    R.values(prob, lv, 'after checking: ')


def do_jacvec(R):
    prob = problem(R)
    of, wrt = [n for n, _ in R.names], R.known()
    if not of or not wrt:
        return
    for point in R.case['dpoints']:
        lv = R.set(prob, point)
        mode = R.case['mode']
        want = P.evaluate(R.prog, lv)
        J = jac(R, lv)
        seeds = {}
        if mode == 'fwd':
            seeds = {n: R.rng.standard_normal(R.shape[n]) for n in wrt}
            ref = {R.path(n): sum(J[n, w] @ seeds[w].ravel() for w in wrt).reshape(want[r].shape) for n, r in R.names}
            seed = seeds
        else:
            seeds = {n: R.rng.standard_normal(want[r].shape) for n, r in R.names}
            ref = {w: sum(J[o, w].T @ seeds[o].ravel() for o in of).reshape(R.shape[w]) for w in wrt}
            seed = {R.path(n): v for n, v in seeds.items()}
        with Hn.real('computing a product with the Jacobian'):
            prob.run_model()
            prob.model.run_linearize()
            got = prob.compute_jacvec_product(of=[R.path(n) for n in of], wrt=wrt, mode=mode, seed=seed)
        for n, w in ref.items():
            R.same('product with the Jacobian, ' + n, np.array(got[n]).reshape(w.shape), w, rtol=1e-6, atol=1e-8)


def do_residuals(R):
    prob = problem(R)
    for point in (0, 1):
        with Hn.real('computing residuals'):
            R.set(prob, point)
            prob.run_model()
            prob.model.run_apply_nonlinear()
            res = np.array(prob.model._residuals.asarray())
        if not np.max(np.abs(res), initial=0.) < 1e-9:
            Hn.fail('residuals of a model that has run are %s' % np.max(np.abs(res)))
        if point == 0 and len(res) and R.known():
            # they tell that outputs are out of date when inputs move
            lv = R.set(prob, 1)
            old = P.evaluate(R.prog, P.leaf_arrays(R.prog, 0))
            new = P.evaluate(R.prog, lv)
            with Hn.real('computing residuals'):
                prob.model.run_apply_nonlinear()
                res = np.array(prob.model._residuals.asarray())
            if any(not np.allclose(old[r], new[r], atol=1e-3) for _, r in R.names) and not np.max(np.abs(res)) > 1e-9:
                Hn.fail('residuals vanish although inputs have moved')


def do_submodel(R):
    import openmdao.api as om
    of, wrt = [n for n, _ in R.names], R.known()
    if not of or not wrt:
        return
    with Hn.real('wrapping a model in a component'):
        inner = om.Problem(model=R.model)
        comp = om.SubmodelComp(problem=inner, inputs=wrt, outputs=of)
        prob = om.Problem()
        prob.model.add_subsystem('s', comp, promotes=['*'])
        prob.setup(mode=R.case['mode'])
    for point in (0, 1):
        with Hn.real('running a wrapped model'):
            lv = R.set(prob, point)
            prob.run_model()
        R.values(prob, lv, 'wrapped: ')
        if point in R.case['dpoints']:
            with Hn.real('derivatives of a wrapped model'):
                got = omrun.totals(prob, of, wrt)
            for (o, w), x in jac(R, lv).items():
                R.same('derivative of %s with respect to %s' % (o, w), got[o, w], x, rtol=1e-6, atol=1e-8)


def do_src_indices(R):
    import openmdao.api as om
    of, wrt = [n for n, _ in R.names], [n for n in R.known() if R.kind[n] == 'input']
    with Hn.real('connecting parts of larger arrays'):
        prob = om.Problem()
        iv = prob.model.add_subsystem('iv', om.IndepVarComp('unused', 0.))
        idx, size = {}, {}
        prob.model.add_subsystem('m', R.model)
        for n in wrt:
            if len(R.shape[n]) == 1:
                big, idx[n] = (2 * R.shape[n][0] + 1,), (R.rng.permutation(2 * R.shape[n][0] + 1)[:R.shape[n][0]],)
                key = idx[n][0]
            else:
                big, idx[n] = (3,) + R.shape[n], (int(R.rng.integers(3)),)
                key = om.slicer[idx[n][0], ...]
            size[n] = big
            iv.add_output(n, np.zeros(big))
            prob.model.connect('iv.' + n, 'm.' + n, src_indices=key)
        prob.setup(mode=R.case['mode'])
    for point in (0, 1):
        lv = P.leaf_arrays(R.prog, point)
        with Hn.real('running a connected model'):
            for n in R.known():
                if n in idx:
                    b = R.rng.standard_normal(size[n])
                    b[idx[n]] = lv[n]
                    prob.set_val('iv.' + n, b)
                else:
                    prob.set_val('m.' + n, lv[n])
            prob.run_model()
        R.values(prob, lv, 'connected: ', lambda n: 'm.' + n)
        if of and wrt and point in R.case['dpoints']:
            with Hn.real('derivatives of a connected model'):
                got = omrun.totals(prob, ['m.' + n for n in of], ['iv.' + n for n in wrt])
            for (o, w), x in P.ref_jacobian(R.prog, lv, of, wrt).items():
                f = np.zeros((x.shape[0], int(np.prod(size[w]))))
                f[:, np.arange(f.shape[1]).reshape(size[w])[idx[w]].ravel()] = x
                R.same('derivative of %s with respect to %s' % (o, w), got['m.' + o, 'iv.' + w], f, rtol=1e-6, atol=1e-8)


def do_configure(R):
    """A group above promotes, renames, connects and gives defaults in its configure method."""
    import omtools.api as ot
    import openmdao.api as om
    lv1 = P.leaf_arrays(R.prog, 1)
    wrt = [n for n in R.known() if R.kind[n] == 'input']
    how = {n: ('renamed', 'promoted', 'connected', 'default')[int(R.rng.integers(4))] for n in wrt}
    oname = {n: ('z_' + n if R.rng.integers(2) else n) for n, _ in R.names}
    base = ot.Group if R.case['flags'][0] else om.Group

    def setup(self):
        if base is ot.Group:
            for n in wrt:
                if how[n] == 'connected':
                    self.create_indep_var('c_' + n, shape=R.shape[n], val=lv1[n])
            self.add_subsystem('m', R.model)
        else:
            iv = self.add_subsystem('iv', om.IndepVarComp('unused', 0.), promotes=['*'])
            for n in wrt:
                if how[n] == 'connected':
                    iv.add_output('c_' + n, lv1[n])
            self.add_subsystem('m', R.model)

    def configure(self):
        for n in wrt:
            if how[n] == 'renamed':
                self.promotes('m', inputs=[(n, 'r_' + n)])
                self.set_input_defaults('r_' + n, val=lv1[n])
            elif how[n] == 'promoted':
                self.promotes('m', inputs=[n])
            elif how[n] == 'default':
                self.promotes('m', inputs=[n])
                self.set_input_defaults(n, val=lv1[n])
            else:
                self.connect('c_' + n, 'm.' + n)
        for n, _ in R.names:
            self.promotes('m', outputs=[(n, oname[n]) if oname[n] != n else n])
    with Hn.real('building and running a valid model'):
        top = type('Top', (base,), {'setup': setup, 'configure': configure})()
        prob = omrun.new_problem(top, R.case['mode'])
        prob.final_setup()

    def path(n):
        if n not in how:
            return 'm.' + n
        return {'renamed': 'r_' + n, 'connected': 'c_' + n}.get(how[n], n)
    lv = dict(P.leaf_arrays(R.prog, 0))
    for n in R.known():
        if how.get(n) in ('renamed', 'connected', 'default'):
            lv[n] = lv1[n]
    with Hn.real('reading values before running'):
        for n in R.known():
            R.same('value of %s (%s) before running' % (n, how.get(n)), omrun.get(prob, path(n)), lv[n])
    for k in (1, 0):
        lv = P.leaf_arrays(R.prog, k)
        with Hn.real('running a valid model'):
            for n in R.known():
                prob.set_val(path(n), lv[n])
            prob.run_model()
        R.values(prob, lv, 'configured: ', lambda n: oname[n])
    of = [n for n, _ in R.names]
    if of and wrt:
        with Hn.real('computing total derivatives'):
            got = omrun.totals(prob, [oname[n] for n in of], [path(n) for n in wrt])
        for (o, w), x in P.ref_jacobian(R.prog, lv, of, wrt).items():
            R.same('derivative of %s with respect to %s' % (o, w), got[oname[o], path(w)], x, rtol=1e-6, atol=1e-8)


def do_responses(R):
    """Design variables and constraints are declared in setup, after the program."""
    import omtools.api as ot
    import openmdao.api as om
    of, wrt = [n for n, _ in R.names], R.known()
    if not of or not wrt:
        return
    sc = {n: float(2.**R.rng.integers(-2, 3)) for n in of + wrt}
    first = R.case['flags'][0]

    def responses(self):
        for n in wrt:
            self.add_design_var(n, ref=sc[n])
        for n in of:
            self.add_constraint(n, upper=1., ref=sc[n])

    def setup(self):
        if first:
            responses(self)
        P.populate(self, ot, R.prog)
        if not first:
            responses(self)
    with Hn.real('building and running a valid model'):
        top = type('Top', (ot.Group,), {'setup': setup})()
        prob = omrun.new_problem(top, R.case['mode'])
        prob.run_model()
    for point in (0, 1):
        with Hn.real('running a valid model'):
            lv = R.set(prob, point)
            prob.run_model()
            drv = prob.driver
            dv, con = drv.get_design_var_values(), drv.get_constraint_values()
            tot = prob.compute_totals(driver_scaling=True, return_format='flat_dict')
        want = {n: v for n, v in P.ref_outputs(R.prog, lv).items()}
        for n in wrt:
            R.same('scaled design variable ' + n, dv[n], lv[n].ravel() / sc[n])
        for n in of:
            R.same('scaled constraint ' + n, con[n], want[n].ravel() / sc[n])
        for (o, w), x in jac(R, lv).items():
            x = x * sc[w] / sc[o]
            R.same('scaled derivative of %s with respect to %s' % (o, w), np.array(tot[o, w]), x, rtol=1e-6, atol=1e-8)


def check_case(case):
    globals()['do_' + case['tool']](Run(case))


def classify(case):
    return strat.op_classes(case) | {'tool:' + case['tool']} | \
        (hier.plan_kinds(case['plan']) if 'plan' in case else {'flat'})


def nontrivial(case):
    prog = case['prog']
    L = P.nleaf(prog)
    return len(prog['nodes']) >= 2 and any(a >= L for n in prog['nodes'] for a in n['args'])
