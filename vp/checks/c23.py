"""Repeated setup, inheritance, several instances, and building groups side by side."""
import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import hier, impl, omrun, strat
from vp import prog as P

ID = 'C23'
EXAMPLES = {'quick': 1800, 'thorough': 30000}
RULE = ('a case is a way of constructing a model (setup called repeatedly; classes that inherit and extend setup; several '
        'instances of parametrised classes; groups written side by side, statement by statement, outside of setup) '
        'applied to generated programs; non-trivial: the models contain at least two operations')
OPS = strat.WEIGHTED + ['add', 'mul', 'sin', 'mulc', 'index', 'assign', 'define'] * 3


def small(G0, draw, pfx, n):
    G = P.Gen(draw)
    G.fill(OPS, G.i(1, n))
    return P.rename(G.finish(), pfx)


@st.composite
def cases(draw, big):
    D = P.Gen(draw)
    n = 8 if big else 5
    kind = D.c(['resetup', 'subclass', 'subclass', 'instances', 'sidebyside', 'resetup_impl', 'impl', 'impl_instances'])
    case = {'kind': kind, 'mode': D.c(['fwd', 'rev']), 'hash': D.i(0, 1000)}
    if kind == 'resetup':
        G = P.Gen(draw)
        G.fill(OPS, G.i(1, n + 3))
        case.update(strat.envelope(G, {'prog': G.finish()}))
        if G.b():
            hier.envelope(G, case, maxdepth=2)
        case['setups'] = [[D.c(['fwd', 'rev']), D.c(['none', 'final', 'run', 'totals'])] for _ in range(D.i(1, 3))]
        case['outside'] = 'plan' not in case and D.b()
    elif kind == 'subclass':
        case['levels'] = []
        main = small(D, draw, 'm_', n)
        case['main'] = main
        for k in range(D.i(2, 4)):
            lv = {'own': D.c([True, True, False]) or k == 0, 'super': D.c([True, True, True, False]),
                  'take': D.i(0, 12), 'prog': small(D, draw, 'l%d_' % k, 2) if D.b() else None, 'before': D.b()}
            case['levels'].append(lv)
        case['rev'] = D.b()
        case['setups'] = D.i(1, 2)
    elif kind == 'instances':
        case['progs'] = [small(D, draw, '', n) for _ in range(D.i(2, 3))]
        case['separate'] = D.b()
        case['options'] = D.b()
    elif kind == 'sidebyside':
        case['progs'] = [small(D, draw, 'p%d_' % q, n) for q in range(D.i(2, 3))]
        case['sched'] = [D.i(0, len(case['progs']) - 1) for _ in range(40)]
        case['parent'] = D.c(['om', 'ot', 'problems'])
        case['setups'] = D.i(1, 2)
        case['insetup'] = D.b()
    elif kind == 'impl_instances':
        G = P.Gen(draw)
        br = D.b()
        case['impl'] = ic = impl.gen(G, br, False)
        if br and impl.brackets(G, ic):
            case['lin'] = 'direct'
        ic.update(outside=False, parent='om_np', post=False, mode=case['mode'])
        # points of the instances at each run
        case['runs'] = [[D.i(0, 1) for _ in range(3)] for _ in range(D.i(1, 3))]
        case['place'] = D.c(['together', 'together', 'groups', 'problems'])
    else:
        G = P.Gen(draw)
        case['impl'] = impl.gen(G, False, False)
        case['impl']['mode'] = case['mode']
        if kind == 'resetup_impl' and case['impl']['solver'] != 'comp':
            # OpenMDAO itself: the linear solution at a group above a component, whose inner
            # variables are named differently after another setup, is wrong for Krylov and for
            # one block Gauss-Seidel sweep (also without omtools)
            case['impl']['solver'], case['impl']['lin'] = 'top', 'direct'
        case['setups'] = [[D.c(['fwd', 'rev']), D.c(['none', 'final', 'run', 'totals'])] for _ in range(D.i(1, 2))]
        case['how'] = D.c(['plain', 'inherit', 'extend', 'grandchild'])
        case['twice'] = D.b()
    return case


def strategy(tier):
    return cases(tier != 'quick')


def check_progs(prob, parts, point, tag=''):
    """parts: [(program, path prefix)]; values and derivatives within each program."""
    for prog, pre in parts:
        lv = P.leaf_arrays(prog, point)
        for n, w in P.ref_outputs(prog, lv).items():
            with Hn.real(tag + 'reading %s' % (pre + n)):
                g = omrun.get(prob, pre + n)
            d = P.mismatch('value of ' + pre + n, g, w)
            if d:
                Hn.fail(tag + d)
        of, wrt = [n for n, _ in P.outputs(prog)], P.live_leaves(prog)
        if of and wrt:
            with Hn.real(tag + 'computing total derivatives'):
                got = omrun.totals(prob, [pre + o for o in of], [pre + w for w in wrt])
            for (o, w), x in P.ref_jacobian(prog, lv, of, wrt).items():
                d = P.mismatch('derivative of %s with respect to %s' % (pre + o, pre + w), got[pre + o, pre + w], x,
                               rtol=1e-6, atol=1e-8)
                if d:
                    Hn.fail(tag + d)


def set_progs(prob, parts, point):
    with Hn.real('setting inputs'):
        for prog, pre in parts:
            lv = P.leaf_arrays(prog, point)
            for n in P.live_leaves(prog):
                prob.set_val(pre + n, lv[n])


def both_points(prob, parts, tag=''):
    for point in range(2):
        if point:
            set_progs(prob, parts, 1)
        with Hn.real(tag + 'running the model'):
            prob.run_model()
        check_progs(prob, parts, point, tag + 'run %d: ' % (point + 1))


def names(prob):
    r = []
    import openmdao.api as om
    for s in prob.model.system_iter(recurse=True):
        if not isinstance(s, om.Group) and s.name != '_auto_ivc':
            r.append(type(s).__name__)
    return sorted(r)


def do_before(prob, act, of, wrt):
    if act == 'final':
        prob.final_setup()
    elif act in ('run', 'totals'):
        prob.run_model()
        if act == 'totals' and of and wrt:
            prob.compute_totals(of=of, wrt=wrt)


def resetup(case, ot, om):
    prog = case['prog']
    with Hn.real('building a valid model'):
        if 'plan' in case:
            H = hier.Hier(ot, prog, case['plan'], case['late'], case.get('rev'))
            top = H.build()
            path = lambda n: H.path.get(n, n)
            leaves = hier.reachable_leaves(prog, H)
        elif case['outside']:
            top = ot.Group()
            P.populate(top, ot, prog)
            path = lambda n: n
            leaves = P.live_leaves(prog)
        else:
            top = P.make_group(ot, prog)
            path = lambda n: n
            leaves = P.live_leaves(prog)
        prob = om.Problem(model=top)
    of = [n for n, _ in P.outputs(prog)]
    first = None
    for q, (mode, act) in enumerate(case['setups'] + [[case['mode'], 'none']]):
        with Hn.real('setting up for time %d' % (q + 1)):
            prob.setup(mode=mode)
            if q < len(case['setups']):
                do_before(prob, act, [path(n) for n in of], leaves)
        c = names(prob)
        if first is not None and c != first:
            Hn.fail('setup number %d makes components %s instead of %s' % (q + 1, c, first))
        first = c
    for point in range(2):
        lv = P.leaf_arrays(prog, point)
        with Hn.real('running after setting up %d times' % (len(case['setups']) + 1)):
            if point:
                for n in leaves:
                    prob.set_val(n, lv[n])
            prob.run_model()
        for n, w in P.ref_outputs(prog, lv).items():
            d = P.mismatch('value of ' + n, omrun.get(prob, path(n)), w)
            if d:
                Hn.fail(d)
        if of and leaves:
            with Hn.real('computing total derivatives'):
                got = omrun.totals(prob, [path(n) for n in of], leaves)
            for (o, w), x in P.ref_jacobian(prog, lv, of, leaves).items():
                d = P.mismatch('derivative of %s with respect to %s' % (o, w), got[path(o), w], x, rtol=1e-6, atol=1e-8)
                if d:
                    Hn.fail(d)


def advance(it, n):
    for _ in range(n):
        try:
            next(it)
        except StopIteration:
            return


def subclass(case, ot, om):
    """A chain of classes, each of which may write statements before and after super().setup()."""
    cls = ot.Group
    levels = case['levels']
    main = case['main']
    # which levels run: the most derived class that has a setup, and those it reaches by super()
    runs = []
    k = max((q for q, l in enumerate(levels) if l['own']), default=0)
    while True:
        runs.append(k)
        if not levels[k]['super'] or k == 0:
            break
        k = max(q for q in range(k) if levels[q]['own'])
    parts = [(levels[q]['prog'], '') for q in runs if levels[q]['prog']]
    last = runs[0]
    parts.append((main, ''))
    for q, l in enumerate(levels):
        attrs = {}
        if l['own']:
            def setup(self, q=q, l=l):
                if l['prog'] and l['before']:
                    P.populate(self, ot, l['prog'])
                if l['super']:
                    super(self.__class__.__mro__[[c.__dict__.get('_vp') for c in self.__class__.__mro__].index(q)],
                          self).setup()
                if not hasattr(self, 'stream') or self.stream is None:
                    self.stream = P.steps(self, ot, main)
                advance(self.stream, 10**6 if q == last else l['take'])
                if l['prog'] and not l['before']:
                    P.populate(self, ot, l['prog'])
                if q == last:
                    self.stream = None
            attrs['setup'] = setup
        attrs['_vp'] = q
        with Hn.real('defining a class'):
            cls = type('Level%d' % q, (cls,), attrs)
    with Hn.real('building a valid model'):
        top = cls()
        if case['rev']:
            top.reverse_branch_sorting = True
        prob = om.Problem(model=top)
        for _ in range(case['setups']):
            prob.setup(mode=case['mode'])
    both_points(prob, parts, 'class that inherits setup: ')


def instances(case, ot, om):
    """Several instances of one class, or of one class with options."""
    progs = case['progs']

    class Param(ot.Group):
        def initialize(self):
            self.options.declare('which', default=0)

        def setup(self):
            P.populate(self, ot, progs[self.options['which'] if case['options'] else self.which])

    def make(q):
        if case['options']:
            return Param(which=q)
        g = Param()
        g.which = q
        return g
    with Hn.real('building a valid model'):
        insts = [make(q) for q in range(len(progs))]
        # the first program twice, from two instances
        again = make(0)
        if case['separate']:
            probs = [om.Problem(model=i) for i in insts + [again]]
            for p in probs:
                p.setup(mode=case['mode'])
            for p in probs:
                p.run_model()
        else:
            top = om.Group()
            for q, i in enumerate(insts + [again]):
                top.add_subsystem('i%d' % q, i)
            prob = om.Problem(model=top)
            prob.setup(mode=case['mode'])
    allp = progs + [progs[0]]
    if case['separate']:
        for p, g in zip(probs, allp):
            set_progs(p, [(g, '')], 0)
        for p, g in zip(probs, allp):
            both_points(p, [(g, '')], 'separate problems: ')
    else:
        both_points(prob, [(g, 'i%d.' % q) for q, g in enumerate(allp)], 'several instances: ')


def sidebyside(case, ot, om):
    progs = case['progs']
    with Hn.real('building a valid model'):
        if case['insetup']:
            late = [case['progs'][-1]]

            class Late(ot.Group):
                def setup(self):
                    P.populate(self, ot, P.rename(late[0], 'late_'))
            groups = [ot.Group() for _ in progs[:-1]] + [Late()]
        else:
            groups = [ot.Group() for _ in progs]
        its = [P.steps(g, ot, p) for g, p in zip(groups, progs)]
        for q in case['sched']:
            advance(its[q], 1)
        for it in its:
            advance(it, 10**6)
    parts = [(p, '') for p in progs]
    if case['insetup']:
        parts.append((P.rename(progs[-1], 'late_'), ''))
    with Hn.real('building a valid model'):
        if case['parent'] == 'problems':
            probs = [om.Problem(model=g) for g in groups]
        else:
            if case['parent'] == 'om':
                top = om.Group()
                for q, g in enumerate(groups):
                    top.add_subsystem('g%d' % q, g, promotes=['*'])
            else:
                top = ot.Group()
                for q, g in enumerate(groups):
                    top.add_subsystem('g%d' % q, g, promotes=['*'])
            probs = [om.Problem(model=top)]
        for _ in range(case['setups']):
            for p in probs:
                p.setup(mode=case['mode'])
    if len(probs) == 1:
        both_points(probs[0], parts, 'written side by side: ')
    else:
        for q, p in enumerate(probs):
            both_points(p, [parts[q]] + ([parts[-1]] if case['insetup'] and q == len(probs) - 1 else []),
                        'written side by side: ')


def implicit(case, ot, om):
    ic = case['impl']
    orig = impl.component

    def component(c, ot, om):
        """The component as an instance of a class derived from the one which has setup"""
        base = type(orig(c, ot, om))
        if case['how'] == 'plain':
            cls = base
        elif case['how'] == 'inherit':
            cls = type('D', (base,), {})
        else:
            def setup(self):
                super(D, self).setup()
            D = type('D', (base,), {'setup': setup})
            cls = D if case['how'] == 'extend' else type('E', (D,), {})
        made = cls()
        if case['twice']:
            # an unrelated instance, set up and run in between
            other = cls()
            om2 = om.Problem(model=om.Group())
            om2.model.add_subsystem('c', other, promotes=['*'])
            om2.setup()
            om2.final_setup()
        return made
    real_new = omrun.new_problem

    def new_problem(model, mode='auto'):
        prob = om.Problem(model=model)
        sp, lp = impl.paths(ic)
        of = [sp % s['name'] for s in ic['sys']['states']]
        wrt = [lp % n for n in impl.live(ic)]
        for m, act in case['setups']:
            prob.setup(mode=m)
            do_before(prob, act, of, wrt)
        prob.setup(mode=mode)
        return prob
    impl.component = component
    if case['kind'] == 'resetup_impl':
        omrun.new_problem = new_problem
    try:
        impl.check(ic)
    finally:
        impl.component = orig
        omrun.new_problem = real_new


def impl_instances(case, ot, om):
    """Several instances of an implicit component class, at different values of their inputs."""
    ic = case['impl']
    prog = ic['sys']['prog']
    leaves = impl.live(ic)
    count = len(case['runs'][0])

    def solvers(g):
        if ic.get('mixed'):
            g.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, max_sub_solves=2, maxiter=100, atol=1e-13,
                                                 rtol=1e-14, iprint=-1)
            g.linear_solver = om.DirectSolver()
        elif ic.get('solver') in ('top', 'top_runonce'):
            g.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=100, atol=1e-13, rtol=1e-14, iprint=-1)
            g.linear_solver = impl.linear(ic, om) if ic['solver'] == 'top' else om.LinearRunOnce()

    with Hn.real('building a valid implicit model'):
        cls = type(impl.component(ic, ot, om))
        comps = [cls(**impl.options(ic)) for _ in range(count)]
        tops = [om.Group() for _ in range(count if case['place'] == 'problems' else 1)]
        for q, comp in enumerate(comps):
            top = tops[q % len(tops)]
            if case['place'] == 'groups':
                g = top.add_subsystem('g%d' % q, om.Group())
                g.add_subsystem('c', comp, promotes=['*'])
                solvers(g)
            else:
                top.add_subsystem('g%d' % q, comp)
        probs = [om.Problem(model=top) for top in tops]
        for p in probs:
            if case['place'] != 'groups':
                solvers(p.model)
            p.setup(mode=case['mode'])
    of = [s['name'] for s in ic['sys']['states']]
    path = lambda q, n: 'g%d.%s' % (q, n)
    for r, points in enumerate(case['runs']):
        tag = 'several instances of an implicit component: run %d: ' % (r + 1)
        lvs = [P.leaf_arrays(prog, points[q]) for q in range(count)]
        with Hn.real('running the model'):
            for q in range(count):
                for n in leaves:
                    probs[q % len(probs)].set_val(path(q, n), lvs[q][n])
            for p in probs:
                p.run_model()
        for q in range(count):
            want = impl.solution(ic, lvs[q])
            for n in of:
                d = P.mismatch('value of ' + path(q, n), omrun.get(probs[q % len(probs)], path(q, n)),
                               np.real(want[n]), rtol=1e-6, atol=1e-8)
                if d:
                    Hn.fail(tag + d)
        if not leaves:
            continue
        with Hn.real('computing total derivatives'):
            got = {}
            for k, p in enumerate(probs):
                mine = [q for q in range(count) if q % len(probs) == k]
                got.update(omrun.totals(p, [path(q, n) for q in mine for n in of],
                                        [path(q, n) for q in mine for n in leaves]))
        for q in range(count):
            J = impl.jacobian(ic, lvs[q], of, leaves)
            for (o, w), x in J.items():
                for q2 in range(count):
                    if (path(q, o), path(q2, w)) not in got:
                        continue
                    d = P.mismatch('derivative of %s with respect to %s' % (path(q, o), path(q2, w)),
                                   got[path(q, o), path(q2, w)], x if q == q2 else 0. * x, rtol=1e-5, atol=1e-7)
                    if d:
                        Hn.fail(tag + d)


def check_case(case):
    import omtools.api as ot
    import openmdao.api as om
    {'resetup': resetup, 'subclass': subclass, 'instances': instances, 'sidebyside': sidebyside,
     'resetup_impl': implicit, 'impl': implicit, 'impl_instances': impl_instances}[case['kind']](case, ot, om)


def classify(case):
    out = {'kind:' + case['kind']}
    for k in ('separate', 'options', 'parent', 'insetup', 'how', 'twice', 'outside', 'place'):
        if k in case:
            out.add('%s:%s' % (k, case[k]))
    if 'levels' in case:
        out.add('levels:%d' % len(case['levels']))
        if any(not l['own'] for l in case['levels']):
            out.add('inherited-setup')
        if any(not l['super'] for l in case['levels'][1:]):
            out.add('setup-replaced')
    return out


def nontrivial(case):
    ps = case.get('progs') or [case.get('prog') or case.get('main') or case['impl']['sys']['prog']]
    return sum(len(p['nodes']) for p in ps) + len(case.get('levels', [])) >= 2
