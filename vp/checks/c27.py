"""Models of any size can be set up and run."""
import sys

import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import omrun
from vp import prog as P

ID = 'C27'
EXAMPLES = {'quick': 420, 'thorough': 5000}
RULE = ('a case is a large expression graph (chains, stacked diamonds, recurrences, layers, random graphs, up to 1600 '
        'operations) in a flat model, an output defined in terms of itself, an implicit component or deeply '
        'nested groups; non-trivial: more than 40 operations')
STYLES = ['chain', 'diamond', 'fib', 'layer', 'random', 'wide', 'fan']
MINOPS = 3


def recipe(c):
    """Operations [(kind, args, coefficients)]; arguments number the inputs first.  Every operation is
    non-expansive in the maximum norm, so that values stay bounded and loops contract."""
    rng = np.random.default_rng(c['seed'])
    m = c['inputs']
    ops = []

    def new(kind, *args):
        k = [float(x) for x in np.round(rng.uniform(.2, .8, 2), 3)]
        k[1] = 1 - k[0]
        if rng.integers(2):
            k[1] = -k[1]
        ops.append((kind, [int(a) for a in args], k))
        return m + len(ops) - 1

    unary = ['sin', 'cos', 'tanh', 'neg', 'shift']
    binary = ['lin', 'lin', 'half', 'sub']

    def some(u, v):
        if rng.integers(2):
            return new(unary[rng.integers(len(unary))], u)
        return new(binary[rng.integers(len(binary))], u, v)

    n, style = c['n'], c['style']
    u = 0
    if style == 'chain':
        while len(ops) < n:
            u = some(u, rng.integers(m))
    elif style == 'diamond':
        while len(ops) < n:
            a, b = new('sin', u), new(['cos', 'tanh', 'shift'][rng.integers(3)], u)
            u = new(['lin', 'half', 'sub'][rng.integers(3)], a, b)
    elif style == 'fib':
        a, b = 0, m - 1
        while len(ops) < n:
            a, b = b, new(binary[rng.integers(len(binary))], b, a)
    elif style == 'layer':
        layer = list(range(m))
        w = c['width']
        while len(ops) < n:
            layer = [some(*rng.choice(layer, 2)) for _ in range(w)]
    elif style == 'random':
        while len(ops) < n:
            t = m + len(ops)
            some(*rng.integers(max(0, t - c['width'] ** 2), t, 2))
    elif style == 'wide':
        while len(ops) < n:
            t = m + len(ops)
            new('mean', *rng.integers(max(0, t - 8), t, rng.integers(1, 5)))
    else:
        # everything reads one expression, and one expression reads everything
        u = new('sin', 0)
        a = [some(u, rng.integers(m)) for _ in range(n)]
        new('mean', *a)
    used = {a for o in ops for a in o[1]}
    sinks = [m + i for i in range(len(ops)) if m + i not in used]
    for k in (c['extra'] if len(ops) else []):
        r = m + k % len(ops)
        if r not in sinks:
            sinks.append(r)
    return ops, sinks


def ref(ops, ins):
    v = list(ins)
    for kind, a, k in ops:
        x = v[a[0]]
        y = v[a[1]] if len(a) > 1 else None
        v.append(np.sin(x) if kind == 'sin' else np.cos(x) if kind == 'cos' else np.tanh(x) if kind == 'tanh' else
                 -x if kind == 'neg' else x + k[0] if kind == 'shift' else k[0] * x + k[1] * y if kind == 'lin' else
                 (x + y) / 2 if kind == 'half' else .5 * x - y / 2. if kind == 'sub' else
                 sum(v[q] for q in dict.fromkeys(a)) / len(set(a)))
    return v


def write(ot, ops, ins):
    v = list(ins)
    for kind, a, k in ops:
        x = v[a[0]]
        y = v[a[1]] if len(a) > 1 else None
        if kind in ('sin', 'cos', 'tanh'):
            v.append(getattr(ot, kind)(x))
        elif kind == 'neg':
            v.append(-x)
        elif kind == 'shift':
            v.append(x + k[0])
        elif kind == 'lin':
            v.append(k[0] * x + k[1] * y)
        elif kind == 'half':
            v.append((x + y) / 2)
        elif kind == 'sub':
            v.append(.5 * x - y / 2.)
        else:
            z = [v[q] for q in dict.fromkeys(a)]
            v.append(ot.average(*z) if len(z) > 1 else 1 * z[0])
    return v


@st.composite
def cases(draw, big):
    G = P.Draw(draw)
    c = {'style': G.c(STYLES), 'seed': G.i(0, 2**20), 'inputs': G.i(1, 4), 'width': G.i(2, 5),
         'where': G.c(['flat', 'flat', 'flat', 'define', 'implicit', 'nested', 'sub']), 'shape': G.c([[1], [2], [2, 2], [3]]),
         'indep': G.b(), 'lots': 0}
    size = G.i(0, 9)
    c['n'] = G.i(MINOPS, 60) if size < 3 else G.i(60, 200) if size < 8 else G.i(200, 400)
    if G.i(0, 15) == 15:
        c['style'] = 'chain'
        c['n'] = G.i(1000, 1200 if not big else 3000)
    if c['style'] == 'fan':
        c['n'] = min(c['n'], 200)
    if c['where'] == 'flat' and G.i(0, 5) == 5:
        c['lots'] = G.i(20, 100)        # that many independent variables and outputs on top
    if c['where'] == 'nested':
        c['depth'] = G.i(2, 12)
        c['n'] = min(c['n'], 30)
    c['extra'] = [G.i(0, 10**6) for _ in range(G.i(0, 3))]
    c['rev'] = G.c([False, False, True])
    c['mode'] = G.c(['fwd', 'rev'])
    c['hash'] = G.i(0, 1000)
    return c


def strategy(tier):
    return cases(tier != 'quick')


def invals(c, point):
    rng = np.random.default_rng([c['seed'], point])
    return [np.round(rng.uniform(-1, 1, c['shape']), 3) for _ in range(c['inputs'])]


def declare(g, c, k, indep=None):
    indep = c['indep'] if indep is None else indep
    return (g.create_indep_var if indep else g.declare_input)('x%d' % k, shape=tuple(c['shape']), val=invals(c, 0)[k])


def reference(c, ins):
    """Values of the outputs {name: value}"""
    ops, sinks = recipe(c)
    if c['where'] in ('flat', 'sub'):
        v = ref(ops, ins)
        r = {'y%d' % s: v[s] for s in sinks}
        for k in range(c['lots']):
            r['z%d' % k] = (1. + k / 100.) * v[sinks[k % len(sinks)]] * np.ones(c['shape'])
        return r
    if c['where'] == 'nested':
        r = {}

        def level(d, x):
            v = ref(ops, [x] + list(ins[1:]))
            z = v[sinks[0]]
            r['z%d' % d] = z
            w = level(d + 1, z) if d + 1 < c['depth'] else z
            r['w%d' % d] = .5 * w + .25 * z
            return r['w%d' % d]
        level(0, ins[0])
        return r
    x = np.zeros(c['shape'], complex if any(np.iscomplexobj(i) for i in ins) else float)
    for _ in range(40):
        v = ref(ops, [x] + list(ins[1:]))
        x = .2 * v[sinks[0]] + .5 * ins[0]
    return {'s': x}


def model(c):
    import openmdao.api as om
    import omtools.api as ot
    ops, sinks = recipe(c)
    shape = tuple(c['shape'])

    def flat(self):
        ins = [declare(self, c, k) for k in range(c['inputs'])]
        v = write(ot, ops, ins)
        for s in sinks:
            self.register_output('y%d' % s, v[s])
        for k in range(c['lots']):
            a = self.create_indep_var('a%d' % k, shape=shape, val=1. + k / 100.)
            self.register_output('z%d' % k, a * v[sinks[k % len(sinks)]])

    def sub(self):
        # every sink in a group of its own, after the group that computes them
        with self.create_group('first') as g:
            ins = [declare(g, c, k) for k in range(c['inputs'])]
            v = write(ot, ops, ins)
            for s in sinks:
                g.register_output('t%d' % s, 1. * v[s])
        for s in sinks:
            with self.create_group('g%d' % s) as g:
                t = g.declare_input('t%d' % s, shape=shape)
                g.register_output('y%d' % s, 1. * t)

    def define(self):
        with self.create_group('cycle') as g:
            x = g.create_output('s', shape=shape, val=0.)
            ins = [declare(g, c, k) for k in range(c['inputs'])]
            v = write(ot, ops, [x] + ins[1:])
            x.define(.2 * v[sinks[0]] + .5 * ins[0])
            g.nonlinear_solver = om.NonlinearBlockGS(maxiter=100, atol=1e-13, rtol=1e-14, iprint=-1)
            g.linear_solver = om.DirectSolver()

    def comp_setup(self):
        g = self.group
        x = g.create_implicit_output('s', shape=shape, val=0.)
        ins = [declare(g, c, k, False) for k in range(c['inputs'])]
        v = write(ot, ops, [x] + ins[1:])
        x.define_residual(x - (.2 * v[sinks[0]] + .5 * ins[0]))
        self.linear_solver = om.DirectSolver()
        self.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=50, atol=1e-13, rtol=1e-14, iprint=-1)

    def implicit(self):
        comp = type('Comp', (ot.ImplicitComponent,), {'setup': comp_setup})()
        self.add_subsystem('comp', comp, promotes=['*'])

    def level(d):
        def setup(self):
            x = declare(self, c, 0, c['indep'] and d == 0) if d == 0 else self.declare_input('z%d' % (d - 1), shape=shape)
            ins = [x] + [declare(self, c, k, c['indep'] and d == 0) for k in range(1, c['inputs'])]
            v = write(ot, ops, ins)
            z = 1. * v[sinks[0]]
            self.register_output('z%d' % d, z)
            w = z
            if d + 1 < c['depth']:
                self.add_subsystem('next', level(d + 1), promotes=['*'])
                w = self.declare_input('w%d' % (d + 1), shape=shape)
            self.register_output('w%d' % d, .5 * w + .25 * z)
        return type('Level', (ot.Group,), {'setup': setup})()

    if c['where'] == 'nested':
        return level(0)
    f = {'flat': flat, 'sub': sub, 'define': define, 'implicit': implicit}[c['where']]

    def setup(self):
        self.reverse_branch_sorting = c['rev']
        f(self)
    return type('Large', (ot.Group,), {'setup': setup})()


def live(c):
    ops, sinks = recipe(c)
    m = c['inputs']
    stack = list(sinks) if c['where'] in ('flat', 'sub') else [sinks[0]]
    seen = set()
    while stack:
        r = stack.pop()
        if r not in seen:
            seen.add(r)
            if r >= m:
                stack += ops[r - m][1]
    r = {i for i in seen if i < m}
    if c['where'] in ('define', 'implicit'):
        r.add(0)
    return ['x%d' % i for i in sorted(r)]


def check_case(c):
    # the usual limit on recursion for what the case does; Hypothesis raises the limit
    limit, depth, f = sys.getrecursionlimit(), 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(min(limit, depth + 990))
    try:
        check(c)
    finally:
        sys.setrecursionlimit(limit)


def check(c):
    iterative = c['where'] in ('define', 'implicit')
    with Hn.real('building and running a large model'):
        prob = omrun.new_problem(model(c), c['mode'])
        prob.run_model()
    names = live(c)
    for point in range(2):
        ins = invals(c, point)
        if point:
            with Hn.real('running at new input values'):
                for k in range(c['inputs']):
                    if 'x%d' % k in names:
                        prob.set_val('x%d' % k, ins[k])
                prob.run_model()
        want = reference(c, ins)
        for n, w in want.items():
            with Hn.real('reading %s' % n):
                g = omrun.get(prob, n)
            m = P.mismatch('value of ' + n, g, w, rtol=1e-7, atol=1e-8 if iterative else 1e-9)
            if m:
                Hn.fail('run %d: %s' % (point + 1, m))
    if not iterative:
        omrun.check_order(prob)
    of = sorted(want)[:2]
    wrt = names[:2]
    with Hn.real('computing total derivatives'):
        J = omrun.totals(prob, of, wrt)
    for w in wrt:
        i = int(w[1:])
        for j in range(ins[i].size):
            x = [a.astype(complex) for a in ins]
            x[i].reshape(-1)[j] += 1e-40j
            d = reference(c, x)
            for o in of:
                m = P.mismatch('derivative of %s with respect to %s[%d]' % (o, w, j), J[o, w][:, j],
                               np.imag(d[o]).reshape(-1) / 1e-40, rtol=1e-6, atol=1e-8)
                if m:
                    Hn.fail(m)


def classify(c):
    n = len(recipe(c)[0])
    return {'style:' + c['style'], 'where:' + c['where'], 'reverse-sorting:%s' % c['rev'], 'many-outputs:%s' % (c['lots'] > 0),
            'operations:' + ('<60' if n < 60 else '60-199' if n < 200 else '200-399' if n < 400 else '>=400')}


def nontrivial(c):
    return len(recipe(c)[0]) > 40
