"""Operations on large arrays: exact, in memory and time far below quadratic."""
import resource

import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import omrun
from vp import ops as O
from vp import prog as P

ID = 'C29'
EXAMPLES = {'quick': 5200, 'thorough': 30000}
RULE = ('a case is one operation on arrays of 20000 to 90000 elements (generated shapes and parameters) between '
        'generated neighbours, run with 1.5 GB of memory on top of the interpreter (a dense matrix of partial '
        'derivatives takes 3.2 GB or more) and 60 s, with values and directional derivatives in forward or reverse '
        'mode compared to the reference; every case is non-trivial')
ASSUMPTIONS = ['inner products over axes, Einstein summation and implicit outputs have dense partial derivatives by design '
               'and are left out']
MEMORY = 1536 << 20


class Big(P.Draw):
    """Stands in for a generator of programs: every reference is a new large leaf."""
    def __init__(self, draw):
        super().__init__(draw)
        self.n = self.i(20000, 40000) if self.i(0, 2) else self.i(66000, 90000)
        self.shapes, self.vals, self.nodes = [], [], []
        self.common = None

    def shape(self, r):
        return self.shapes[r]

    def big(self, nd=(1, 3)):
        d, n = self.i(nd[0], nd[1]), self.n
        if d == 1:
            return (n,)
        k = self.i(1, 5)
        if d == 2:
            return self.c([(n // k, k), (k, n // k), (int(n**.5), int(n**.5))])
        rest = (1,) * (d - 3)
        j = self.i(1, 5)
        return tuple(self.perm((k, j, n // (k * j)) + rest)) if self.b() else tuple(self.perm((7, int((n / 7)**.5), int((n / 7)**.5)) + rest))

    def ref(self, shape=None, kind='any', nd=None, maxsize=None):
        return self.newleaf(self.big(nd or (1, 3)) if shape is None else tuple(shape), kind)

    def newleaf(self, shape, kind='any'):
        self.shapes.append(tuple(int(x) for x in shape))
        self.vals.append([np.full(shape, .5)] * 2)
        return len(self.shapes) - 1


CONST = ['posc', 'addc', 'caddx', 'subc', 'csubx', 'mulc', 'cmulx', 'divc', 'cdivx', 'powc']


def g_const(G):
    s = G.big()
    return [G.ref(s)], {'const': G.c(['float', 'arr'])}


def g_left(G):
    return [G.ref()], {'const': 'float'}


def three(G):
    s = G.c([(G.n // 3, 3), (3, G.n // 3), (G.n // 6, 3, 2), (2, 3, G.n // 6)])
    return s, s.index(3)


def g_dot(G):
    if G.b():
        return [G.ref((G.n,)), G.ref((G.n,))], {}
    s, a = three(G)
    return [G.ref(s), G.ref(s)], {'axis': a}


def g_cross(G):
    s, a = three(G)
    return [G.ref(s), G.ref(s)], {'axis': a}


def g_inner(G):
    return [G.ref((G.n,)), G.ref((G.n,))], {}


def g_outer(G):
    k = G.i(2, 200)
    return [G.ref(s) for s in G.perm([G.c([(k,), (k, 1), (1, k)]), G.c([(G.n // k,), (2, G.n // k // 2)])])], {}


def g_matmat(G):
    k, m = G.i(1, 4), G.i(1, 4)
    a, b, c = G.c([(G.n // k, k, m), (k, G.n // k, m), (k, m, G.n // m), (120, 120, 120)])
    return [G.ref((a, b)), G.ref((b, c))], {}


def g_matvec(G):
    k = G.c([1, 2, 3, int(G.n**.5), G.n // 2, G.n])
    return [G.ref((G.n // k, k)), G.ref((k,))], {}


def g_reshape(G):
    s = G.big()
    n = int(np.prod(s))
    k = G.c([d for d in range(1, 200) if n % d == 0])
    return [G.ref(s)], {'shape': list(G.c([(n,), (n // k, k), (k, n // k)]))}


def g_expand(G):
    if G.b():
        s = G.big()
        return [G.ref((1,))], dict({'shape': list(s)}, **({'idx': 'i->' + 'ijk'[:len(s)]} if G.b() else {}))
    k = G.c([1, 2, 3, 50, G.n // 2])
    s = G.big((1, 2)) if k == 1 else ((G.n // k,) if k > 4 or G.b() else (G.n // k // 2, 2))
    out, sh = list('ij'[:len(s)]), list(s)
    q = G.i(0, len(s))
    out.insert(q, 'a')
    sh.insert(q, k)
    return [G.ref(s)], {'shape': sh, 'idx': 'ij'[:len(s)] + '->' + ''.join(out)}


def g_rotmat(G):
    return [G.ref(G.c([(G.n // 3,), (G.n // 9, 3), (2, G.n // 6)]))], {'axis': G.c(['x', 'y', 'z'])}


def g_if(G):
    s = G.big()
    return [G.ref((1,)), G.ref(s), G.ref(s)], {'neg': G.b()}


def g_assign(G):
    return O.gen_assign(G, G.big())


GENS = {n: O.GEN[n] for n in ['neg', 'add', 'sub', 'mul', 'div', 'sum', 'average', 'pnorm', 'max', 'min', 'transpose',
                              'reorder', 'index', 'define'] + list(O.NP_UN)}
GENS.update({n: g_left if n.startswith('c') else g_const for n in CONST})
GENS.update(dot=g_dot, cross=g_cross, inner=g_inner, outer=g_outer, matmat=g_matmat, matvec=g_matvec, reshape=g_reshape,
            expand=g_expand, rotmat=g_rotmat, if_else=g_if, assign=g_assign)
NAMES = [n for n in GENS if n not in O.NP_UN] * 3 + list(O.NP_UN)


@st.composite
def cases(draw):
    G = Big(draw)
    name = G.c(NAMES)
    while True:
        r = GENS[name](G)
        if r is not None:
            break
        name = 'add'
    args, p = r
    post = G.c(['', '', 'mul', 'scalar'])
    if name in ('assign', 'define'):
        p['name'] = 'v' if post else 'w'
    return {'op': name, 'p': p, 'shapes': [list(G.shapes[a]) for a in args], 'seed': G.i(0, 2**20), 'pre': G.b(),
            'post': post, 'mode': G.c(['fwd', 'rev']), 'indep': G.b(), 'hash': G.i(0, 1000)}


def strategy(tier):
    return cases()


def parameters(c, rng):
    p = dict(c['p'])
    t = p.pop('const', None)
    if t == 'float':
        p.update(c=2.5, ct='float')
    elif t == 'arr':
        p.update(c=rng.choice([.5, 1., 1.5, 2.5, 3.], int(np.prod(c['shapes'][0]))).tolist(), cs=c['shapes'][0], ct='arr')
    return p


def close(what, got, want, tol=1e-7):
    got, want = np.asarray(got, float).reshape(-1), np.asarray(want, float).reshape(-1)
    if got.size != want.size:
        Hn.fail('%s: %d elements, expected %d' % (what, got.size, want.size))
    bad = ~(np.abs(got - want) <= tol * (1e-3 * np.max(np.abs(want)) + np.abs(want)) + 1e-12)
    if np.any(bad):
        i = int(np.argmax(bad))
        Hn.fail('%s: element %d is %r, expected %r' % (what, i, got[i], want[i]))


def check_case(c):
    import openmdao.api as om
    import omtools.api as ot
    rng = np.random.default_rng(c['seed'])
    p = parameters(c, rng)
    vals = [[rng.uniform(.2, .45, s) for s in c['shapes']] for _ in range(2)]
    if c['op'] == 'if_else':
        for v in vals:
            v[0] = np.array([-.5 if p['neg'] else .5])
    names = ['x%d' % i for i in range(len(c['shapes']))]

    def ref(xs):
        xs = [x * 2. for x in xs] if c['pre'] and c['op'] != 'if_else' else xs
        if c['op'] == 'powc' and 'cs' not in p:
            y = xs[0]**2.5
        elif c['op'] == 'powc':
            y = xs[0]**np.reshape(p['c'], p['cs'])
        else:
            y = O.REF[c['op']](p, *xs)
        if c['post'] == 'mul':
            return y * y
        if c['post'] == 'scalar':
            return np.sum(np.sin(y)).reshape((1,))
        return y

    class G(ot.Group):
        def setup(self):
            xs = []
            for n, v in zip(names, vals[0]):
                xs.append(self.create_indep_var(n, shape=v.shape, val=v) if c['indep'] else
                          self.declare_input(n, shape=v.shape, val=v))
            if c['pre'] and c['op'] != 'if_else':
                xs = [x * 2. for x in xs]
            y = O.BUILD[c['op']](self, ot, p, *xs)
            if c['post'] == 'mul':
                y = y * y
            elif c['post'] == 'scalar':
                y = ot.sum(ot.sin(y))
            if y.name != 'w':
                self.register_output('w', y)

    with open('/proc/self/statm') as f:
        used = int(f.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (used + MEMORY if hard < 0 else min(used + MEMORY, hard), hard))
    try:
        with Hn.real('building and running a valid model on large arrays'):
            prob = om.Problem(model=G())
            prob.setup(mode=c['mode'])
            prob.run_model()
        for point in range(2):
            if point:
                with Hn.real('running at new input values'):
                    for n, v in zip(names, vals[1]):
                        prob.set_val(n, v)
                    prob.run_model()
            xs = vals[point]
            want = ref(xs)
            with Hn.real('reading the output'):
                close('value', omrun.get(prob, 'w'), want)
            d = [rng.standard_normal(x.shape) for x in xs]
            if c['op'] == 'if_else':
                d[0][:] = 0.
            jv = ref([x + 1e-30j * e for x, e in zip(xs, d)]).imag * 1e30
            with Hn.real('computing derivatives on large arrays'):
                if c['mode'] == 'fwd':
                    r = prob.compute_jacvec_product(['w'], names, 'fwd', dict(zip(names, d)), linearize=True)['w']
                    close('directional derivative', r, jv)
                else:
                    s = rng.uniform(.5, 1., want.shape)
                    r = prob.compute_jacvec_product(['w'], names, 'rev', {'w': s}, linearize=True)
                    got = sum(float(np.sum(np.reshape(r[n], e.shape) * e)) for n, e in zip(names, d))
                    scale = sum(float(np.sum(np.abs(np.reshape(r[n], e.shape) * e))) for n, e in zip(names, d))
                    if not abs(got - float(np.sum(s * jv))) <= 1e-9 * (scale + float(np.sum(np.abs(s * jv)))) + 1e-12:
                        Hn.fail('derivative along a direction: %r, expected %r' % (got, float(np.sum(s * jv))))
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def classify(c):
    return {'op:' + c['op'], 'mode:' + c['mode'], 'axes:%d' % len(c['shapes'][0])}


def nontrivial(c):
    return True
