"""Invalid models are rejected: a valid program with one invalid statement."""
import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import omrun, strat
from vp import ops as O
from vp import prog as P

ID = 'C21'
EXAMPLES = {'quick': 30000, 'thorough': 120000}
RULE = ('a case is a valid generated program plus one invalid statement from a table of templates with '
        'generated parameters; the program alone must run and with the statement must be rejected; every case '
        'is non-trivial')

T = {}      # name -> (gen(G) -> args, params ; build(g, ot, p, *exprs) -> expression or None)


def t(gen):
    def deco(f):
        T[f.__name__] = (gen, f)
        return f
    return deco


def anyx(G):
    return [G.ref()], {}


def leafx(G):
    return [G.newleaf(G.newshape())], {}


def mism(G):
    """Two expressions of different shapes."""
    a = G.ref()
    s = G.shape(a)
    k = G.c(['more', 'perm', 'nd', 'scalar'])
    s2 = list(s)
    if k == 'more':
        s2[G.i(0, len(s) - 1)] += G.i(1, 2)
    elif k == 'perm' and tuple(s[::-1]) != s:
        s2 = list(s[::-1])
    elif k == 'scalar' and s != (1,):
        s2 = [1]
    else:
        s2 = s2 + [1] if G.b() else [1] + s2
    b = G.ref(shape=tuple(s2))
    return ([a, b] if G.b() else [b, a]), {}


def vec(n=(2, 5)):
    def f(G):
        return [G.ref(shape=(G.i(*n),))], {}
    return f


# ---- names and registration
@t(anyx)
def register_twice(g, ot, p, x):
    e = ot.sin(x)
    g.register_output('b1', e)
    g.register_output('b2', e)


@t(anyx)
def same_name_twice(g, ot, p, x):
    g.register_output('b1', ot.sin(x))
    g.register_output('b1', ot.cos(x))


@t(anyx)
def name_of_indep(g, ot, p, x):
    g.create_indep_var('b1', val=2.)
    g.register_output('b1', ot.cos(x))


@t(anyx)
def name_of_created(g, ot, p, x):
    o = g.create_output('b1', shape=x.shape)
    o.define(ot.tanh(x))
    g.register_output('b1', ot.cos(x))


@t(anyx)
def created_twice(g, ot, p, x):
    for f in (ot.sin, ot.cos):
        o = g.create_output('b1', shape=x.shape)
        o.define(f(x))


@t(anyx)
def indep_twice(g, ot, p, x):
    g.create_indep_var('b1', val=2.)
    g.create_indep_var('b1', val=3.)


@t(lambda G: ([], {'s': list(G.newshape())}))
def register_input(g, ot, p):
    g.register_output('b1', g.declare_input('bi', shape=tuple(p['s'])))


@t(anyx)
def register_created(g, ot, p, x):
    o = g.create_output('b1', shape=x.shape)
    o.define(ot.tanh(x))
    g.register_output('b2', o)


@t(lambda G: ([], {'c': G.c([1, 2.5, 'x', None])}))
def register_nonexpr(g, ot, p):
    g.register_output('b1', p['c'])


# ---- outputs
@t(lambda G: ([], {'s': list(G.newshape())}))
def never_defined(g, ot, p):
    g.create_output('b1', shape=tuple(p['s']))


@t(anyx)
def never_defined_used(g, ot, p, x):
    o = g.create_output('b1', shape=x.shape)
    return o + x


@t(anyx)
def defined_as_self(g, ot, p, x):
    o = g.create_output('b1', shape=x.shape)
    o.define(o)


@t(anyx)
def defined_twice(g, ot, p, x):
    o = g.create_output('b1', shape=x.shape)
    o.define(ot.sin(x))
    o.define(ot.cos(x))


@t(mism)
def define_other_shape(g, ot, p, x, y):
    o = g.create_output('b1', shape=x.shape)
    o.define(ot.sin(y))


def _selfassign(G):
    n = G.i(2, 5)
    c = G.i(1, n - 1)
    return [G.ref(shape=(c,))], {'n': n, 'c': c, 'via': G.c(['read', 'read', 'other', 'whole']), 'order': G.b()}


@t(_selfassign)
def assigned_in_terms_of_itself(g, ot, p, x):
    n, c = p['n'], p['c']
    o = g.create_output('bo', shape=(n,))
    if p['order']:
        o[0:c] = ot.sin(x)
    if p['via'] == 'read':
        y = ot.expand(ot.sum(ot.cos(o[0:c])), (n - c,))
    elif p['via'] == 'whole':
        y = ot.expand(ot.sum(o * o), (n - c,))
    else:
        o2 = g.create_output('bo2', shape=(n,))
        o2[0:n] = ot.tanh(o)
        y = ot.expand(ot.sum(o2), (n - c,))
    o[c:n] = y
    if not p['order']:
        o[0:c] = ot.sin(x)


@t(vec())
def define_then_assign(g, ot, p, x):
    o = g.create_output('b1', shape=x.shape)
    o.define(ot.sin(x))
    o[0:x.shape[0]] = ot.cos(x)


@t(vec())
def assign_then_define(g, ot, p, x):
    o = g.create_output('b1', shape=x.shape)
    o[0:x.shape[0]] = ot.cos(x)
    o.define(ot.sin(x))


def overlap_p(G):
    """Disjoint blocks, of which a further one overlaps at least one"""
    n = G.i(2, 8)
    blocks = []
    k = 0
    while k < n:
        e = G.i(k + 1, n)
        if G.c([True, True, True, False]):
            blocks.append([k, e])
        k = e
    if not blocks:
        blocks = [[0, G.i(1, n)]]
    a, b = G.c(blocks)
    k = G.i(a, b - 1)
    blocks = G.perm(blocks)
    blocks.insert(G.i(0, len(blocks)), [G.i(max(0, k - 2), k), G.i(k + 1, min(n, k + 2))])
    return [G.newleaf((e - s,)) for s, e in blocks], {'n': n, 'b': blocks, 'int': G.b()}


@t(overlap_p)
def assign_overlap(g, ot, p, *x):
    o = g.create_output('b1', shape=(p['n'],))
    for e, (a, b) in zip(x, p['b']):
        if p['int'] and b == a + 1:
            o[a] = e
        else:
            o[a:b] = e


def overlap2_p(G):
    s = [G.i(2, 3), G.i(2, 3)]
    k = [G.i(0, n - 1) for n in s]
    blocks = []
    for _ in range(2):
        lo = [G.i(0, i) for i in k]
        hi = [G.i(i + 1, n) for i, n in zip(k, s)]
        blocks.append([lo, hi])
    return [G.newleaf(tuple(h - l for l, h in zip(*b))) for b in blocks], {'s': s, 'b': blocks}


@t(overlap2_p)
def assign_overlap_nd(g, ot, p, x, y):
    o = g.create_output('b1', shape=tuple(p['s']))
    for e, (lo, hi) in zip((x, y), p['b']):
        o[tuple(slice(a, b) for a, b in zip(lo, hi))] = e


@t(lambda G: ([G.newleaf((1,))], {'n': G.i(2, 4)}))
def assign_reuse(g, ot, p, x):
    o = g.create_output('b1', shape=(p['n'],))
    o[0] = x
    o[1] = x


@t(lambda G: ([G.newleaf((1,))], {'n': G.i(1, 4), 'd': G.i(0, 3)}))
def assign_out_of_range(g, ot, p, x):
    o = g.create_output('b1', shape=(p['n'],))
    o[p['n'] + p['d']] = x


def range_p(G):
    n = G.i(1, 4)
    a = G.i(0, n - 1)
    b = n + G.i(1, 3)
    return [G.newleaf((b - a,))], {'n': n, 'a': a, 'b': b}


@t(range_p)
def assign_slice_out_of_range(g, ot, p, x):
    o = g.create_output('b1', shape=(p['n'],))
    o[p['a']:p['b']] = x


def range2_p(G):
    s = [G.i(1, 3), G.i(1, 3)]
    ax = G.i(0, 1)
    hi = list(s)
    hi[ax] += G.i(1, 2)
    return [G.newleaf(tuple(hi))], {'s': s, 'hi': hi}


@t(range2_p)
def assign_out_of_range_nd(g, ot, p, x):
    o = g.create_output('b1', shape=tuple(p['s']))
    o[0:p['hi'][0], 0:p['hi'][1]] = x


def ashape_p(G):
    n = G.i(2, 5)
    a = G.i(0, n - 1)
    b = G.i(a + 1, n)
    m = G.c([x for x in range(1, 6) if x != b - a])
    return [G.newleaf((m,))], {'n': n, 'a': a, 'b': b}


@t(ashape_p)
def assign_other_shape(g, ot, p, x):
    o = g.create_output('b1', shape=(p['n'],))
    o[p['a']:p['b']] = x


def mk_same_size(G):
    blk = [G.i(1, 3) for _ in range(G.i(1, 3))]
    n = int(np.prod(blk))
    alt = {(n,), (n, 1), (1, n), tuple(blk[::-1]), tuple(blk) + (1,), (1,) + tuple(blk)} - {tuple(blk)}
    off = [G.i(0, 2) for _ in blk]
    return [G.newleaf(G.c(sorted(alt)))], {'blk': blk, 'off': off, 'more': [G.i(0, 2) for _ in blk]}


@t(mk_same_size)
def assign_same_size(g, ot, p, x):
    """As many elements as the block has, in another shape."""
    o = g.create_output('b1', shape=tuple(a + b + c for a, b, c in zip(p['off'], p['blk'], p['more'])))
    o[tuple(slice(a, a + b) for a, b in zip(p['off'], p['blk']))] = x


@t(lambda G: ([G.newleaf((1,))], {'c': G.c(['a', 1.5, None])}))
def assign_bad_key(g, ot, p, x):
    o = g.create_output('b1', shape=(2,))
    o[p['c']] = x


@t(lambda G: ([], {'c': G.c([1., 'a', None])}))
def assign_nonexpr(g, ot, p):
    o = g.create_output('b1', shape=(1,))
    o[0] = p['c']


# ---- reading elements
@t(lambda G: ([G.newleaf((G.i(1, 4),))], {'d': G.i(0, 3)}))
def read_out_of_range(g, ot, p, x):
    return x[x.shape[0] + p['d']]


@t(lambda G: ([G.newleaf((G.i(1, 4),))], {'a': G.i(0, 1), 'd': G.i(1, 3)}))
def read_slice_out_of_range(g, ot, p, x):
    return x[min(p['a'], x.shape[0] - 1):x.shape[0] + p['d']]


@t(lambda G: ([G.newleaf((G.i(1, 3), G.i(1, 3)))], {'ax': G.i(0, 1), 'd': G.i(0, 2), 'sl': G.b()}))
def read_out_of_range_nd(g, ot, p, x):
    k = [slice(0, n) for n in x.shape]
    n = x.shape[p['ax']]
    k[p['ax']] = slice(0, n + p['d'] + 1) if p['sl'] else n + p['d']
    return x[tuple(k)]


@t(lambda G: ([G.newleaf((2,))], {'c': G.c([1.5, 'a', None])}))
def read_bad_key(g, ot, p, x):
    return x[p['c']]


# ---- arithmetic
def _mk(name, f):
    T[name] = (mism, f)


for _n, _f in {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y,
               'div': lambda x, y: x / y}.items():
    _mk('shape_' + _n, (lambda f: (lambda g, ot, p, x, y: f(x, y)))(_f))


def bad_operand(G):
    return [G.ref()], {'op': G.c(['+', '-', '*', '/', '**', 'r+', 'r-', 'r*', 'r/']), 'c': G.c(['a', None, [1., 2.]])}


@t(bad_operand)
def operand_type(g, ot, p, x):
    c = p['c']
    return {'+': lambda: x + c, '-': lambda: x - c, '*': lambda: x * c, '/': lambda: x / c, '**': lambda: x**c,
            'r+': lambda: c + x, 'r-': lambda: c - x, 'r*': lambda: c * x, 'r/': lambda: c / x}[p['op']]()


def constshape(G):
    x = G.newleaf(G.newshape())
    s = list(G.shape(x))
    s[G.i(0, len(s) - 1)] += G.i(1, 2)
    if any(n == 1 for n in G.shape(x)):       # no broadcasting
        s = [n + 1 for n in G.shape(x)]
    return [x], {'op': G.c(['+', '-', '*', '/', '**']), 's': s}


@t(constshape)
def constant_shape(g, ot, p, x):
    c = np.full(p['s'], 2.)
    return {'+': lambda: x + c, '-': lambda: x - c, '*': lambda: x * c, '/': lambda: x / c,
            '**': lambda: x**c}[p['op']]()


@t(lambda G: ([G.ref()], {'k': G.c(['int', 'float', 'arr'])}))
def division_by_zero(g, ot, p, x):
    if p['k'] == 'arr':
        c = np.ones(x.shape)
        c[tuple(0 for _ in x.shape)] = 0
        return x / c
    return x / (0 if p['k'] == 'int' else 0.)


@t(lambda G: ([G.ref(shape=(2,), kind='pos'), G.ref(shape=(2,))], {}))
def power_expression(g, ot, p, x, y):
    return x**y


# ---- functions
def nonexpr(G):
    return [G.ref(shape=(3,))], {'c': G.c(['num', 'arr', 'str', 'none', 'list']), 'first': G.b()}


def _nonexpr(name, f):
    def build(g, ot, p, x):
        c = {'num': .5, 'arr': np.full(3, .5), 'str': 'a', 'none': None, 'list': [.5, .5, .5]}[p['c']]
        return f(ot, (c, x) if p['first'] else (x, c), c)
    T['nonexpr_' + name] = (nonexpr, build)


for _n in list(O.NP_UN) + ['transpose', 'pnorm']:
    _nonexpr(_n, (lambda n: lambda ot, two, c: getattr(ot, n)(c))(_n))
for _n in ('sum', 'average', 'max', 'min'):
    _nonexpr(_n, (lambda n: lambda ot, two, c: getattr(ot, n)(c))(_n))
    _nonexpr(_n + '2', (lambda n: lambda ot, two, c: getattr(ot, n)(*two))(_n))
for _n in ('dot', 'inner', 'outer', 'matmat', 'matvec'):
    _nonexpr(_n, (lambda n: lambda ot, two, c: getattr(ot, n)(*two))(_n))
_nonexpr('cross', lambda ot, two, c: ot.cross(*two, axis=0))
_nonexpr('reshape', lambda ot, two, c: ot.reshape(c, (3, 1)))
_nonexpr('reorder', lambda ot, two, c: ot.reorder_axes(c, 'i->i'))
_nonexpr('expand', lambda ot, two, c: ot.expand(c, (3, 2), 'i->ij'))
_nonexpr('rotmat', lambda ot, two, c: ot.rotmat(c, 'x'))
_nonexpr('einsum', lambda ot, two, c: ot.einsum(*two, subscripts='i,i->i'))
_nonexpr('einsum_new', lambda ot, two, c: ot.einsum_new_api(*two, operation=[('i',), ('i',), ('i',)]))
_nonexpr('if_else', lambda ot, two, c: ot.if_else(ot.sum(two[0]) if two[0] is not c else ot.sum(two[1]), *two))


for _n in ('sum', 'average', 'max', 'min'):
    T['shape_%s' % _n] = (mism, (lambda f: (lambda g, ot, p, x, y: getattr(ot, f)(x, y)))(_n))


def axis_p(G):
    x = G.ref(nd=(2, 3))
    return [x], {'f': G.c(['sum', 'average', 'max', 'min', 'pnorm']), 'd': G.i(0, 2)}


@t(axis_p)
def axis_out_of_range(g, ot, p, x):
    a = len(x.shape) + p['d']
    f = getattr(ot, p['f'])
    if p['f'] in ('max', 'min', 'pnorm'):
        return f(x, axis=a)
    return f(x, axes=(a,))


@t(lambda G: ([G.ref(kind='nz')], {'n': G.c([1, 3, 5, 0, -2])}))
def pnorm_odd(g, ot, p, x):
    return ot.pnorm(x, p['n'])


@t(lambda G: ([G.newleaf((2, 3)), G.newleaf((2, 3))], {'f': G.c(['max', 'min']), 'ax': G.i(0, 1)}))
def extremum_axis_several(g, ot, p, x, y):
    return getattr(ot, p['f'])(x, y, axis=p['ax'])


def vmism(G):
    n = G.i(1, 4)
    m = G.c([k for k in range(1, 6) if k != n] + [1] * (2 * (n > 1)))
    return [G.newleaf((n,)), G.newleaf((m,))], {}


@t(vmism)
def dot_shape(g, ot, p, x, y):
    return ot.dot(x, y)


@t(lambda G: ([G.newleaf((2, 3)), G.newleaf(G.c([(3, 2), (3, 3), (2, 3, 1), (1, 2, 3), (2, 1, 3), (2, 4), (1, 3)]))], {}))
def dot_shape_nd(g, ot, p, x, y):
    return ot.dot(x, y, axis=1)


@t(lambda G: ([G.newleaf((2, 3)), G.newleaf((2, 3))], {'f': G.c(['dot', 'cross'])}))
def wrong_axis(g, ot, p, x, y):
    return getattr(ot, p['f'])(x, y, axis=0)


@t(lambda G: ([G.newleaf((2, 3)), G.newleaf(G.c([(3, 2), (3, 3), (2, 3, 1), (1, 2, 3), (2, 1, 3), (3,), (1, 3)]))], {}))
def cross_shape(g, ot, p, x, y):
    return ot.cross(x, y, axis=1)


@t(vmism)
def inner_shape(g, ot, p, x, y):
    return ot.inner(x, y)


@t(lambda G: ([G.newleaf((2, 3)), G.newleaf((4, 2))], {}))
def inner_shape_nd(g, ot, p, x, y):
    return ot.inner(x, y, axes=([1], [0]))


def mm(G):
    a, b, d = G.i(1, 3), G.i(1, 3), G.i(1, 3)
    c = G.c([k for k in range(1, 5) if k != b] + [1] * (2 * (b > 1)))
    return [G.newleaf((a, b)), G.newleaf((c, d))], {}


@t(mm)
def matmat_shape(g, ot, p, x, y):
    return ot.matmat(x, y)


def mv(G):
    a, b = G.i(1, 3), G.i(1, 3)
    c = G.c([k for k in range(1, 5) if k != b] + [1] * (2 * (b > 1)))
    return [G.newleaf((a, b)), G.newleaf((c,))], {}


def es(G):
    # a size of one is broadcast, as by numpy.einsum
    a, b = G.i(1, 3), G.i(2, 3)
    c = G.c([k for k in range(2, 5) if k != b])
    return [G.newleaf((a, b)), G.newleaf((c,))], {}


@t(mv)
def matvec_shape(g, ot, p, x, y):
    return ot.matvec(x, y)


@t(lambda G: ([G.newleaf(x) for x in G.c([((2, 3, 2), (3,)), ((2, 3), (3, 1, 2)), ((2, 3, 1), (3, 2)), ((2,), (2, 3)), ((3,), (3,)),
                                           ((2, 3, 3), (3,)), ((2, 3, 3), (3, 3))])], {'f': G.c(['matmat', 'matvec'])}))
def matmat_axes(g, ot, p, x, y):
    return getattr(ot, p['f'])(x, y)


@t(es)
def einsum_shape(g, ot, p, x, y):
    return ot.einsum(x, y, subscripts='ij,j->i', partial_format='dense')


@t(es)
def einsum_shape_sparse(g, ot, p, x, y):
    return ot.einsum(x, y, subscripts='ij,j->i', partial_format='sparse')


@t(es)
def einsum_new_shape(g, ot, p, x, y):
    return ot.einsum_new_api(x, y, operation=[('i', 'j'), ('j',), ('i',)])


@t(lambda G: ([G.newleaf((2, 3))], {'s': G.c(['i->i', 'ijk->i', 'ij,j->i', 'ij->k', 'ij->iz'])}))
def einsum_subscripts(g, ot, p, x):
    return ot.einsum(x, subscripts=p['s'])


@t(lambda G: ([G.newleaf((2, 3))], {'f': G.c(['foo', '', None, 'Dense'])}))
def einsum_format(g, ot, p, x):
    return ot.einsum(x, subscripts='ij->ji', partial_format=p['f'])


@t(lambda G: ([G.newleaf((2, 3))], {'s': G.c(['ij->jk', 'ij->j', 'ij->ijk', 'i->i', 'ijk->kji', 'ij'])}))
def reorder_invalid(g, ot, p, x):
    return ot.reorder_axes(x, p['s'])


def reshape_p(G):
    x = G.ref()
    n = int(np.prod(G.shape(x)))
    return [x], {'s': list(G.c(O.factorizations(n + G.i(1, 3))))}


@t(reshape_p)
def reshape_size(g, ot, p, x):
    return ot.reshape(x, tuple(p['s']))


@t(lambda G: ([G.newleaf((2, 3))], {'k': G.c([[[2, 3, 4], None], [[3, 2, 4], 'ij->ijk'], [[2, 3, 4], 'ij->ikj'], [[4, 2, 3], 'ij->ijk'],
                                         [[2, 3, 4], 'ij'], [[2, 3, 1, 4], 'ijl->ijlk'], [[1, 2, 3, 4], 'lij->lijk'], [[6, 4], 'i->ij'],
                                         [[3, 2, 4], 'ij->jik'], [[2, 3, 4], 3]])}))
def expand_invalid(g, ot, p, x):
    return ot.expand(x, tuple(p['k'][0]), p['k'][1])


@t(lambda G: ([G.ref(nd=(1, 2))], {'f': G.c(['max', 'min', 'pnorm', 'sum', 'average']), 'a': G.c([1.5, 'a', [0.5]])}))
def axis_type(g, ot, p, x):
    f = getattr(ot, p['f'])
    a = tuple(p['a']) if isinstance(p['a'], list) else p['a']
    return f(x, axes=a) if p['f'] in ('sum', 'average') else f(x, axis=a)


@t(lambda G: ([G.newleaf(G.c([(2, 3), (3, 2), (1, 3, 2)]))], {'f': G.c(['dot', 'cross']), 'd': G.i(0, 2), 'same': G.b()}))
def product_axis_range(g, ot, p, x):
    return getattr(ot, p['f'])(x, x if p['same'] else ot.sin(x), axis=len(x.shape) + p['d'])


@t(lambda G: ([G.newleaf((2, 3))], {'s': G.c(['ij,jk->ik', 'ij,ij->ij', ',ij->ij']), 'new': G.b()}))
def einsum_operands(g, ot, p, x):
    if p['new']:
        return ot.einsum_new_api(x, operation=[('i', 'j'), ('j', 'k'), ('i', 'k')])
    return ot.einsum(x, subscripts=p['s'])


@t(lambda G: ([G.newleaf((2, 3))], {'s': G.c(['ijk', 'i', 'ik'])}))
def einsum_new_axes(g, ot, p, x):
    return ot.einsum_new_api(x, operation=[tuple(p['s'][:2]) if p['s'] == 'ik' else tuple(p['s']),
                                           ('z',) if p['s'] == 'ik' else ('i',)])


@t(lambda G: ([G.newleaf(G.c([(2,), (1, 2), (3, 2)]), 'cond'), G.ref()], {}))
def if_else_condition(g, ot, p, c, x):
    return ot.if_else(c, x, ot.sin(x))


@t(lambda G: ([G.newleaf((1,))], {'c': G.c(['w', '', 'xy', 1, None, 'X'])}))
def rotmat_axis(g, ot, p, x):
    return ot.rotmat(x, p['c'])


@t(lambda G: ([G.newleaf((1,), 'cond')] + mism(G)[0], {}))
def if_else_shape(g, ot, p, c, x, y):
    return ot.if_else(c, x, y)


def valshape(G):
    s = G.newshape()
    if G.b():
        s = G.c([(1, 1), (1, 1, 1), (1, 1), (1, 2), (2, 2)])
    if s == (1,):
        s = (2,)
    k = G.c(['more', 'more', 'any', 'nd', 'perm', 'flat'])
    s2 = list(s)
    if k == 'any':
        s2 = list(G.newshape())
    elif k == 'nd':
        s2.insert(G.i(0, len(s)), G.i(1, 2))
    elif k == 'perm':
        s2 = s2[::-1]
    elif k == 'flat':
        s2 = [int(np.prod(s))]
    if tuple(s2) == s:
        s2[G.i(0, len(s) - 1)] += 1
    return [], {'s': list(s), 's2': s2, 'list': G.b(), 'k': G.c(['indep', 'input', 'output', 'implicit'])}


@t(valshape)
def value_shape(g, ot, p):
    v = np.ones(p['s2'])
    v = v.tolist() if p['list'] else v
    s = tuple(p['s'])
    if p['k'] == 'indep':
        g.create_indep_var('bi', shape=s, val=v)
    elif p['k'] == 'input':
        return g.declare_input('bi', shape=s, val=v) * 2.
    elif p['k'] == 'output':
        g.create_output('bo', shape=s, val=v).define(g.declare_input('bi', shape=s))
    else:
        g.create_implicit_output('bo', shape=s, val=v)


# ---- values, shapes, ranges
@t(lambda G: ([], {'v': G.c(['a', None, 'dict', 'mixed', 'ragged', 'strings']), 'k': G.c(['indep', 'input', 'output'])}))
def value_type(g, ot, p):
    v = {'dict': {}, 'mixed': [1., 'a'], 'ragged': [[1., 2.], [3.]], 'strings': np.array(['a', 'b'])}.get(p['v'], p['v'])
    if p['k'] == 'indep':
        g.create_indep_var('bi', val=v)
    elif p['k'] == 'input':
        return g.declare_input('bi', val=v) * 2.
    else:
        g.create_output('bo', val=v).define(ot.sin(g.declare_input('bi', shape=np.shape(v) or (1,))))


@t(lambda G: ([], {'s': G.c(['a', None, -1, 2.5, [2, -1], [-2, -2], [1.5, 2]]), 'k': G.c(['indep', 'input', 'output'])}))
def shape_type(g, ot, p):
    s = p['s']
    s = tuple(s) if isinstance(s, list) else (s,) if isinstance(s, (int, float)) else s
    if p['k'] == 'indep':
        g.create_indep_var('bi', shape=s)
    elif p['k'] == 'input':
        return g.declare_input('bi', shape=s) * 2.
    else:
        g.create_output('bo', shape=s).define(ot.sin(g.declare_input('bi', shape=s)))


@t(lambda G: ([G.newleaf((G.i(1, 4),))], {'d': G.i(1, 3), 'k': G.c(['int', 'stop', 'start', 'both', 'empty', 'step', 'back'])}))
def read_before_start(g, ot, p, x):
    """Elements before the first one, no elements"""
    n, d = x.shape[0], p['d']
    k = {'int': -n - d, 'stop': slice(0, -n - d), 'start': slice(-n - d, n), 'both': slice(-n - d - 1, -n - d),
         'empty': slice(n - 1, n - 1), 'step': slice(0, n, 0), 'back': slice(0, n, -1)}[p['k']]
    if p['k'] in ('stop', 'start', 'both', 'back'):     # outside of an output which is assigned
        return g.declare_input('bn', shape=x.shape)[k]
    return x[k]


@t(lambda G: ([G.newleaf((1,))], {'n': G.i(1, 4), 'd': G.i(1, 3), 'k': G.c(['int', 'stop', 'start', 'both', 'empty', 'step'])}))
def assign_before_start(g, ot, p, x):
    n, d = p['n'], p['d']
    o = g.create_output('b1', shape=(n,))
    o[{'int': -n - d, 'stop': slice(0, -n - d), 'start': slice(-n - d, 1 - n - d), 'both': slice(-n - d - 1, -n - d),
       'empty': slice(0, 0), 'step': slice(0, n, 0)}[p['k']]] = x


@t(lambda G: ([G.newleaf((G.i(1, 4),))], {'i': G.i(0, 3), 'k': G.c(['1/x', 'x**-1', 'x**-2.', 'y/x', 'arr', 'x**-.5']), 'op': G.b()}))
def zero_denominator(g, ot, p, y):
    v = np.arange(1., 5.)[:y.shape[0]]
    v[p['i'] % y.shape[0]] = 0.
    x = g.declare_input('bz', val=v)
    if p['op']:
        x = x * 2.
    return {'1/x': lambda: 1 / x, 'x**-1': lambda: x**-1, 'x**-2.': lambda: x**-2., 'y/x': lambda: y / x, 'x**-.5': lambda: x**-.5,
            'arr': lambda: x**np.where(v == 0., -1., 2.)}[p['k']]()


def redaxes_p(G):
    nd = G.i(1, 3)
    a = G.perm(list(range(nd)))[:G.i(1, nd)]
    k = G.c(['dup', 'dupneg', 'far', 'farneg'])
    q = {'dup': a[0], 'dupneg': a[0] - nd, 'far': nd + G.i(0, 2), 'farneg': -nd - G.i(1, 3)}[k]
    a.insert(G.i(0, len(a)), q)
    return [G.newleaf(tuple(G.i(1, 3) for _ in range(nd)), 'nz')], {'f': G.c(['sum', 'average', 'pnorm']), 'a': a, 'two': G.b()}


@t(redaxes_p)
def reduction_axes(g, ot, p, x):
    if p['f'] == 'pnorm':
        return ot.pnorm(x, 2, axis=tuple(p['a']))
    return getattr(ot, p['f'])(*([x, ot.sin(x)] if p['two'] else [x]), axes=tuple(p['a']))


@t(lambda G: ([G.newleaf(tuple(G.i(1, 3) for _ in range(G.i(1, 3))))], {'f': G.c(['max', 'min']), 'd': G.i(1, 3), 'k': G.c(['far', 'farneg', 'dup', 'two'])}))
def extremum_axes(g, ot, p, x):
    nd = len(x.shape)
    return getattr(ot, p['f'])(x, axis={'far': nd - 1 + p['d'], 'farneg': -nd - p['d'], 'dup': (0, 0), 'two': (0, nd)}[p['k']])


@t(lambda G: ([G.newleaf((2, 3)), G.newleaf((2, 3))], {'a': G.c([[[0, 1], [0]], [[2], [2]], [[0, 0], [0, 0]], [[0], [1]], [[-3], [0]], None, [[0, 1], [1, 0]]])}))
def inner_axes(g, ot, p, x, y):
    return ot.inner(x, y) if p['a'] is None else ot.inner(x, y, axes=tuple(p['a']))


@t(lambda G: ([G.newleaf((2, 3)), G.newleaf((2, 3))], {'k': G.c(['short', 'long', 'format', 'unknown', 'noarrow', 'repeat', 'formatnone', 'old'])}))
def einsum_malformed(g, ot, p, x, y):
    k = p['k']
    if k == 'short':
        return ot.einsum_new_api(x, y, operation=[('i', 'j')])
    if k == 'long':
        return ot.einsum_new_api(x, operation=[('i', 'j'), ('i', 'j'), ('i',)])
    if k == 'format':
        return ot.einsum_new_api(x, y, operation=[('i', 'j'), ('i', 'j'), ('i',)], partial_format='spars')
    if k == 'formatnone':
        return ot.einsum_new_api(x, y, operation=[('i', 'j'), ('i', 'j')], partial_format=None)
    if k == 'unknown':
        return ot.einsum_new_api(x, y, operation=[('i', 'j'), ('i', 'j'), ('k',)])
    if k == 'repeat':
        return ot.einsum(x, y, subscripts='ij,ij->ii')
    if k == 'noarrow':
        return ot.einsum(x, y, subscripts='ij,ij')
    return ot.einsum(x, y, subscripts='ij,ij->k', partial_format='sparse')


# ---- subsystems
@t(lambda G: ([G.ref()], {'k': G.c(['name', 'promoted', 'source', 'declared', 'order', 'pattern', 'object', 'twice'])}))
def subsystems(g, ot, p, x):
    import openmdao.api as om
    k = p['k']
    one = lambda n: om.ExecComp('%s=2*%s_i' % (n, n))
    if k == 'name':
        g.add_subsystem('bs', one('ba'), promotes=['*'])
        g.add_subsystem('bs', one('bb'), promotes=['*'])
    elif k == 'promoted':
        g.add_subsystem('bs', one('ba'), promotes=['*'])
        g.register_output('ba', ot.sin(x))
    elif k == 'twice':
        g.add_subsystem('bs', one('ba'), promotes=['*'])
        g.add_subsystem('bt', one('ba'), promotes=['*'])
    elif k == 'source':
        g.add_subsystem('bs', one('ba'), promotes=['*'])
        return g.declare_input('ba', shape=(3,)) * 2.
    elif k == 'declared':
        return ot.sum(g.declare_input('ba', shape=(3,))) + ot.sum(g.declare_input('ba', shape=(2, 2)))
    elif k == 'order':
        g.create_indep_var('ba', shape=(2,))
        return g.declare_input('ba', shape=(4,)) * 2.
    elif k == 'pattern':
        g.add_subsystem('bs', one('ba'), promotes=['bx'])
    else:
        g.add_subsystem('bs', 'x')


@t(lambda G: ([G.ref()], {'n': G.c(['', 'a b', 'a.b', None, 3]), 'k': G.c(['out', 'indep', 'created', 'input'])}))
def bad_name(g, ot, p, x):
    n = p['n']
    if p['k'] == 'out':
        g.register_output(n, ot.sin(x))
    elif p['k'] == 'indep':
        g.create_indep_var(n, val=2.)
    elif p['k'] == 'created':
        g.create_output(n, shape=x.shape).define(ot.sin(x))
    else:
        return g.declare_input('a.b' if n == 'a b' else n) * 2.


# ---- implicit components
def implicit(g, ot, f, solve=None):
    """Add a component with the invalid statements `f(group)` to the model."""
    import openmdao.api as om

    class Inv(ot.ImplicitComponent):
        def setup(self):
            f(self.group)
            self.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=3, iprint=-1)
            self.linear_solver = om.DirectSolver()
    g.add_subsystem('inv', Inv(), promotes=['*'])


def impl_p(G):
    return [], {'s': list(G.newshape((1, 2), 3)), 'br': G.b(), 'arr': G.b()}


def residual(p, x, r):
    if p['br']:
        lo, hi = -1., 2.
        if p['arr']:
            lo, hi = np.full(x.shape, lo), np.full(x.shape, hi)
        x.define_residual_bracketed(r, x1=lo, x2=hi)
    else:
        x.define_residual(r)


@t(impl_p)
def residual_self(g, ot, p):
    def f(g):
        x = g.create_implicit_output('bx', shape=tuple(p['s']))
        residual(p, x, x)
    implicit(g, ot, f)


@t(lambda G: ([], {'s': list(G.newshape((1, 2), 3)), 'br': G.b(), 'arr': G.b(), 'br2': G.b()}))
def residual_twice(g, ot, p):
    def f(g):
        a = g.declare_input('ba', shape=tuple(p['s']))
        x = g.create_implicit_output('bx', shape=tuple(p['s']))
        residual(p, x, x - a)
        residual(dict(p, br=p['br2']), x, 2. * x - a)
    implicit(g, ot, f)


@t(lambda G: ([], {'s': list(G.newshape((1, 2), 3)), 'br': G.b(), 'arr': G.b(), 'used': G.b(), 'order': G.b()}))
def residual_never(g, ot, p):
    def f(g):
        a = g.declare_input('ba', shape=tuple(p['s']))
        if p['order']:
            y = g.create_implicit_output('by', shape=tuple(p['s']))
        x = g.create_implicit_output('bx', shape=tuple(p['s']))
        if not p['order']:
            y = g.create_implicit_output('by', shape=tuple(p['s']))
        residual(p, x, x - a - y if p['used'] else x - a)
    implicit(g, ot, f)


def rshape_p(G):
    s = G.newshape((1, 2), 3)
    if G.b():
        s2 = list(s)
        s2[G.i(0, len(s) - 1)] += G.i(1, 2)
    else:
        s2 = list(s) + [1] if G.b() else [1] + list(s)
    if G.b():
        s, s2 = s2, s
    return [], {'s': list(s), 's2': list(s2), 'br': G.b(), 'arr': G.b()}


@t(rshape_p)
def residual_shape(g, ot, p):
    def f(g):
        a = g.declare_input('ba', shape=tuple(p['s2']))
        x = g.create_implicit_output('bx', shape=tuple(p['s']))
        if x.shape == (1,):
            r = ot.expand(x, a.shape) - a
        elif a.shape == (1,):
            r = ot.pnorm(x) - a
        elif np.prod(a.shape) == np.prod(x.shape):
            r = ot.reshape(x, a.shape) - a
        else:
            r = ot.expand(ot.sum(x), a.shape) - a
        residual(p, x, r)
    implicit(g, ot, f)


@t(impl_p)
def residual_shared(g, ot, p):
    def f(g):
        a = g.declare_input('ba', shape=tuple(p['s']))
        x = g.create_implicit_output('bx', shape=tuple(p['s']))
        y = g.create_implicit_output('by', shape=tuple(p['s']))
        r = x - a * y
        residual(p, x, r)
        residual(p, y, r)
    implicit(g, ot, f)


@t(impl_p)
def residual_input(g, ot, p):
    def f(g):
        a = g.declare_input('ba', shape=tuple(p['s']))
        residual(p, g.create_implicit_output('bx', shape=tuple(p['s'])), a)
    implicit(g, ot, f)


@t(impl_p)
def residual_nonexpr(g, ot, p):
    def f(g):
        residual(p, g.create_implicit_output('bx', shape=tuple(p['s'])), 2.)
    implicit(g, ot, f)


@t(impl_p)
def implicit_name_twice(g, ot, p):
    def f(g):
        a = g.declare_input('ba', shape=tuple(p['s']))
        for _ in range(2):
            x = g.create_implicit_output('bx', shape=tuple(p['s']))
            residual(p, x, x - a)
    implicit(g, ot, f)


NAMES = sorted(T)
# templates with many parameters
NAMES += ['value_shape'] * 3 + ['assign_overlap', 'assign_overlap_nd', 'assign_other_shape', 'assign_same_size', 'reshape_size', 'expand_invalid']


@st.composite
def cases(draw, nmax):
    G = P.Gen(draw)
    G.fill(strat.WEIGHTED, G.i(0, nmax))
    name = G.c(NAMES)
    args, p = T[name][0](G)
    L = len(G.leaves)
    m = {r: (i if k == 'leaf' else L + i) for r, (k, i) in enumerate(G.refs)}
    prog = G.finish()
    return {'prog': prog, 't': name, 'args': [m[a] for a in args], 'p': p, 'hash': G.i(0, 1000), 'first': G.b(), 'wrap': G.b()}


def strategy(tier):
    return cases(4 if tier == 'quick' else 8)


def build_and_run(case, invalid):
    import omtools.api as ot
    prog = case['prog']

    def bad(g, args):
        if case.get('wrap'):
            args = [a if a.shape is None else a * 1. for a in args]
        e = T[case['t']][1](g, ot, case['p'], *args)
        if e is not None:
            g.register_output('bad', e)

    def setup(g):
        L = P.nleaf(prog)
        exprs = {}
        for i, l in enumerate(prog['leaves']):
            exprs[i] = P.declare_leaf(g, l)
        done = not invalid
        for i, n in enumerate(prog['nodes']):
            if not done and case['first'] and all(a in exprs for a in case['args']):
                bad(g, [exprs[a] for a in case['args']])
                done = True
            exprs[L + i] = O.BUILD[n['op']](g, ot, n['p'], *[exprs[a] for a in n['args']])
        for o in prog['outs']:
            g.register_output(o['name'], exprs[o['ref']])
        if not done:
            bad(g, [exprs[a] for a in case['args']])
    prob = omrun.new_problem(type('Bad', (ot.Group,), {'setup': setup})())
    prob.run_model()
    return prob


def check_case(case):
    # the program without the invalid statement is accepted
    if P.outputs(case['prog']) or P.live_leaves(case['prog']):
        with Hn.real('building and running a valid model'):
            build_and_run(case, False)
    try:
        build_and_run(case, True)
    except Exception:
        return
    except SystemExit as e:
        Hn.fail('invalid model (%s) exits the interpreter (%r)' % (case['t'], e.code))
    Hn.fail('invalid model (%s %s) is accepted and runs' % (case['t'], case['p']))


def classify(case):
    return {'invalid:' + case['t'], 'nodes:%d' % len(case['prog']['nodes'])}


def nontrivial(case):
    return True
