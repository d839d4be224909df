"""Operation registry: for every public operation of omtools.api a generator of valid
applications, an independent numpy reference (complex-safe, so that complex-step
differentiation of the reference is exact) and the omtools construction.

An operation application is JSON-able: {'op', 'args': [ref, ...], 'p': {...}}.
"""
import string

import numpy as np

# ---------------------------------------------------------------- value domains
DOM = {
    'any': lambda v: np.all(np.abs(v) <= 60),
    'small': lambda v: np.all(np.abs(v) <= 3),
    'pos': lambda v: np.all(v >= 0.1) and np.all(v <= 60),
    'nz': lambda v: np.all(np.abs(v) >= 0.2) and np.all(np.abs(v) <= 60),
    'unit': lambda v: np.all(np.abs(v) <= 0.9),
    'cosok': lambda v: np.all(np.abs(np.cos(v)) >= 0.2) and np.all(np.abs(v) <= 60),
    'sinok': lambda v: np.all(np.abs(np.sin(v)) >= 0.2) and np.all(np.abs(v) <= 60),
    'nzsmall': lambda v: np.all(np.abs(v) >= 0.2) and np.all(np.abs(v) <= 3),
    'cond': lambda v: np.all(np.abs(v) >= 1e-3) and np.all(np.abs(v) <= 60),
    'cond0': lambda v: False,
    'big': lambda v: np.any(np.abs(v) >= 12) and np.all(np.abs(v) <= 60),
}


def leaf_values(rng, size, kind, style):
    """Values for a new leaf, in the requested domain."""
    if kind == 'unit':
        v = rng.integers(-7, 8, size) / 8.
    elif kind == 'pos':
        v = rng.integers(1, 33, size) / 8.
    elif kind in ('nz', 'cond', 'nzsmall'):
        v = rng.integers(2, 24, size) / 8. * rng.choice([-1, 1], size)
    elif kind == 'cond0':
        v = rng.integers(-1, 2, size) / 1.
    elif kind == 'big':
        v = rng.integers(-24, 25, size) / 8. * rng.choice([1, 8, 16], size)
    elif kind == 'cosok':
        v = rng.integers(-9, 10, size) / 8. + np.pi * rng.integers(-1, 2, size)
    elif kind == 'sinok':
        v = rng.integers(2, 23, size) / 8. * rng.choice([-1, 1], size)
    else:
        if style == 0:
            v = rng.integers(-24, 25, size) / 8.
        elif style == 1:
            v = rng.integers(-2, 3, size) / 1.      # zeros and ties
        elif style == 2:
            v = rng.integers(1, 25, size) / 8.
        elif style == 3:
            v = -rng.integers(1, 25, size) / 8.
        else:
            v = rng.uniform(-3, 3, size)
    return np.asarray(v, float)


# ---------------------------------------------------------------- reference pieces
def ks_max(f, rho, axis):
    fm = np.max(f.real, axis=axis, keepdims=True)
    s = np.sum(np.exp(rho * (f - fm)), axis=axis, keepdims=True)
    r = fm + np.log(s) / rho
    return np.squeeze(r, axis=axis)


def as1(x):
    x = np.asarray(x)
    return x.reshape((1,)) if x.ndim == 0 else x


def rot(a, axis):
    shape = () if a.shape == (1,) else a.shape
    a = a.reshape(shape)
    c, s = np.cos(a), np.sin(a)
    m = np.zeros(shape + (3, 3), dtype=a.dtype)
    # right-handed rotation about `axis`
    i = 'xyz'.index(axis)
    j, k = (i + 1) % 3, (i + 2) % 3
    m[..., i, i] = 1
    m[..., j, j] = c
    m[..., k, k] = c
    m[..., j, k] = -s
    m[..., k, j] = s
    return m


def axes_arg(p):
    a = p.get('axes')
    return None if a is None else tuple(a)


def expand_ref(p, x):
    shape = tuple(p['shape'])
    if x.shape == (1,):
        return np.ones(shape) * x.reshape(())
    i, o = p['idx'].split('->')
    x = x.reshape([x.shape[i.index(c)] if c in i else 1 for c in o])
    return np.broadcast_to(x, shape) + 0


def key_from(p):
    """Key as stored -> python/numpy key.  Each item: int or [start, stop, step]."""
    k = [x if isinstance(x, int) else slice(*x) for x in p['key']]
    return k[0] if p.get('bare') else tuple(k)


def key_np(p):
    """numpy key that keeps every axis (ints become length-1 slices)."""
    return tuple(slice(x, x + 1) if isinstance(x, int) else slice(*x) for x in p['key'])


NP_UN = {
    'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'sec': lambda x: 1 / np.cos(x), 'cosec': lambda x: 1 / np.sin(x),
    'cotan': lambda x: 1 / np.tan(x), 'exp': np.exp, 'log': np.log, 'log10': lambda x: np.log(x) / np.log(10.),
    'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'sech': lambda x: 1 / np.cosh(x),
    'cosech': lambda x: 1 / np.sinh(x), 'cotanh': lambda x: 1 / np.tanh(x), 'arcsin': np.arcsin,
    'arccos': np.arccos, 'arctan': np.arctan,
}
UN_DOM = {
    'sin': 'any', 'cos': 'any', 'tan': 'cosok', 'sec': 'cosok', 'cosec': 'sinok', 'cotan': 'sinok', 'exp': 'small',
    'log': 'pos', 'log10': 'pos', 'sinh': 'small', 'cosh': 'small', 'tanh': 'any', 'sech': 'any',
    'cosech': 'nzsmall', 'cotanh': 'nz', 'arcsin': 'unit', 'arccos': 'unit', 'arctan': 'any',
}

const = lambda p: np.asarray(p['c'], float).reshape(p['cs']) if 'cs' in p else p['c']


def cpow(x, e):
    e = np.asarray(e)
    out = np.ones(x.shape, dtype=x.dtype)
    e = np.broadcast_to(e, x.shape)
    for i in np.ndindex(*x.shape):
        ei = e[i]
        if float(ei).is_integer():
            n = int(ei)
            b = x[i] if n >= 0 else 1 / x[i]
            r = 1
            for _ in range(abs(n)):
                r = r * b
            out[i] = r
        else:
            out[i] = x[i]**float(ei)
    return out


REF = {
    'neg': lambda p, x: -x,
    'posc': lambda p, x: x + const(p),
    'addc': lambda p, x: x + const(p), 'caddx': lambda p, x: const(p) + x,
    'subc': lambda p, x: x - const(p), 'csubx': lambda p, x: const(p) - x,
    'mulc': lambda p, x: x * const(p), 'cmulx': lambda p, x: const(p) * x,
    'divc': lambda p, x: x / const(p), 'cdivx': lambda p, x: const(p) / x,
    'powc': lambda p, x: cpow(x, const(p)),
    'add': lambda p, x, y: x + y, 'sub': lambda p, x, y: x - y,
    'mul': lambda p, x, y: x * y, 'div': lambda p, x, y: x / y,
    'sum': lambda p, *xs: as1(np.sum(xs[0], axis=axes_arg(p))) if len(xs) == 1 else (
        sum(xs[1:], xs[0]) if p.get('axes') is None else as1(np.sum(sum(xs[1:], xs[0]), axis=axes_arg(p)))),
    'average': lambda p, *xs: as1(np.mean(xs[0], axis=axes_arg(p))) if len(xs) == 1 else (
        sum(xs[1:], xs[0]) / len(xs) if p.get('axes') is None else as1(
            np.mean(sum(xs[1:], xs[0]) / len(xs), axis=axes_arg(p)))),
    'pnorm': lambda p, x: as1(np.sum(x**p['n'], axis=axes_arg(p))**(1. / p['n'])),
    'max': lambda p, *xs: as1(ks_max(np.stack(xs), p.get('rho', 20.), 0) if len(xs) > 1 else (
        ks_max(xs[0], p.get('rho', 20.), p['axis']) if p.get('axis') is not None else ks_max(
            xs[0].reshape(-1), p.get('rho', 20.), 0))),
    'min': lambda p, *xs: -REF['max'](p, *[-x for x in xs]),
    'dot': lambda p, x, y: as1(np.sum(x * y, axis=p.get('axis'))),
    'cross': lambda p, x, y: np.cross(x, y, axis=p['axis']),
    'inner': lambda p, x, y: as1(np.tensordot(x, y, axes=p['axes'] if p.get('axes') else 1)),
    'outer': lambda p, x, y: np.multiply.outer(x, y),
    'matmat': lambda p, x, y: x @ y,
    'matvec': lambda p, x, y: x @ y,
    'einsum': lambda p, *xs: as1(np.einsum(p['sub'], *xs)),
    'einsum_new': lambda p, *xs: as1(np.einsum(p['sub'], *xs)),
    'reshape': lambda p, x: x.reshape(p['shape']),
    'transpose': lambda p, x: np.transpose(x),
    'reorder': lambda p, x: np.einsum(p['op'], x),
    'expand': expand_ref,
    'rotmat': lambda p, x: rot(x, p['axis']),
    'if_else': lambda p, c, x, y: (y if c.reshape(-1)[0].real < 0 else x) + 0,
    'index': lambda p, x: x[key_np(p)],
    'define': lambda p, x: x + 0,
}
for _n, _f in NP_UN.items():
    REF[_n] = (lambda f: (lambda p, x: f(x)))(_f)


def _assign_ref(p, *xs):
    out = np.ones(tuple(p['shape']), dtype=np.result_type(*xs))
    for k, x in zip(p['keys'], xs):
        out[key_np({'key': k['key']})] = x
    return out


REF['assign'] = _assign_ref


# ---------------------------------------------------------------- construction
LOG = []        # arrays handed to the code under test, with copies


def user(a):
    if isinstance(a, np.ndarray):
        LOG.append((a, a.copy()))
    return a


def check_user_arrays():
    for a, b in LOG:
        if a.shape != b.shape or not np.array_equal(a, b):
            return 'array %s given by the user was modified to %s' % (b.tolist(), a.tolist())


def pyconst(p):
    if 'cs' in p:
        dt = int if p.get('ct') == 'iarr' else float
        return user(np.array(p['c'], dtype=dt).reshape(p['cs']))
    if p.get('ct') == 'int':
        return int(p['c'])
    if p.get('ct') == 'np':
        return np.float64(p['c'])
    return float(p['c'])


def new_operation(p, n):
    """'ij,j->i' -> [('i','j'),('j',),('i',)] with axis labels mapped to names."""
    names = p.get('labels') or {}
    lhs, rhs = p['sub'].split('->')
    ts = [tuple(names.get(c, c) for c in t) for t in lhs.split(',')]
    if rhs:
        ts.append(tuple(names.get(c, c) for c in rhs))
    return ts


def _created(g, p):
    if 'v0' not in p:
        return g.create_output(p['name'], shape=tuple(p['shape']))
    v = p['v0']
    return g.create_output(p['name'], shape=tuple(p['shape']),
                           val=user(np.array(v, float).reshape(p['shape'])) if isinstance(v, list) else v)


def _bassign(g, ot, p, *v):
    o = _created(g, p)
    for k, x in zip(p['keys'], v):
        o[key_from(k)] = x
    return o


def _bdefine(g, ot, p, x):
    o = _created(g, p)
    o.define(x)
    return o


def kw(**k):
    return {a: b for a, b in k.items() if b is not None}


BUILD = {
    'neg': lambda g, ot, p, x: -x,
    'posc': lambda g, ot, p, x: +x + pyconst(p),
    'addc': lambda g, ot, p, x: x + pyconst(p), 'caddx': lambda g, ot, p, x: pyconst(p) + x,
    'subc': lambda g, ot, p, x: x - pyconst(p), 'csubx': lambda g, ot, p, x: pyconst(p) - x,
    'mulc': lambda g, ot, p, x: x * pyconst(p), 'cmulx': lambda g, ot, p, x: pyconst(p) * x,
    'divc': lambda g, ot, p, x: x / pyconst(p), 'cdivx': lambda g, ot, p, x: pyconst(p) / x,
    'powc': lambda g, ot, p, x: x**pyconst(p),
    'add': lambda g, ot, p, x, y: x + y, 'sub': lambda g, ot, p, x, y: x - y,
    'mul': lambda g, ot, p, x, y: x * y, 'div': lambda g, ot, p, x, y: x / y,
    'sum': lambda g, ot, p, *x: ot.sum(*x, **kw(axes=axes_arg(p))),
    'average': lambda g, ot, p, *x: ot.average(*x, **kw(axes=axes_arg(p))),
    'pnorm': lambda g, ot, p, x: ot.pnorm(x, p['n'], **kw(axis=(p['axes'][0] if p.get('intax') else axes_arg(p)))),
    'max': lambda g, ot, p, *x: ot.max(*x, **kw(axis=p.get('axis'), rho=p.get('rho'))),
    'min': lambda g, ot, p, *x: ot.min(*x, **kw(axis=p.get('axis'), rho=p.get('rho'))),
    'dot': lambda g, ot, p, x, y: ot.dot(x, y, **kw(axis=p.get('axis'))),
    'cross': lambda g, ot, p, x, y: ot.cross(x, y, axis=p['axis']),
    'inner': lambda g, ot, p, x, y: ot.inner(
        x, y, **kw(axes=None if not p.get('axes') else tuple(tuple(a) if p.get('tup') else list(a) for a in p['axes']))),
    'outer': lambda g, ot, p, x, y: ot.outer(x, y),
    'matmat': lambda g, ot, p, x, y: ot.matmat(x, y),
    'matvec': lambda g, ot, p, x, y: ot.matvec(x, y),
    'einsum': lambda g, ot, p, *x: ot.einsum(*x, subscripts=p['sub'], partial_format=p['fmt']),
    'einsum_new': lambda g, ot, p, *x: ot.einsum_new_api(*x, operation=new_operation(p, len(x)),
                                                        partial_format=p['fmt']),
    'reshape': lambda g, ot, p, x: ot.reshape(x, tuple(p['shape'])),
    'transpose': lambda g, ot, p, x: ot.transpose(x),
    'reorder': lambda g, ot, p, x: ot.reorder_axes(x, p['op']),
    'expand': lambda g, ot, p, x: ot.expand(x, tuple(p['shape']), **kw(indices=p.get('idx'))),
    'rotmat': lambda g, ot, p, x: ot.rotmat(x, p['axis']),
    'if_else': lambda g, ot, p, c, x, y: ot.if_else(c, x, y),
    'index': lambda g, ot, p, x: x[key_from(p)],
    'define': _bdefine,
    'assign': _bassign,
}
for _n in NP_UN:
    BUILD[_n] = (lambda n: (lambda g, ot, p, x: getattr(ot, n)(x)))(_n)


# ---------------------------------------------------------------- generators
# Each takes the program generator G and returns (args, params) or None.
def gen_unary(name):
    def f(G):
        return [G.ref(kind=UN_DOM[name])], {}
    return f


def _const(G, shape, nz=False, left=False):
    """Constant operand: python int/float, numpy float or array of the operand's shape."""
    t = G.c(['float', 'int', 'float'] + (['np', 'arr', 'arr', 'iarr'] if not left else []))
    pool = [x / 8. for x in range(-24, 25) if not nz or abs(x) >= 4]
    if t == 'int':
        return {'c': G.c([x for x in range(-3, 5) if not nz or x != 0]), 'ct': 'int'}
    if t in ('float', 'np'):
        return {'c': G.c(pool), 'ct': t}
    n = int(np.prod(shape))
    if t == 'iarr':
        return {'c': [G.c([x for x in range(-3, 5) if not nz or x != 0]) for _ in range(n)], 'cs': list(shape),
                'ct': 'iarr'}
    return {'c': [G.c(pool) for _ in range(n)], 'cs': list(shape), 'ct': 'arr'}


def gen_const(name):
    left = name.startswith('c')
    def f(G):
        r = G.ref(kind='nz' if name == 'cdivx' else 'any')
        return [r], _const(G, G.shape(r), nz=name in ('divc',), left=left)
    return f


O_nz = DOM['nz']


def gen_pow(G):
    t = G.c(['int', 'int', 'float', 'arr', 'iarr', 'neg', 'zero'])
    if t == 'int':
        return [G.ref(kind='small')], {'c': G.c([2, 3, 4, 1]), 'ct': G.c(['int', 'int', 'float'])}
    if t == 'zero':
        return [G.ref(kind='any')], {'c': 0, 'ct': 'int'}
    if t == 'neg':
        return [G.ref(kind='nz')], {'c': G.c([-1, -2, -3]), 'ct': G.c(['int', 'float'])}
    if t == 'float':
        return [G.ref(kind='pos')], {'c': G.c([0.5, 1.5, -0.5, 2.5, 1. / 3]), 'ct': 'float'}
    if G.c([True, False, False]):       # whole exponents of any base
        r = G.ref(kind='small')
        lo = -2 if all(O_nz(v) for v in G.vals[r]) else 0
        n = int(np.prod(G.shape(r)))
        return [r], {'c': [G.i(lo, 3) for _ in range(n)], 'cs': list(G.shape(r)), 'ct': t}
    r = G.ref(kind='pos')
    n = int(np.prod(G.shape(r)))
    pool = [-1, 0, 1, 2, 3] if t == 'iarr' else [-1., -0.5, 0.5, 1., 2., 3., 0.]
    # numpy cannot raise to negative integer array powers of integer bases only; float bases are fine
    return [r], {'c': [G.c(pool) for _ in range(n)], 'cs': list(G.shape(r)), 'ct': t}


def gen_bin(name):
    def f(G):
        a = G.ref()
        b = G.ref(shape=G.shape(a), kind='nz' if name == 'div' else 'any')
        return [a, b], {}
    return f


def _axes(G, nd):
    """Some or all axes, in any order, counted from the front or from the back."""
    k = G.c([G.i(1, max(1, nd - 1)), G.i(1, nd)])
    perm = G.perm(list(range(nd)))[:k]
    if G.c([False, False, False, True]):
        perm = [a - nd if G.b() else a for a in perm]
    return perm


def _axis(G, nd):
    return G.i(-nd, nd - 1) if G.c([False, False, False, True]) else G.i(0, nd - 1)


def gen_reduce(name):
    def f(G):
        n = G.c([1, 1, 1, 2, 2, 3, 4, 6])
        a = G.ref(nd=G.c([(1, 4), (2, 3), (2, 3), (2, 5)]))
        args = [a] + [G.ref(shape=G.shape(a)) for _ in range(n - 1)]
        p = {}
        if G.c([False, True]) and (len(G.shape(a)) > 1 or G.b()):
            p['axes'] = _axes(G, len(G.shape(a)))
        return args, p
    return f


def gen_wide(G):
    n = G.c([9, 10, 12])
    a = G.ref(maxsize=4)
    return [a] + [G.ref(shape=G.shape(a)) for _ in range(n - 1)], {}


def gen_pnorm(G):
    a = G.ref(kind=G.c(['nz', 'nz', 'any']), nd=G.c([(1, 4), (2, 3), (2, 3), (2, 5)]))
    p = {'n': G.c([2, 4, 6, 8, 2, 4, 12, 20])}
    if G.c([False, True]) and (len(G.shape(a)) > 1 or G.b()):
        p['axes'] = _axes(G, len(G.shape(a)))
        if len(p['axes']) == 1:
            p['intax'] = G.b()
    # elements may be zero, but not all of those that are combined
    if any(np.any(np.max(np.abs(v), axis=axes_arg(p)) < 0.1) for v in G.vals[a]):
        return None
    return [a], p


def gen_extremum(G):
    t = G.c(['all', 'axis', 'multi', 'multi'])
    p = {}
    if G.b():
        p['rho'] = G.c([5., 10., 20., 50., 100.])
    kind = G.c(['any', 'any', 'big'])
    if t == 'all':
        return [G.ref(kind=kind)], p
    if t == 'axis':
        a = G.ref(nd=G.c([(2, 3), (2, 3), (2, 4), (1, 1)]), kind=kind)
        p['axis'] = _axis(G, len(G.shape(a)))
        return [a], p
    a = G.ref(kind=kind)
    return [a] + [G.ref(shape=G.shape(a), kind=G.c(['any', kind])) for _ in range(G.c([1, 2, 3, 3, 5]))], p


def _shape3(G):
    """Shape having an axis of size 3, and that axis."""
    nd = G.c([1, 2, 3, 3, 4])
    s = [G.i(1, 3 if nd < 4 else 2) for _ in range(nd)]
    ax = G.i(0, nd - 1)
    s[ax] = 3
    return tuple(s), ax


def gen_dot(G):
    if G.b():
        s = (G.i(1, 5),)
        return [G.ref(shape=s), G.ref(shape=s)], {}
    s, ax = _shape3(G)
    if len(s) == 1:
        return [G.ref(shape=s), G.ref(shape=s)], {}
    return [G.ref(shape=s), G.ref(shape=s)], {'axis': ax - len(s) if G.c([False, False, False, True]) else ax}


def gen_cross(G):
    s, ax = _shape3(G)
    return [G.ref(shape=s), G.ref(shape=s)], {'axis': ax - len(s) if G.c([False, False, False, True]) else ax}


def gen_inner(G):
    if G.c([True, False, False]):
        s = (G.i(1, 5),)
        return [G.ref(shape=s), G.ref(shape=s)], {}
    na, nb = G.c([(2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 1), (2, 2), (3, 3), (4, 2), (3, 4)])
    k = G.i(1, min(na, nb))
    sa = [G.i(1, 3 if na + nb < 6 else 2) for _ in range(na)]
    sb = [G.i(1, 3 if na + nb < 6 else 2) for _ in range(nb)]
    xa = G.perm(list(range(na)))[:k]
    xb = G.perm(list(range(nb)))[:k]
    for i, j in zip(xa, xb):
        sb[j] = sa[i]
    if G.c([False, False, False, True]):
        xa = [a - na if G.b() else a for a in xa]
        xb = [b - nb if G.b() else b for b in xb]
    return [G.ref(shape=tuple(sa)), G.ref(shape=tuple(sb))], {'axes': [xa, xb], 'tup': G.b()}


def gen_outer(G):
    if G.b():
        return [G.ref(nd=(1, 1)), G.ref(nd=(1, 1))], {}
    a = G.ref(maxsize=6)
    return [a, G.ref(maxsize=4, nd=G.c([(1, 2), (1, 2), (1, 3)]))], {}


def gen_matmat(G):
    a, b, c = G.i(1, 4), G.i(1, 5), G.i(1, 4)
    if G.c([False, False, True]):
        return [G.ref(shape=(a, b)), G.ref(shape=(b,))], {}
    return [G.ref(shape=(a, b)), G.ref(shape=(b, c))], {}


def gen_matvec(G):
    a, b = G.i(1, 5), G.i(1, 5)
    return [G.ref(shape=(a, b)), G.ref(shape=(b,))], {}


def gen_einsum(new):
    def f(G):
        n = G.c([1, 2, 2, 2, 2, 3, 3, 4, 5])
        many = G.i(0, 5) == 5
        letters = G.perm(list(G.c(['ijklmn', 'zyXabc']) if many else G.c(['ijkl', 'abcd', 'zxpq', 'aAbB', 'XYij'])))
        dims = {c: G.i(1, 2 if many or n > 3 else 3) for c in letters}
        subs, args = [], []
        for t in range(n):
            if t and G.c([False, False, False, True]):      # repeat an operand
                q = G.i(0, t - 1)
                sub = subs[q]
                if G.b() and len({dims[c] for c in sub}) == 1:   # same expression, other subscripts
                    pool = [c for c in letters if dims[c] == dims[sub[0]]]
                    if len(pool) >= len(sub):
                        sub = ''.join(G.perm(pool)[:len(sub)])
                subs.append(sub)
                args.append(args[q])
                continue
            k = (G.c([1, 2, 2, 3, 4]) if many else G.c([1, 2, 2, 3])) if n < 3 else G.c([1, 2, 3]) if many else G.c([1, 2])
            sub = ''.join(G.perm(letters)[:k])
            if k > 1 and G.i(0, 9) == 9:        # one index twice
                q = G.i(1, k - 1)
                sub = sub[:q] + sub[G.i(0, q - 1)] + sub[q + 1:]
            subs.append(sub)
            args.append(G.ref(shape=tuple(dims[c] for c in sub)))
        used = sorted(set(''.join(subs)))
        k = G.i(0, min(4 if many else 3, len(used)))
        out = ''.join(G.perm(used)[:k])
        if new and not out and n == 0:
            return None
        p = {'sub': ','.join(subs) + '->' + out, 'fmt': G.c(['dense', 'sparse'])}
        if new:
            style = G.c(['letters', 'names', 'ints'])
            if style == 'names':
                p['labels'] = {c: 'axis_%s' % c for c in used}
            elif style == 'ints':
                p['labels'] = {c: i for i, c in enumerate(used)}
        return args, p
    return f


def factorizations(n, maxnd=4):
    out = [(n,)]
    for a in range(1, n + 1):
        if n % a == 0:
            out.append((a, n // a))
            if maxnd > 2:
                for b in range(1, n // a + 1):
                    if (n // a) % b == 0:
                        out.append((a, b, n // a // b))
                        if maxnd > 3 and n // a // b > 1:
                            out.append((a, 1, b, n // a // b))
    return out


def gen_reshape(G):
    a = G.ref()
    return [a], {'shape': list(G.c(factorizations(int(np.prod(G.shape(a))))))}


def gen_transpose(G):
    return [G.ref(nd=G.c([(1, 3), (2, 3), (2, 2), (2, 5)]))], {}


def gen_reorder(G):
    a = G.ref(nd=G.c([(1, 4), (1, 4), (2, 5)]))
    nd = len(G.shape(a))
    s = ''.join(G.perm(list('ijklmnab'))[:nd])
    return [a], {'op': s + '->' + ''.join(G.perm(list(s)))}


def gen_expand(G):
    if G.b():
        a = G.ref(shape=(1,))
        s = G.newshape()
        while len(s) < 5 and G.b():
            s = tuple(s) + (G.i(1, 2),)
        p = {'shape': list(s)}
        if G.b():
            p['idx'] = 'i->' + ''.join('ijklm'[:len(s)])
        return [a], p
    a = G.ref(maxsize=9, nd=G.c([(1, 4), (1, 3), (2, 5)]))
    s = list(G.shape(a))
    if s == [1]:
        return [a], {'shape': [2, 2]}
    ins = 'ijklm'[:len(s)]
    out, oshape = list(ins), list(s)
    for c in 'abc'[:G.c([1, 2, 2, 3])]:
        q = G.i(0, len(out))
        out.insert(q, c)
        oshape.insert(q, G.i(1, 3 if len(out) < 5 else 2))
    return [a], {'shape': oshape, 'idx': ins + '->' + ''.join(out)}


def gen_rotmat(G):
    a = G.ref(nd=G.c([(1, 2), (1, 2), (3, 4)]), maxsize=4)
    return [a], {'axis': G.c(['x', 'y', 'z'])}


def gen_if_else(G):
    c = G.ref(shape=G.c([(1,), (1,), (1,), (1, 1)]), kind=G.c(['cond', 'cond', 'cond0']))
    a = G.ref()
    return [c, a, G.ref(shape=G.shape(a))], {}


def _slice(G, n, stepmax=3):
    if n > 1 and G.i(0, 6) == 6:        # in reverse order
        start = G.i(1, n - 1)
        return [start, G.i(0, start - 1), -G.i(1, 3)]
    start = G.i(0, n - 1)
    stop = G.i(start + 1, n)
    step = G.c([None, None, 1, 2, 3])
    if stepmax == 1 and step not in (None, 1):
        step = None
    return [None if (start == 0 and G.b()) else start, None if (stop == n and G.b()) else stop, step]


def gen_index(G):
    old = [n for n in G.nodes if n['op'] == 'index']
    if old and G.b():       # a read that resembles an earlier one of the same expression
        n = G.c(old)
        s = G.shape(n['args'][0])
        key = [x if isinstance(x, int) else list(x) for x in n['p']['key']]
        ax = G.i(0, len(s) - 1)
        k, m = key[ax], s[ax]
        if isinstance(k, int):
            key[ax] = G.c([[k, k + 1, None], [k, m, None], [None, k + 1, None], (k + 1) % m])
        elif (k[2] or 1) < 0:
            key[ax] = G.c([[k[0], k[1], -G.i(1, 3)], [G.i(k[1] + 1, m - 1), k[1], k[2]], [k[1] + 1, k[0] + 1, -k[2]]])
        else:
            lo, hi = k[0] or 0, m if k[1] is None else k[1]
            key[ax] = G.c([[k[0], k[1], G.c([None, 1, 2, 3])], [G.i(0, hi - 1), k[1], k[2]],
                           [k[0], G.i(lo + 1, m), k[2]], lo])
        return [n['args'][0]], dict({'key': key}, **({'bare': True} if n['p'].get('bare') else {}))
    a = G.ref(nd=G.c([(1, 1), (1, 3), (2, 3), (2, 5)]))
    s = G.shape(a)
    if len(s) == 1 and G.c([True, True, False]):
        k = G.i(0, s[0] - 1) if G.b() else _slice(G, s[0])
        return [a], {'key': [k], 'bare': True}
    return [a], {'key': [G.i(0, n - 1) if G.c([True, False]) else _slice(G, n) for n in s]}


def _key(G, r, m):
    """A key that selects range r of an axis of m elements."""
    lo, n, st = r[0], len(r), r.step
    last = r[-1]
    if n == 1:
        t = G.i(0, 3)
        if t < 2:
            return lo
        return [None if lo == 0 and G.b() else lo, G.c([lo + 1, m if G.i(0, 2) == 0 else lo + 1]),
                None if t == 2 else m] if t == 3 else [lo, lo + 1, None]
    if lo > 0 and G.i(0, 5) == 5:       # in reverse order
        stop = G.i(max(0, lo - st), lo - 1)
        return [last, stop, -st]
    stop = G.i(last + 1, min(m, last + st)) if G.b() else min(m, last + st)
    if stop == m:
        stop = G.c([m, None])
    elif G.b():
        stop -= m                       # counts from the end
    return [None if lo == 0 and G.b() else lo, stop, G.c([None, 1]) if st == 1 else st]


def gen_assign(G, shape=None):
    """Partition of a whole output into blocks, one expression per block."""
    nd = G.c([1, 1, 1, 2, 2, 2, 3, 3, 4])
    s = tuple(shape) if shape else tuple(G.i(1, {1: 6, 2: 4, 3: 3, 4: 2}[nd]) for _ in range(nd))
    nd = len(s)
    blocks = [[range(n) for n in s]]
    for _ in range(G.c([1, 2, 2, 3, 0, 4])):
        i, ax = G.i(0, len(blocks) - 1), G.i(0, nd - 1)
        r = blocks[i][ax]
        if len(r) == 1:
            continue
        if G.b():
            c = G.i(1, len(r) - 1)
            parts = [r[:c], r[c:]]
        else:
            st = G.i(2, min(3, len(r)))
            parts = [r[k::st] for k in range(st)]
        blocks[i:i + 1] = [blocks[i][:ax] + [q] + blocks[i][ax + 1:] for q in parts]
    keys, args = [], []
    blocks = G.perm(blocks)
    part = len(blocks) > 1 and G.c([False, False, False, True])
    if part:      # some elements keep the initial value
        blocks = blocks[:G.i(1, len(blocks) - 1)]
    for blk in blocks:
        key = [_key(G, r, m) for r, m in zip(blk, s)]
        bs = tuple(len(r) for r in blk)
        a = None
        for _ in range(3):
            a = G.ref(shape=bs)
            if a not in args:
                break
        if a in args:
            a = G.newleaf(bs, 'any')
        args.append(a)
        k = {'key': key}
        if nd == 1 and (isinstance(key[0], int) or G.b()):
            k['bare'] = True
        keys.append(k)
    # (an existing test wants ones in the other elements whatever the initial value is)
    return args, dict({'shape': list(s), 'keys': keys}, **({} if part else initial(G, s)))


def initial(G, s):
    k = G.c([None, None, 'number', 'array'])
    n = int(np.prod(s))
    return {} if k is None else {'v0': G.c([2., -1.5, 0., 3]) if k == 'number' else
                                 [G.c([2., -1.5, 0., 0.25, 4.]) for _ in range(n)]}


def gen_define(G):
    a = G.ref()
    return [a], dict({'shape': list(G.shape(a))}, **initial(G, G.shape(a)))


GEN = {
    'neg': gen_const('neg'), 'powc': gen_pow, 'sum': gen_reduce('sum'), 'average': gen_reduce('average'),
    'pnorm': gen_pnorm, 'max': gen_extremum, 'min': gen_extremum, 'dot': gen_dot, 'cross': gen_cross,
    'inner': gen_inner, 'outer': gen_outer, 'matmat': gen_matmat, 'matvec': gen_matvec,
    'einsum': gen_einsum(False), 'einsum_new': gen_einsum(True), 'reshape': gen_reshape,
    'transpose': gen_transpose, 'reorder': gen_reorder, 'expand': gen_expand, 'rotmat': gen_rotmat,
    'if_else': gen_if_else, 'index': gen_index, 'assign': gen_assign, 'define': gen_define,
}
GEN['neg'] = lambda G: ([G.ref()], {})
for _n in ('posc', 'addc', 'caddx', 'subc', 'csubx', 'mulc', 'cmulx', 'divc', 'cdivx'):
    GEN[_n] = gen_const(_n)
for _n in ('add', 'sub', 'mul', 'div'):
    GEN[_n] = gen_bin(_n)
for _n in NP_UN:
    GEN[_n] = gen_unary(_n)
WIDE = gen_wide

GROUPS = {
    'arith': ['add', 'sub', 'mul', 'div', 'neg', 'posc', 'addc', 'caddx', 'subc', 'csubx', 'mulc', 'cmulx', 'divc', 'cdivx',
              'powc'],
    'unary': list(NP_UN),
    'reduce': ['sum', 'average', 'pnorm'],
    'product': ['dot', 'cross', 'inner', 'outer', 'matmat', 'matvec'],
    'einsum': ['einsum', 'einsum_new'],
    'shape': ['reshape', 'transpose', 'reorder', 'expand'],
    'extremum': ['max', 'min'],
    'index': ['index'],
    'assign': ['assign', 'define'],
    'rotmat': ['rotmat'],
    'if_else': ['if_else'],
}
