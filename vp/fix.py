"""Systems of equations x = g(x, e): used for outputs defined in terms of themselves, for
residuals, and for bracketed residuals.

g_k(x) = sum_t w_t * f_t(c_t * via_t(x_j) + e_t) + b_k   with  sum_t |w_t c_t| <= 0.6, so that
the solution is unique, and iterating g in complex arithmetic gives it together with its
exact derivative.
"""
import numpy as np
from hypothesis import strategies as st

from vp import ops as O
from vp import prog as P

F = {'id': lambda x: x, 'sin': np.sin, 'tanh': np.tanh, 'cos': np.cos, 'arctan': np.arctan, 'neg': lambda x: -x}
BASEOPS = ['add', 'mul', 'sin', 'mulc', 'tanh', 'sub', 'exp', 'cos', 'addc', 'powc', 'average', 'index', 'reshape']
ITER = 120


def gen(G, nstates, elementwise=False, coupled=True, nbase=(0, 4), nterms=(1, 3), diffshape=True):
    """Extends the program being generated in G by a system; G.nodes become its inner
    expressions."""
    G.fill(BASEOPS, G.i(*nbase))
    states = []
    shapes = []
    s0 = G.newshape((1, 2), 4)
    for k in range(nstates):
        shapes.append(G.newshape((1, 2), 4) if diffshape and G.b() else s0)
    for k in range(nstates):
        s = shapes[k]
        terms = []
        n = G.i(*nterms)
        for t in range(n):
            j = G.i(0, nstates - 1) if coupled and G.b() else k
            via = 'id'
            if shapes[j] != s or (not elementwise and G.c([False, False, True])):
                via = 'avg'
            f = G.c(list(F))
            c = G.c([1., -1., 0.5, 1.])
            e = G.ref(shape=s) if G.b() else None
            terms.append({'w': G.c([0.5, -0.5, 0.25, -0.25, 0.125, 0.6]) / n, 'f': f, 'via': via, 'j': j, 'c': c, 'e': e})
        b = G.ref(shape=s)
        rng = np.random.default_rng(G.i(0, 2**16))
        v0 = (rng.integers(-16, 17, int(np.prod(s))) / 8.).tolist()
        if G.c([False, False, True]):
            v0 = G.c([0.5, 2., -1.])          # scalar initial value
        states.append({'name': 's%d' % k, 'shape': list(s), 'v0': v0, 'terms': terms, 'b': b})
    return states


def finish(G, states, nouts=True):
    """-> system dictionary, refs renumbered as in Gen.finish"""
    L = len(G.leaves)
    m = {r: (i if k == 'leaf' else L + i) for r, (k, i) in enumerate(G.refs)}
    prog = G.finish()
    for s in states:
        s['b'] = m[s['b']]
        for t in s['terms']:
            if t['e'] is not None:
                t['e'] = m[t['e']]
    return {'prog': prog, 'states': states}


def used_refs(sys):
    r = set()
    for s in sys['states']:
        r.add(s['b'])
        r |= {t['e'] for t in s['terms'] if t['e'] is not None}
    return r


# -------------------------------------------------------------------- reference
def step(sys, k, xs, vals):
    s = sys['states'][k]
    acc = 0
    for t in s['terms']:
        x = xs[t['j']]
        if t['via'] == 'avg':
            x = np.ones(tuple(s['shape'])) * np.mean(x)
        x = t['c'] * x
        if t['e'] is not None:
            x = x + vals[t['e']]
        acc = acc + t['w'] * F[t['f']](x)
    return acc + vals[s['b']]


def start(s):
    return np.ones(tuple(s['shape'])) * (np.asarray(s['v0']).reshape(s['shape']) if isinstance(s['v0'], list)
                                         else s['v0'])


def solve(sys, vals):
    xs = [start(s).astype(complex) for s in sys['states']]
    for _ in range(ITER):
        xs = [step(sys, k, xs, vals) for k in range(len(xs))]
    return xs


def reference(sys, leafvals, fn=None):
    """Solution and outputs of the inner program; fn(xs, vals) -> further outputs"""
    vals = P.evaluate(sys['prog'], leafvals)
    xs = solve(sys, vals)
    return fn(xs, vals) if fn else {s['name']: x for s, x in zip(sys['states'], xs)}


def ref_jac(sys, leafvals, of, wrt, fn=None):
    J = {}
    for w in wrt:
        n = leafvals[w].size
        cols = []
        for q in range(n):
            lv = {k: v.astype(complex) for k, v in leafvals.items()}
            lv[w].reshape(-1)[q] += 1j * P.H
            r = reference(sys, lv, fn)
            cols.append({o: np.imag(r[o]) / P.H for o in of})
        for o in of:
            J[o, w] = np.stack([c[o].reshape(-1) for c in cols], axis=1)
    return J


# -------------------------------------------------------------------- construction
def via(ot, t, x, shape):
    if t['via'] == 'avg':
        a = ot.average(x)
        return a if tuple(shape) == (1,) else ot.expand(a, tuple(shape))
    return x


def term(ot, t, x, shape, exprs):
    u = via(ot, t, x, shape)
    if t['c'] != 1.:
        u = t['c'] * u
    if t['e'] is not None:
        u = u + exprs[t['e']]
    if t['f'] == 'neg':
        u = -u
    elif t['f'] != 'id':
        u = getattr(ot, t['f'])(u)
    return u


def rhs(ot, s, xs, exprs, keep=None):
    """Expression for g_k; `keep` collects inner expressions f(x)."""
    acc = None
    for t in s['terms']:
        u = term(ot, t, xs[t['j']], s['shape'], exprs)
        if keep is not None and u is not xs[t['j']] and not any(u is e for e in exprs.values()):
            keep.append((t, u))
        u = t['w'] * u
        acc = u if acc is None else acc + u
    return acc + exprs[s['b']]


def nodes(g, ot, prog, exprs):
    """Write the inner program's nodes, whose leaves are in exprs."""
    L = P.nleaf(prog)
    for i, n in enumerate(prog['nodes']):
        exprs[L + i] = O.BUILD[n['op']](g, ot, n['p'], *[exprs[a] for a in n['args']])
    return exprs
