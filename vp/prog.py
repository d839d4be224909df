"""Programs: JSON-able descriptions of omtools models, with a generator, an independent
numpy evaluator (with exact complex-step derivatives), and a builder."""
import numpy as np
from hypothesis import strategies as st

from vp import ops as O


class Draw:
    """Small helpers over a hypothesis draw function."""
    def __init__(self, draw):
        self.draw = draw

    def i(self, a, b):
        return self.draw(st.integers(a, b)) if b > a else a

    def b(self):
        return self.draw(st.booleans())

    def c(self, xs):
        return xs[self.i(0, len(xs) - 1)]

    def perm(self, xs):
        xs = list(xs)
        for k in range(len(xs) - 1):
            j = self.i(k, len(xs) - 1)
            xs[k], xs[j] = xs[j], xs[k]
        return xs


class Gen(Draw):
    """Generates leaves and nodes; every node is valid by construction because reference
    values at both input points are known while generating."""
    MAXABS = 200.
    MAXSIZE = 36

    def __init__(self, draw, indep=True, prefix='x'):
        super().__init__(draw)
        self.leaves = []
        self.nodes = []
        self.vals = []      # per ref: (value at point 1, value at point 2)
        self.refs = []      # ('leaf', i) / ('node', i)
        self.paths = []     # number of paths to leaves, bounds cost of graph traversal
        self.indep = indep
        self.prefix = prefix
        self.hist = {}
        self.maxpaths = 10**6
        self.indexed = {}

    # ---- queries
    def shape(self, r):
        return self.vals[r][0].shape

    def newshape(self, nd=(1, 3), maxsize=12):
        n = self.i(nd[0], nd[1])
        cap = {1: 5, 2: 4, 3: 3}.get(n, 2)
        if n == 1 and maxsize >= 12 and self.i(0, 7) == 7:
            cap = 12
        s = []
        for _ in range(n):
            room = max(1, maxsize // int(np.prod(s or [1])))
            s.append(self.i(1, min(cap, room)))
        return tuple(s)

    def newleaf(self, shape, kind='any'):
        size = int(np.prod(shape))
        style = self.i(0, 4)
        rng = np.random.default_rng(self.i(0, 2**20))
        vs = [O.leaf_values(rng, size, kind, style) for _ in range(2)]
        k = 'indep' if self.indep and self.b() else 'input'
        self.leaves.append({'name': '%s%d' % (self.prefix, len(self.leaves)), 'kind': k, 'shape': list(shape),
                            'v': [v.tolist() for v in vs]})
        self.refs.append(('leaf', len(self.leaves) - 1))
        self.vals.append([v.reshape(shape) for v in vs])
        self.paths.append(1)
        return len(self.refs) - 1

    def ref(self, shape=None, kind='any', nd=None, maxsize=None):
        """A reference with the requested shape / number of dimensions / value domain."""
        ok = []
        for r, v in enumerate(self.vals):
            s = v[0].shape
            if shape is not None and s != tuple(shape):
                continue
            if nd is not None and not nd[0] <= len(s) <= nd[1]:
                continue
            if maxsize is not None and v[0].size > maxsize:
                continue
            if self.paths[r] > self.maxpaths:
                continue
            if all(O.DOM[kind](x) for x in v):
                ok.append(r)
        if ok:
            t = self.i(0, 4)
            if t == 4:
                ok = []
            elif t >= 2:
                return self.c(ok[-3:])
            else:
                return self.c(ok)
        if shape is None:
            shape = self.newshape(nd or self.c([(1, 3)] * 14 + [(4, 4), (4, 5)]), maxsize or 12)
        return self.newleaf(tuple(shape), kind)

    def node(self, op):
        """Try to append one application of `op`; returns its ref or None."""
        mark = (len(self.leaves), len(self.refs))
        g = O.WIDE if op == 'wide' else O.GEN[op]
        r = g(self)
        if r is None:
            return None
        args, p = r
        if op == 'wide':
            op = 'sum'
        with np.errstate(all='ignore'):
            try:
                vs = [O.REF[op](p, *[self.vals[a][q] for a in args]) for q in range(2)]
            except FloatingPointError:
                vs = [np.array([np.nan])] * 2
        bad = any((not np.all(np.isfinite(v))) or np.max(np.abs(v)) > self.MAXABS or v.size > self.MAXSIZE
                  for v in vs)
        paths = sum(self.paths[a] for a in args)
        if bad or paths > self.maxpaths * 4:
            self.leaves = self.leaves[:mark[0]]
            self.refs = self.refs[:mark[1]]
            self.vals = self.vals[:mark[1]]
            self.paths = self.paths[:mark[1]]
            return None
        if op == 'index':
            # indexing twice with one key returns the same expression
            k = (args[0], repr(O.key_np(p)) if False else str([list(range(n))[s] for n, s in zip(
                self.shape(args[0]), O.key_np(p))]))
            if k in self.indexed:
                return self.indexed[k]
        n = {'op': op, 'args': args, 'p': p}
        if op in ('assign', 'define'):
            p['name'] = 'e%d' % len(self.nodes)
        self.nodes.append(n)
        self.refs.append(('node', len(self.nodes) - 1))
        self.vals.append(vs)
        self.paths.append(paths + 1)
        if op == 'index':
            self.indexed[k] = len(self.refs) - 1
        self.hist[op] = self.hist.get(op, 0) + 1
        return len(self.refs) - 1

    def fill(self, ops, n):
        """n nodes with operations drawn from `ops`."""
        for _ in range(n):
            for _try in range(4):
                if self.node(self.c(ops)) is not None:
                    break

    def names(self, prog):
        """Other names than x0, x1, ..., y0, ...: long, similar, in any order."""
        t = self.c([0] * 8 + [1, 2, 3, 4, 5])
        if t == 0:
            return
        rng = np.random.default_rng(self.i(0, 1000))
        letters = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
        done = {}

        def new(n):
            k = len(done)
            if n in done:
                return done[n]
            if t == 1:
                m = 'the_same_long_beginning_of_every_name_of_a_variable_' + n
            elif t == 2:        # each is the beginning of the next
                m = 'v' + '_v' * (k + 1)
            elif t == 3:        # distinct by case
                m = ''.join(c.upper() if k >> i & 1 else c for i, c in enumerate('variable'))
            elif t == 4:
                m = ['the_val', 'in_shape', 'in_name', 'out_name', 'in_names', 'out_shape', 'axis_', 'root_', 'decompose',
                     'decompose_', 'comp_', 'res', 'rho_', 'rows_', 'cols_', 'vals', 'expr_'][k % 17] + ('' if k < 17 else '_%d' % k)
            else:               # any order
                m = ''.join(rng.choice(list(letters), 3)) + '_' + n
            done[n] = m
            return m
        for l in prog['leaves']:
            l['name'] = new(l['name'])
        for n in prog['nodes']:
            if 'name' in n['p'] and n['op'] in ('assign', 'define'):
                n['p']['name'] = new(n['p']['name'])
        for o in prog['outs']:
            o['name'] = new(o['name'])

    def finish(self, all_sinks=True):
        """Choose outputs.  Refs are renumbered leaves-first."""
        L = len(self.leaves)
        m = {}
        for r, (k, i) in enumerate(self.refs):
            m[r] = i if k == 'leaf' else L + i
        nodes = [{'op': n['op'], 'args': [m[a] for a in n['args']], 'p': n['p']} for n in self.nodes]
        used = {a for n in nodes for a in n['args']}
        outs = []
        for i, n in enumerate(nodes):
            r = L + i
            if n['op'] in ('assign', 'define'):
                continue      # created with create_output: always an output
            sink = r not in used
            if (sink and (all_sinks or self.c([True, True, True, False]))) or (not sink and self.i(0, 3) == 3):
                outs.append({'ref': r, 'name': 'y%d' % i, 'late': self.b()})
                if not outs[-1]['late']:        # registered after this node is written
                    users = [j for j, m in enumerate(nodes) if r in m['args']]
                    if len(users) > 1 and self.b():     # between two uses
                        outs[-1]['at'] = self.c(users[:-1])
                    else:
                        outs[-1]['at'] = min(i + self.c([0, 0, 0, 1, 2, 4]), len(nodes) - 1)
        late = self.perm([o for o in outs if o['late']])
        prog = {'leaves': self.leaves, 'nodes': nodes, 'outs': [o for o in outs if not o['late']] + late,
                'lazy': self.b()}
        self.names(prog)
        return prog


# ------------------------------------------------------------------ program analysis
def nleaf(prog):
    return len(prog['leaves'])


def outputs(prog):
    """[(name, ref)] of every output of the model, excluding independent variables."""
    L = nleaf(prog)
    r = [(o['name'], o['ref']) for o in prog['outs']]
    r += [(n['p']['name'], L + i) for i, n in enumerate(prog['nodes']) if n['op'] in ('assign', 'define')]
    return r


def needed(prog):
    """Refs needed to compute the outputs."""
    L = nleaf(prog)
    seen, stack = set(), [r for _, r in outputs(prog)]
    while stack:
        r = stack.pop()
        if r in seen:
            continue
        seen.add(r)
        if r >= L:
            stack += prog['nodes'][r - L]['args']
    return seen


def live_leaves(prog):
    """Names of leaves which appear in the model."""
    nd = needed(prog)
    return [l['name'] for i, l in enumerate(prog['leaves']) if i in nd or l['kind'] == 'indep']


NEAR = 1 + 2.**-18


def leaf_arrays(prog, point=0):
    """Input values: two generated points, and one right beside the second."""
    r = {}
    for l in prog['leaves']:
        v = np.asarray(l['v'][min(point, 1)], float).reshape(l['shape'])
        r[l['name']] = v * NEAR if point == 2 and not l.get('inner') else v
    return r


# ------------------------------------------------------------------ reference evaluation
def evaluate(prog, leafvals):
    vals = [leafvals[l['name']] for l in prog['leaves']]
    with np.errstate(all='ignore'):
        for n in prog['nodes']:
            vals.append(O.REF[n['op']](n['p'], *[vals[a] for a in n['args']]))
    return vals


def ref_outputs(prog, leafvals):
    v = evaluate(prog, leafvals)
    return {name: v[r] for name, r in outputs(prog)}


H = 1e-40


def ref_jacobian(prog, leafvals, of, wrt):
    """Exact total derivatives by complex step through the numpy reference."""
    L = nleaf(prog)
    nm = dict(outputs(prog))
    idx = {l['name']: i for i, l in enumerate(prog['leaves'])}
    base = [np.asarray(leafvals[l['name']], float) for l in prog['leaves']]
    real = evaluate(prog, leafvals)
    order = sorted(needed(prog))
    J = {}
    for w in wrt:
        i = idx[w]
        n = base[i].size
        cols = []
        # which nodes depend on this leaf
        dep = {i}
        for r in order:
            if r >= L and any(a in dep for a in prog['nodes'][r - L]['args']):
                dep.add(r)
        for k in range(n):
            vals = dict((r, real[r]) for r in order if r not in dep)
            x = base[i].astype(complex)
            x.reshape(-1)[k] += 1j * H
            vals[i] = x
            with np.errstate(all='ignore'):
                for r in order:
                    if r in dep and r >= L:
                        nd = prog['nodes'][r - L]
                        vals[r] = O.REF[nd['op']](nd['p'], *[vals[a] if a in vals else real[a] for a in nd['args']])
            cols.append({o: (np.imag(vals[nm[o]]) / H if nm[o] in dep else np.zeros(real[nm[o]].shape)) for o in of})
        for o in of:
            J[o, w] = np.stack([c[o].reshape(-1) for c in cols], axis=1)
    return J


# ------------------------------------------------------------------ building
def declare_leaf(g, l, val=None):
    v = np.asarray(l['v'][0], float).reshape(l['shape'])
    f = g.create_indep_var if l['kind'] == 'indep' else g.declare_input
    if l.get('scalar_val') is not None:
        v = l['scalar_val']
    k = {'dv': True} if l.get('dv') else {}
    return f(l['name'], shape=tuple(l['shape']), val=O.user(v), **k)


def early_outs(prog):
    """Outputs registered before the end, by the node after which they are."""
    early = {}
    for o in prog['outs']:
        if not o['late']:
            early.setdefault(o.get('at', o['ref'] - nleaf(prog)), []).append(o)
    return early


def populate(g, ot, prog):
    """Write the program into an omtools group; returns the expression of every ref."""
    L = nleaf(prog)
    exprs = {}
    lazy = prog.get('lazy')
    if not lazy:
        for i, l in enumerate(prog['leaves']):
            exprs[i] = declare_leaf(g, l)
    early = early_outs(prog)
    for i, n in enumerate(prog['nodes']):
        for a in n['args']:
            if a not in exprs:
                exprs[a] = declare_leaf(g, prog['leaves'][a])
        exprs[L + i] = O.BUILD[n['op']](g, ot, n['p'], *[exprs[a] for a in n['args']])
        for o in early.get(i, ()):
            g.register_output(o['name'], exprs[o['ref']])
    for i, l in enumerate(prog['leaves']):
        if i not in exprs:
            exprs[i] = declare_leaf(g, l)
    for o in prog['outs']:
        if o['late']:
            g.register_output(o['name'], exprs[o['ref']])
    return exprs


def make_group(ot, prog, **attrs):
    """A Group subclass instance whose setup writes `prog`."""
    def setup(self):
        for k, v in attrs.items():
            setattr(self, k, v)
        populate(self, ot, prog)
    return type('ProgGroup', (ot.Group,), {'setup': setup})()


# ------------------------------------------------------------------ comparison
def mismatch(name, got, want, rtol=1e-7, atol=1e-9):
    """None, or a description of the difference."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        return '%s: shape %s instead of %s' % (name, got.shape, want.shape)
    if want.size == 0:
        return None
    scale = max(1., float(np.max(np.abs(want)))) if np.all(np.isfinite(want)) else 1.
    with np.errstate(all='ignore'):
        bad = ~(np.abs(got - want) <= atol * scale + rtol * np.abs(want))
    if np.any(bad):
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        return '%s%s: got %r, expected %r' % (name, list(i), float(got[i]), float(want[i]))
    return None


# ------------------------------------------------------------------ several programs in one model
def rename(prog, pfx):
    """The same program with every name prefixed."""
    nodes = []
    for n in prog['nodes']:
        p = dict(n['p'])
        if n['op'] in ('assign', 'define'):
            p['name'] = pfx + p['name']
        nodes.append(dict(n, p=p))
    return dict(prog, leaves=[dict(l, name=pfx + l['name']) for l in prog['leaves']], nodes=nodes,
                outs=[dict(o, name=pfx + o['name']) for o in prog['outs']])


def steps(g, ot, prog):
    """Generator that writes the program into a group, pausing after every statement."""
    L = nleaf(prog)
    exprs = {}
    if not prog.get('lazy'):
        for i, l in enumerate(prog['leaves']):
            exprs[i] = declare_leaf(g, l)
            yield
    early = early_outs(prog)
    for i, n in enumerate(prog['nodes']):
        for a in n['args']:
            if a not in exprs:
                exprs[a] = declare_leaf(g, prog['leaves'][a])
                yield
        exprs[L + i] = O.BUILD[n['op']](g, ot, n['p'], *[exprs[a] for a in n['args']])
        yield
        for o in early.get(i, ()):
            g.register_output(o['name'], exprs[o['ref']])
            yield
    for i, l in enumerate(prog['leaves']):
        if i not in exprs:
            exprs[i] = declare_leaf(g, l)
            yield
    for o in prog['outs']:
        if o['late']:
            g.register_output(o['name'], exprs[o['ref']])
            yield
