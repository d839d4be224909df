"""Hierarchical models: a flat program split over nested groups.

A plan is a list of segments covering the program's nodes in order:
  {'k': kind, 'n': number of nodes, 'plan': [...] for nested kinds}
kinds: own   nodes written directly in the enclosing group
       with  `with group.create_group(name)`
       cls   instance of a Group subclass, promotes=['*']
       pio   Group subclass, promotes_inputs=['*'], promotes_outputs=['*']
       list  Group subclass, promotes=[every name it uses or computes]
       om    plain OpenMDAO group containing a Group subclass
       conn  (top level only) not promoted; connected with explicit connections
       exec  one-node segment computed by a stock OpenMDAO component
       ren   Group subclass that uses its own names, promoted under the names of its parent
       pat   Group subclass, promotes=[patterns]
       imp   ImplicitComponent whose outputs are the solutions of x - (expression)
"""
import numpy as np

from vp import ops as O
from vp import prog as P

NESTED = ['with', 'cls', 'pio', 'list', 'om', 'with', 'cls', 'ren', 'pat']
EXEC = {'mulc': '{o} = {a} * {c}', 'addc': '{o} = {a} + {c}', 'add': '{o} = {a} + {b}', 'mul': '{o} = {a} * {b}',
        'sub': '{o} = {a} - {b}', 'sin': '{o} = sin({a})', 'neg': '{o} = -{a}', 'tanh': '{o} = tanh({a})',
        'cos': '{o} = cos({a})'}


def exec_ok(n):
    return n['op'] in EXEC and 'cs' not in n['p'] and len(set(n['args'])) == len(n['args'])


def gen_plan(G, nodes, depth=0, maxdepth=3, lo=0, hi=None, imp=True):
    hi = len(nodes) if hi is None else hi
    plan = []
    i = lo
    while i < hi:
        n = G.i(1, max(1, min(hi - i, 6)))
        if exec_ok(nodes[i]) and G.c([False, False, True]):
            plan.append({'k': 'exec', 'n': 1})
            i += 1
            continue
        if imp and G.c([False] * 9 + [True]):
            plan.append({'k': 'imp', 'n': n})
            i += n
            continue
        if G.c([True, False, False]) or depth >= maxdepth:
            plan.append({'k': 'own', 'n': n})
        else:
            k = G.c(NESTED + (['conn'] if depth == 0 else []))
            plan.append({'k': k, 'n': n, 'plan': gen_plan(G, nodes, depth + 1, maxdepth, i, i + n, imp)})
        i += n
    return plan


class Hier:
    def __init__(self, ot, prog, plan, late_indeps=(), rev=False):
        """late_indeps: names of independent variables created at the end of the top group."""
        self.ot, self.prog, self.plan = ot, prog, plan
        self.L = P.nleaf(prog)
        self.outname = {r: n for n, r in P.outputs(prog)}
        self.outinfo = {o['ref']: o for o in prog['outs']}
        self.late = set(late_indeps)
        self.rev = rev
        self.path = {}          # name of output -> name at the top
        self.count = 0
        # scope (tuple of segment positions) of every node
        self.scope = {}
        self.connscopes = set()

        def walk(plan, scope, i):
            for q, s in enumerate(plan):
                if s['k'] in ('own', 'exec', 'imp'):
                    for j in range(i, i + s['n']):
                        self.scope[self.L + j] = scope if s['k'] == 'own' else scope + (q,)
                else:
                    if s['k'] == 'conn':
                        self.connscopes.add(scope + (q,))
                    walk(s['plan'], scope + (q,), i)
                i += s['n']
        walk(plan, (), 0)
        users = {}
        for i, n in enumerate(prog['nodes']):
            for a in n['args']:
                users.setdefault(a, set()).add(self.scope[self.L + i])
        # nodes which must have a name: outputs, and nodes used outside of their scope
        self.exposed = {r for r in range(self.L, self.L + len(prog['nodes']))
                        if r in self.outname or any(u != self.scope[r] for u in users.get(r, ()))}
        for r, s in self.scope.items():
            nm = self.name(r)
            self.path[nm] = ('s%s.' % s[0] if s and s[:1] in self.connscopes else '') + nm

    def name(self, r):
        if r < self.L:
            return self.prog['leaves'][r]['name']
        return self.outname.get(r) or 'n%d' % (r - self.L)

    def shape(self, r):
        return self.shapes[r]

    def external(self, lo, hi):
        """refs used by nodes lo..hi-1 (positions) but not computed by them"""
        s = set()
        for n in self.prog['nodes'][lo:hi]:
            s |= {a for a in n['args'] if not self.L + lo <= a < self.L + hi}
        return sorted(s)

    def build(self):
        v = P.evaluate(self.prog, P.leaf_arrays(self.prog))
        self.shapes = [x.shape for x in v]
        self.connected = set()
        self.ownindeps = {}
        # independent variables are created in the top group
        def setup(g):
            self.top = g
            self.connected = set()
            self.fill(g, self.plan, (), 0)
        return type('Top', (self.ot.Group,), {'setup': setup})()

    def fill(self, g, plan, scope, i, alias=None):
        exprs = {}
        prog = self.prog
        alias = alias or {}

        def name(r):
            return alias.get(r) or self.name(r)
        if self.rev:
            g.reverse_branch_sorting = True
        late_outs = []
        if scope == ():
            for j, l in enumerate(prog['leaves']):
                if l['kind'] == 'indep' and l['name'] not in self.late:
                    exprs[j] = P.declare_leaf(g, l)
                elif not prog.get('lazy') and l['kind'] == 'input':
                    exprs[j] = P.declare_leaf(g, l)

        def ref(r):
            if r in exprs:
                return exprs[r]
            if r < self.L:
                l = prog['leaves'][r]
                exprs[r] = g.declare_input(name(r), shape=tuple(l['shape']),
                                           val=np.asarray(l['v'][0], float).reshape(l['shape']))
            else:
                exprs[r] = g.declare_input(name(r), shape=self.shapes[r])
                self.tie(r, scope)
            return exprs[r]

        for q, s in enumerate(plan):
            if s['k'] == 'own':
                for j in range(i, i + s['n']):
                    n = prog['nodes'][j]
                    args = [ref(a) for a in n['args']]
                    r = self.L + j
                    p = dict(n['p'], name=alias[r]) if r in alias and 'name' in n['p'] else n['p']
                    e = O.BUILD[n['op']](g, self.ot, p, *args)
                    exprs[r] = e
                    if r in self.exposed and n['op'] not in ('assign', 'define'):
                        o = self.outinfo.get(r)
                        used_later = any(r in m['args'] for jj, m in enumerate(prog['nodes'])
                                         if self.scope[self.L + jj] != scope)
                        if o and o['late'] and not used_later:
                            late_outs.append((name(r), e))
                        else:
                            g.register_output(name(r), e)
            else:
                self.subsystem(g, s, scope + (q,), q, i, name, alias)
            i += s['n']
        for nm, e in late_outs:
            g.register_output(nm, e)
        if scope == ():
            for l in prog['leaves']:
                if l['kind'] == 'indep' and l['name'] in self.late:
                    P.declare_leaf(g, l)

    def tie(self, r, scope):
        """A promoted input at the top reads a node of a group which is not promoted."""
        src = self.scope[r]
        if src[:1] in self.connscopes and (scope[:1] != src[:1]) and scope[:1] not in self.connscopes:
            if r not in self.connected:
                self.connected.add(r)
                self.top.connect(self.path[self.name(r)], self.name(r))

    def subsystem(self, g, s, scope, q, i, nm, alias):
        import openmdao.api as om
        ot = self.ot
        name = 's' + '_'.join(str(x) for x in scope)
        ext = self.external(i, i + s['n'])
        if s['k'] == 'exec':
            n = self.prog['nodes'][i]
            r = self.L + i
            for a in n['args']:
                self.tie_exec(a, scope)
            an = [nm(a) for a in n['args']]
            d = dict(o=nm(r), a=an[0], b=an[-1], c=repr(n['p'].get('c')))
            k = {}
            for a in n['args']:
                k[nm(a)] = dict(shape=self.shapes[a])
                if a < self.L:
                    k[nm(a)] = dict(val=np.asarray(self.prog['leaves'][a]['v'][0], float).reshape(
                        self.prog['leaves'][a]['shape']))
            k[d['o']] = dict(shape=self.shapes[r])
            g.add_subsystem(name, om.ExecComp(EXEC[n['op']].format(**d), has_diag_partials=False, do_coloring=False, **k),
                            promotes=['*'])
            return
        if s['k'] == 'with':
            with g.create_group(name) as c:
                self.fill(c, s['plan'], scope, i, alias)
            return
        if s['k'] == 'imp':
            self.implicit(g, name, s, ext, i, nm, scope)
            return
        me = self
        outs = [r for r in range(self.L + i, self.L + i + s['n']) if r in self.exposed]
        if s['k'] == 'ren':
            inner = dict(alias)
            for r in ext + list(range(self.L + i, self.L + i + s['n'])):
                inner[r] = 'q%d_%s' % (len(scope), nm(r))
        else:
            inner = alias

        def setup(c):
            me.fill(c, s['plan'], scope, i, inner)
        child = type('Child', (ot.Group,), {'setup': setup})()
        if s['k'] == 'cls':
            g.add_subsystem(name, child, promotes=['*'])
        elif s['k'] == 'pio':
            g.add_subsystem(name, child, promotes_inputs=['*'], promotes_outputs=['*'])
        elif s['k'] == 'list':
            g.add_subsystem(name, child, promotes=[nm(r) for r in ext + outs] or None)
        elif s['k'] == 'ren':
            if q % 2:
                g.add_subsystem(name, child, promotes=[(inner[r], nm(r)) for r in ext + outs] or None)
            else:
                g.add_subsystem(name, child, promotes_inputs=[(inner[r], nm(r)) for r in ext] or None,
                                promotes_outputs=[(inner[r], nm(r)) for r in outs] or None)
        elif s['k'] == 'pat':
            g.add_subsystem(name, child, promotes=sorted({nm(r)[:-1] + '?' for r in ext + outs}) or None)
        elif s['k'] == 'om':
            og = om.Group()
            og.add_subsystem('inner', child, promotes=['*'])
            g.add_subsystem(name, og, promotes=['*'])
        elif s['k'] == 'conn':
            lv = [nm(r) for r in ext if r < self.L]
            g.add_subsystem('s%d' % q, child, promotes_inputs=lv or None)
            for r in ext:
                if r >= self.L:
                    g.connect(self.path[self.name(r)], 's%d.%s' % (q, nm(r)))
        else:
            raise AssertionError(s['k'])

    def implicit(self, g, name, s, ext, i, nm, scope):
        import openmdao.api as om
        ot, prog, me = self.ot, self.prog, self
        states = [r for r in range(self.L + i, self.L + i + s['n']) if r in self.exposed]
        if not states:
            return
        for r in ext:
            self.tie_exec(r, scope)

        def setup(c):
            c = c.group
            exprs = {}
            for r in ext:
                val = dict(val=np.asarray(prog['leaves'][r]['v'][0], float).reshape(prog['leaves'][r]['shape'])) \
                    if r < me.L else {}
                exprs[r] = c.declare_input(nm(r), shape=me.shapes[r], **val)
            for j in range(i, i + s['n']):
                n, r = prog['nodes'][j], me.L + j
                p = dict(n['p'], name='z_' + n['p']['name']) if 'name' in n['p'] else n['p']
                exprs[r] = O.BUILD[n['op']](c, ot, p, *[exprs[a] for a in n['args']])
                if r in states:
                    x = c.create_implicit_output(nm(r), shape=me.shapes[r])
                    x.define_residual(x - exprs[r])
        comp = type('Imp', (ot.ImplicitComponent,), {'setup': setup})()
        comp.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=4, atol=1e-11, rtol=1e-14, iprint=-1)
        comp.linear_solver = om.DirectSolver()
        g.add_subsystem(name, comp, promotes=['*'])

    def tie_exec(self, r, scope):
        if r >= self.L:
            self.tie(r, scope)


def plan_kinds(plan, depth=0, out=None):
    out = set() if out is None else out
    for s in plan:
        out.add('seg:' + s['k'])
        out.add('depth:%d' % depth)
        if 'plan' in s:
            plan_kinds(s['plan'], depth + 1, out)
    return out


def envelope(G, case, maxdepth=3, imp=True):
    """imp: segments computed by implicit components (which cannot be differentiated by complex step)."""
    prog = case['prog']
    case['plan'] = gen_plan(G, prog['nodes'], maxdepth=maxdepth, imp=imp)
    # independent variables which may be created after everything else: those which the top
    # group does not use in its own expressions
    L = len(prog['leaves'])
    used, i = set(), 0
    for s in case['plan']:
        if s['k'] == 'own':
            for n in prog['nodes'][i:i + s['n']]:
                used |= set(n['args'])
        i += s['n']
    case['late'] = [l['name'] for j, l in enumerate(prog['leaves'])
                    if l['kind'] == 'indep' and j not in used and G.b()]
    return case


def check(case, derivs=True):
    import omtools.api as ot
    from vp import harness as Hn
    from vp import omrun
    prog = case['prog']
    H = Hier(ot, prog, case['plan'], case['late'], case.get('rev'))
    with Hn.real('building and running a valid hierarchical model'):
        top = H.build()
        prob = omrun.new_problem(top, case.get('mode', 'auto'))
        prob.run_model()
    path = lambda n: H.path.get(n, n)
    leaves = reachable_leaves(prog, H)
    for point in range(2):
        lv = P.leaf_arrays(prog, point)
        if point:
            with Hn.real('running at new input values'):
                for n in leaves:
                    prob.set_val(n, lv[n])
                prob.run_model()
        want = P.evaluate(prog, lv)
        tag = 'run %d: ' % (point + 1)
        names = [(n, r) for n, r in P.outputs(prog)]
        for n, r in names:
            with Hn.real('reading output %s' % path(n)):
                g = omrun.get(prob, path(n))
            m = P.mismatch('value of ' + n, g, want[r])
            if m:
                Hn.fail(tag + m)
        if derivs and point in case.get('dpoints', [0]) and names and leaves:
            of = [n for n, _ in names]
            with Hn.real('computing total derivatives'):
                got = omrun.totals(prob, [path(n) for n in of], leaves)
            J = P.ref_jacobian(prog, lv, of, leaves)
            for (o, w), x in J.items():
                m = P.mismatch('derivative of %s with respect to %s' % (o, w), got[path(o), w], x, rtol=1e-6, atol=1e-8)
                if m:
                    Hn.fail(tag + m)
    return prob, H


def reachable_leaves(prog, H):
    """Leaves which appear in the model: independent variables, and inputs used by a node that
    some group keeps."""
    L = P.nleaf(prog)
    keep = set()
    stack = [r for r in H.exposed]
    # computed by a stock component: always kept
    i = 0

    def walk(plan, i):
        for s in plan:
            if s['k'] == 'exec':
                stack.append(L + i)
            elif 'plan' in s:
                walk(s['plan'], i)
            i += s['n']
    walk(H.plan, 0)
    while stack:
        r = stack.pop()
        if r in keep:
            continue
        keep.add(r)
        if r >= L:
            stack += prog['nodes'][r - L]['args']
    return [l['name'] for j, l in enumerate(prog['leaves']) if j in keep or l['kind'] == 'indep']
