"""Inputs, independent variables, defaults, overrides and design variables."""
import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import omrun, strat
from vp import ops as O
from vp import prog as P

ID = 'C20'
EXAMPLES = {'quick': 15000, 'thorough': 48000}
RULE = ('a case is a program whose inputs and independent variables are declared in generated styles (value omitted, '
        'number, list, array, shape inferred) inside a generated environment (promoted or connected sources, overrides, '
        'sibling groups); non-trivial: an output depends on a declaration that is not a plain array with its shape, or '
        'on a source outside the group')

# (style, what is passed)
STYLES = ['array', 'array_noshape', 'list', 'list_noshape', 'number', 'npnumber', 'intnumber', 'omitted', 'intarray',
          'shapeonly1', 'number1']
ARITH = ['add', 'sub', 'mul', 'mulc', 'addc', 'sin', 'tanh', 'cos', 'sum', 'average', 'reshape', 'index', 'expand', 'powc',
         'dot', 'matvec', 'matmat', 'einsum', 'inner', 'outer', 'max', 'assign', 'define', 'transpose', 'exp', 'neg']


@st.composite
def cases(draw, nmax):
    G = P.Gen(draw)
    # leaves come first, so that their styles are known
    styles = []
    for _ in range(G.i(1, 4)):
        s = G.c(STYLES)
        shape = (1,) if s in ('shapeonly1', 'number1') else G.newshape()
        r = G.newleaf(shape)
        styles.append(s)
        l = G.leaves[-1]
        v = np.array(l['v'][0])
        if s in ('omitted', 'shapeonly1'):
            v = np.ones(v.size)
        elif s in ('number', 'npnumber', 'number1'):
            v = np.full(v.size, v[0])
        elif s == 'intnumber':
            v = np.full(v.size, float(G.i(-2, 3)))
        elif s == 'intarray':
            v = np.round(v * 2)
        l['v'][0] = v.tolist()
        l['dv'] = l['kind'] == 'indep' and G.b()
        G.vals[r] = [np.array(x).reshape(shape) for x in l['v']]
    G.fill(ARITH, G.i(1, nmax))
    while len(styles) < len(G.leaves):
        styles.append('array')
        G.leaves[-1].setdefault('dv', False)
    prog = G.finish()
    for l in prog['leaves']:
        l.setdefault('dv', False)
    src = []
    for l in prog['leaves']:
        # where the value of an input comes from in the environment
        k = 'none'
        if l['kind'] == 'input':
            k = G.c(['none', 'none', 'none', 'promoted', 'connected'])
        src.append({'k': k, 'v': None if k == 'none' else leafvals(G, l)})
    case = {'prog': prog, 'styles': styles, 'src': src, 'env': G.c(['top', 'sub', 'sub_noprom', 'ot_sub']),
            'sibling': G.b(), 'setbefore': [i for i in range(len(prog['leaves'])) if G.c([False, False, True])],
            'hash': G.i(0, 1000)}
    # values taken from different points may be outside of the domain of an operation together
    if not inside(prog, first(case, False)[0]):
        for q in src:
            q.update(k='none', v=None)
    if not inside(prog, first(case)[0]):
        case['setbefore'] = []
    return case


def inside(prog, vals):
    return all(np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e3 for v in P.evaluate(prog, vals))


def first(case, setbefore=True):
    """Values at the first run, and names of inputs which have sources."""
    prog = case['prog']
    live = set(P.live_leaves(prog))
    sources = {l['name']: s for l, s in zip(prog['leaves'], case['src']) if l['name'] in live and s['k'] != 'none'}
    val = {}
    for q, l in enumerate(prog['leaves']):
        n = l['name']
        s = sources.get(n)
        v = s['v'] if s else l['v'][1 if setbefore and n in live and q in case['setbefore'] else 0]
        val[n] = np.asarray(v, float).reshape(l['shape'])
    return val, sources


def leafvals(G, l):
    rng = np.random.default_rng(G.i(0, 2**20))
    # within the value range the program was generated for
    a, b = np.array(l['v'][0]), np.array(l['v'][1])
    return (a + (b - a) * (0.4 + 0.2 * rng.random(len(a)))).tolist()


def strategy(tier):
    return cases(6 if tier == 'quick' else 12)


def declare(g, l, style):
    f = g.create_indep_var if l['kind'] == 'indep' else g.declare_input
    v = np.asarray(l['v'][0], float).reshape(l['shape'])
    shape = tuple(l['shape'])
    k = {}
    if l['dv']:
        k['dv'] = True
    if style == 'array':
        return f(l['name'], shape=shape, val=v, **k)
    if style == 'array_noshape':
        return f(l['name'], val=v, **k)
    if style == 'list':
        return f(l['name'], shape=shape, val=v.tolist(), **k)
    if style == 'list_noshape':
        return f(l['name'], val=v.tolist(), **k)
    if style == 'number':
        return f(l['name'], shape=shape, val=float(v.flat[0]), **k)
    if style == 'npnumber':
        return f(l['name'], shape=shape, val=np.float64(v.flat[0]), **k)
    if style == 'intnumber':
        return f(l['name'], shape=shape, val=int(v.flat[0]), **k)
    if style == 'omitted':
        return f(l['name'], shape=shape, **k)
    if style == 'intarray':
        return f(l['name'], shape=shape, val=v.astype(int), **k)
    if style == 'shapeonly1':
        return f(l['name'], **k)
    if style == 'number1':
        return f(l['name'], val=float(v.flat[0]), **k)
    raise AssertionError(style)


def make(ot, case, inner):
    prog = case['prog']
    L = P.nleaf(prog)

    def setup(self):
        if inner is not None:
            inner(self)
        exprs = {}
        for i, l in enumerate(prog['leaves']):
            exprs[i] = declare(self, l, case['styles'][i])
        early = P.early_outs(prog)
        for i, n in enumerate(prog['nodes']):
            exprs[L + i] = O.BUILD[n['op']](self, ot, n['p'], *[exprs[a] for a in n['args']])
            for o in early.get(i, ()):
                self.register_output(o['name'], exprs[o['ref']])
        for o in prog['outs']:
            if o['late']:
                self.register_output(o['name'], exprs[o['ref']])
    return type('M', (ot.Group,), {'setup': setup})()


def check_case(case):
    import omtools.api as ot
    import openmdao.api as om
    prog = case['prog']
    L = P.nleaf(prog)
    live = set(P.live_leaves(prog))
    names = [l['name'] for l in prog['leaves']]
    env = case['env']
    val, sources = first(case, False)

    def where(q):
        # an omtools group promotes the variables of components by default
        return 'v%d' % q if env in ('top', 'ot_sub') else 'src%d.v%d' % (q, q)

    def indeps(add, connect, prefix):
        """Stock independent variable components that feed inputs of the group."""
        for q, l in enumerate(prog['leaves']):
            s = sources.get(l['name'])
            if s is None:
                continue
            v = val[l['name']]
            if s['k'] == 'promoted':
                c = om.IndepVarComp()
                c.add_output(l['name'], v)
                add('src%d' % q, c, ['*'])
            else:
                c = om.IndepVarComp()
                c.add_output('v%d' % q, v)
                add('src%d' % q, c, None)
                connect(where(q), prefix + l['name'])

    with Hn.real('building a valid model'):
        if env == 'top':
            def inner(g):
                indeps(lambda n, c, p: g.add_subsystem(n, c, promotes=p), g.connect, '')
            top = make(ot, case, inner)
            pre = ''
        elif env == 'ot_sub':
            sub = make(ot, case, None)

            def setup(self):
                indeps(lambda n, c, p: self.add_subsystem(n, c, promotes=p), self.connect, '')
                self.add_subsystem('sub', sub, promotes=['*'])
            top = type('T', (ot.Group,), {'setup': setup})()
            pre = ''
        else:
            top = om.Group()
            sub = make(ot, case, None)
            if env == 'sub':
                pre = ''
                indeps(lambda n, c, p: top.add_subsystem(n, c, promotes=p), top.connect, '')
                top.add_subsystem('sub', sub, promotes=['*'])
            else:
                # nothing promoted: sources are connected explicitly
                pre = 'sub.'
                for q, l in enumerate(prog['leaves']):
                    s = sources.get(l['name'])
                    if s is not None:
                        c = om.IndepVarComp()
                        c.add_output('v%d' % q, val[l['name']])
                        top.add_subsystem('src%d' % q, c)
                        top.connect(where(q), 'sub.' + l['name'])
                top.add_subsystem('sub', sub)
            if case['sibling'] and env == 'sub':
                # a second group which uses the same inputs
                free = [(i, l) for i, l in enumerate(prog['leaves']) if l['kind'] == 'input' and l['name'] in live]

                def setup2(self):
                    for i, l in free:
                        self.register_output('sib_' + l['name'], declare(self, l, case['styles'][i]) * 3.)
                if free:
                    top.add_subsystem('sib', type('S', (ot.Group,), {'setup': setup2})(), promotes=['*'])
        prob = om.Problem(model=top)
        prob.setup()
        prob.final_setup()
    sib = case['sibling'] and env == 'sub'

    def read(n):
        with Hn.real('reading %s' % n):
            return np.array(prob.get_val(n))

    def expect(vals, tag):
        for l in prog['leaves']:
            if l['name'] in live:
                m = P.mismatch('value of %s (declared as %s)' % (l['name'], case['styles'][names.index(l['name'])]),
                               read(pre + l['name']), vals[l['name']])
                if m:
                    Hn.fail(tag + m)

    def outs(vals, tag):
        for n, w in P.ref_outputs(prog, vals).items():
            m = P.mismatch('value of ' + n, read(pre + n), w)
            if m:
                Hn.fail(tag + m)
        if sib:
            for l in prog['leaves']:
                if l['kind'] == 'input' and l['name'] in live:
                    m = P.mismatch('value of sib_' + l['name'], read('sib_' + l['name']), 3 * vals[l['name']])
                    if m:
                        Hn.fail(tag + m)

    def drive(vals, tag):
        # a driver sees all elements of each design variable, as they are
        with Hn.real('values of design variables'):
            got = {n: np.array(v) for n, v in prob.driver.get_design_var_values().items()}
        for l in prog['leaves']:
            if l['dv']:
                if pre + l['name'] not in got:
                    Hn.fail(tag + 'the driver has no design variable %s' % l['name'])
                m = P.mismatch('value of design variable ' + l['name'], got[pre + l['name']], vals[l['name']].ravel())
                if m:
                    Hn.fail(tag + m)

    # independent variables have their values as soon as the model is set up; inputs without a
    # source have their defaults
    pv = {n: v for n, v in val.items() if n not in sources}
    for l in prog['leaves']:
        if l['name'] in live and l['name'] in pv:
            m = P.mismatch('value of %s (declared as %s)' % (l['name'], case['styles'][names.index(l['name'])]),
                           read(pre + l['name']), pv[l['name']])
            if m:
                Hn.fail('before running: ' + m)
    with Hn.real('design variables'):
        dv = set(prob.model.get_design_vars(recurse=True, use_prom_ivc=True))
    want = {pre + l['name'] for l in prog['leaves'] if l['dv']}
    if dv != want:
        Hn.fail('design variables are %s instead of %s' % (sorted(dv), sorted(want)))
    with Hn.real('design variables'):
        meta = {n: (m['lower'], m['upper']) for n, m in prob.model.get_design_vars(recurse=True, use_prom_ivc=True).items()}
    for n, (lo, up) in meta.items():
        if (lo is not None and np.max(lo) > -1e29) or (up is not None and np.min(up) < 1e29):
            Hn.fail('design variable %s is bounded (%s, %s)' % (n, lo, up))
    # values set by the user before the first run
    cur = dict(val)
    for i in case['setbefore']:
        l = prog['leaves'][i]
        if l['name'] in live and l['name'] not in sources:
            cur[l['name']] = np.asarray(l['v'][1], float).reshape(l['shape'])
            with Hn.real('setting %s' % l['name']):
                prob.set_val(pre + l['name'], cur[l['name']])
    with Hn.real('running a valid model'):
        prob.run_model()
    expect(cur, 'run 1: ')
    outs(cur, 'run 1: ')
    drive(cur, 'run 1: ')
    # then move everything that may be moved
    for q, l in enumerate(prog['leaves']):
        n = l['name']
        if n in live:
            cur[n] = np.asarray(l['v'][1], float).reshape(l['shape'])
            s = sources.get(n)
            path = pre + n
            if s is not None and (s['k'] == 'connected' or env == 'sub_noprom'):
                path = where(q)
            with Hn.real('setting %s' % path):
                prob.set_val(path, cur[n])
    with Hn.real('running a valid model again'):
        prob.run_model()
    expect(cur, 'run 2: ')
    outs(cur, 'run 2: ')
    drive(cur, 'run 2: ')


def classify(case):
    out = {'env:' + case['env']}
    for l, s in zip(case['prog']['leaves'], case['styles']):
        out.add('%s/%s' % (l['kind'], s))
        if l['dv']:
            out.add('design-variable')
    out |= {'source:' + s['k'] for s in case['src']}
    if case['setbefore']:
        out.add('set-before-run')
    return out


def nontrivial(case):
    nd = P.needed(case['prog'])
    return any(i in nd and (case['styles'][i] != 'array' or case['src'][i]['k'] != 'none')
               for i in range(len(case['prog']['leaves'])))
