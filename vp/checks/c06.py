import numpy as np
from hypothesis import strategies as st

from vp import families
from vp import harness as Hn
from vp import omrun
from vp import ops as O
from vp import prog as P

ID = 'C06'
RULE = ('a case is a generated program around elementwise standard functions on arrays of one to four axes, '
        'values and derivatives compared at several points, or one function of values of very different magnitudes; '
        'non-trivial: it contains such a function')
families.install(globals(), O.GROUPS['unary'], 14000, 120000)

sech = lambda x: 1 / np.cosh(x)
DERIV = {
    'sin': np.cos, 'cos': lambda x: -np.sin(x), 'tan': lambda x: 1 / np.cos(x)**2, 'sec': lambda x: np.sin(x) / np.cos(x)**2,
    'cosec': lambda x: -np.cos(x) / np.sin(x)**2, 'cotan': lambda x: -1 / np.sin(x)**2, 'exp': np.exp,
    'log': lambda x: 1 / x, 'log10': lambda x: 1 / (x * np.log(10.)), 'sinh': np.cosh, 'cosh': np.sinh,
    'tanh': lambda x: sech(x)**2, 'sech': lambda x: -sech(x) * np.tanh(x),
    'cosech': lambda x: -1 / np.sinh(x) / np.tanh(x), 'cotanh': lambda x: -1 / np.sinh(x)**2,
    'arcsin': lambda x: 1 / np.sqrt((1 - x) * (1 + x)), 'arccos': lambda x: -1 / np.sqrt((1 - x) * (1 + x)),
    'arctan': lambda x: 1 / (1 + x**2),
}
# domain of wide values: largest magnitude, smallest magnitude (0: zero allowed)
WIDE = {'exp': (300, 0), 'sinh': (300, 0), 'cosh': (300, 0), 'tanh': (300, 0), 'sech': (300, 0), 'cosech': (300, 1e-6),
        'cotanh': (300, 1e-6), 'log': (1e80, 1e-80), 'log10': (1e80, 1e-80), 'arctan': (1e60, 0), 'arcsin': (1 - 1e-6, 0),
        'arccos': (1 - 1e-6, 0), 'sin': (1e4, 0), 'cos': (1e4, 0), 'tan': (1e4, 0), 'sec': (1e4, 0), 'cosec': (1e4, 1e-6),
        'cotan': (1e4, 1e-6)}


def wide_value(G, f):
    hi, lo = WIDE[f]
    if not lo and G.i(0, 9) == 0:
        return 0.
    a = np.log(lo or 1e-9)
    v = float(np.exp(a + (np.log(hi) - a) * G.i(0, 1000) / 1000.))
    if f in ('tan', 'sec') and abs(np.cos(v)) < 1e-3 or f in ('cosec', 'cotan') and v > 0.5 and abs(np.sin(v)) < 1e-3:
        v = 0.5
    return v if f.startswith('log') or G.b() else -v


@st.composite
def wide(draw):
    G = P.Gen(draw)
    f = G.c(list(WIDE))
    shape = G.newshape()
    return {'wide': f, 'shape': list(shape), 'x': [[wide_value(G, f) for _ in range(int(np.prod(shape)))] for _ in range(2)],
            'hash': G.i(0, 1000), 'mode': G.c(['fwd', 'rev'])}


programs = strategy
check_program = check_case
classify_program, nontrivial_program = classify, nontrivial


def strategy(tier):
    p = programs(tier)
    return st.integers(0, 5).flatmap(lambda k: wide() if k == 5 else p)


def relative(what, got, want, atol):
    if got.shape != want.shape:
        Hn.fail('%s has shape %s instead of %s' % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= 1e-8 * np.abs(want) + atol)
    if np.any(bad):
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        Hn.fail('%s%s: got %r, expected %r' % (what, list(i), float(got[i]), float(want[i])))


def check_wide(case):
    import omtools.api as ot
    f = case['wide']
    xs = [np.array(x, float).reshape(case['shape']) for x in case['x']]

    def setup(self):
        x = self.declare_input('x', shape=xs[0].shape, val=O.user(xs[0]))
        self.register_output('y', getattr(ot, f)(x))
    with Hn.real('building a valid model'):
        prob = omrun.new_problem(type('G', (ot.Group,), {'setup': setup})(), case['mode'])
    for x in xs:
        with Hn.real('running the model at %s' % x.tolist()):
            prob.set_val('x', x)
            prob.run_model()
            got = omrun.totals(prob, ['y'], ['x'])['y', 'x']
        what = '%s(%s)' % (f, x.tolist())
        relative(what, omrun.get(prob, 'y'), np.real(O.REF[f]({}, x)), 1e-15 if f == 'arccos' else 0.)
        relative('derivative of ' + what, got, np.diag(DERIV[f](x).reshape(-1)), 1e-14 if f.endswith('tanh') else 0.)


def check_case(case):
    check_wide(case) if 'wide' in case else check_program(case)


def classify(case):
    return {'wide:' + case['wide'], 'mode:' + case['mode']} if 'wide' in case else classify_program(case)


def nontrivial(case):
    return 'wide' in case or nontrivial_program(case)
