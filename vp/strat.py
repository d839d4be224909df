"""Shared hypothesis strategies."""
from hypothesis import strategies as st

from vp import ops as O
from vp import prog as P


def envelope(G, case):
    case['hash'] = G.i(0, 1000)
    case['mode'] = G.c(['fwd', 'rev'])
    case['rev'] = G.c([False, False, True])
    case['dpoints'] = G.c([[0], [1], [0, 1]])
    return case


ALL = [o for o in O.GEN]
# heavier weight for operations with many parameters
WEIGHTED = ALL + ['assign', 'index', 'einsum', 'inner', 'expand', 'powc', 'max', 'wide', 'sum', 'average', 'add', 'mul',
                  'mul', 'add', 'div', 'sub', 'assign', 'index', 'if_else']


@st.composite
def focused(draw, ops, around=None, pre=(0, 2), focus=(1, 3), post=(0, 2), around_ops=None):
    """Programs whose interesting operations come from `ops`, fed by and feeding others."""
    G = P.Gen(draw)
    arr = around_ops or ['add', 'mul', 'sin', 'mulc', 'tanh', 'sub', 'exp', 'reshape', 'index']
    G.fill(arr, G.i(*pre))
    for _ in range(G.i(*focus)):
        for _try in range(4):
            if G.node(G.c(ops)) is not None:
                break
    G.fill(arr, G.i(*post))
    return envelope(G, {'prog': G.finish()})


@st.composite
def composite(draw, nmax=12, ops=None, all_sinks=True):
    G = P.Gen(draw)
    G.fill(ops or WEIGHTED, G.i(1, nmax))
    return envelope(G, {'prog': G.finish(all_sinks)})


def op_classes(case):
    prog = case['prog']
    out = set()
    for n in prog['nodes']:
        k = 'op:' + n['op']
        out.add(k)
        p = n['p']
        if len(n['args']) != len(set(n['args'])):
            out.add('repeated-operand')
        if len(n['args']) > 8:
            out.add('wide')
        for q in ('ct', 'fmt', 'rho'):
            if q in p:
                out.add('%s/%s=%s' % (n['op'], q, p[q] if q != 'rho' else 'set'))
        if n['op'] in ('sum', 'average', 'pnorm', 'max', 'min', 'dot'):
            out.add('%s/%s%s' % (n['op'], 'axes' if p.get('axes') or p.get('axis') is not None else 'noaxes',
                                 '/multi' if len(n['args']) > 1 else ''))
    uses = {}
    for n in prog['nodes']:
        for a in set(n['args']):
            uses[a] = uses.get(a, 0) + 1
    if any(v > 1 for v in uses.values()):
        out.add('shared-expression')
    out.add('mode:' + case.get('mode', 'auto'))
    out.add('nodes:%d-%d' % (len(prog['nodes']) // 4 * 4, len(prog['nodes']) // 4 * 4 + 3))
    return out
