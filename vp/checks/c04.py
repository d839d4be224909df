from collections import Counter

from hypothesis import strategies as st

from vp import harness as Hn
from vp import omrun, strat
from vp import prog as P

ID = 'C04'
EXAMPLES = {'quick': 9800, 'thorough': 40000}
RULE = ('a case is a generated program of which only some outputs are registered; non-trivial: it has an '
        'expression no output needs, an unused input, or an expression used more than once')
OPS = [o for o in strat.WEIGHTED if o not in ('wide',)] + ['add', 'mul', 'sin', 'mulc', 'index'] * 4


@st.composite
def cases(draw, nmax):
    G = P.Gen(draw)
    parts = G.c([False, False, True])       # mostly parts of expressions
    G.fill(['index', 'index', 'index', 'mulc', 'assign'] if parts else OPS, G.i(2, nmax))
    for _ in range(G.i(0, 2)):
        G.newleaf(G.newshape())
    prog = G.finish()
    # register some of the outputs only
    keep = [o for o in prog['outs'] if G.c([True, True, True, False] if parts else [True, False])]
    prog['outs'] = keep
    case = strat.envelope(G, {'prog': prog})
    return case


def strategy(tier):
    return cases(14 if tier == 'quick' else 24)


def prune(prog):
    """The same program without the expressions no output needs."""
    L = P.nleaf(prog)
    nd = P.needed(prog)
    kl = [i for i, l in enumerate(prog['leaves']) if i in nd or l['kind'] == 'indep']
    kn = [i for i in range(len(prog['nodes'])) if L + i in nd]
    m = {r: q for q, r in enumerate(kl)}
    m.update({L + i: len(kl) + q for q, i in enumerate(kn)})
    return {
        'leaves': [prog['leaves'][i] for i in kl],
        'nodes': [dict(prog['nodes'][i], args=[m[a] for a in prog['nodes'][i]['args']]) for i in kn],
        'outs': [dict(o, ref=m[o['ref']], **({'at': sum(k <= o['at'] for k in kn) - 1} if 'at' in o else {}))
                 for o in prog['outs']],
        'lazy': prog['lazy'],
    }


def components(prob):
    import openmdao.api as om
    return [c for c in prob.model.system_iter(recurse=True, typ=om.core.component.Component)
            ] if False else [c for c in prob.model.system_iter(recurse=True) if not isinstance(c, om.Group)
                             and c.name != '_auto_ivc']


def variables(prob):
    out = Counter()
    for c in components(prob):
        for kind, names in (('in', c._var_rel_names['input']), ('out', c._var_rel_names['output'])):
            for n in names:
                out[type(c).__name__, kind, tuple(c._var_rel2meta[n]['shape'])] += 1
    return out


def build(prog, case):
    import omtools.api as ot
    with Hn.real('building a valid model'):
        model = P.make_group(ot, prog, **({'reverse_branch_sorting': True} if case.get('rev') else {}))
        prob = omrun.new_problem(model)
        prob.final_setup()
    return prob


def check_case(case):
    prog = case['prog']
    live = set(P.live_leaves(prog))
    outs = dict(P.outputs(prog))
    if not outs and not live:
        return
    prob = build(prog, case)
    comps = components(prob)
    vals = P.evaluate(prog, P.leaf_arrays(prog))
    # every output and independent variable exists, once, under its name and with its shape
    want = {n: vals[r].shape for n, r in outs.items()}
    want.update({l['name']: tuple(l['shape']) for l in prog['leaves'] if l['kind'] == 'indep'})
    produced = Counter()
    shapes = {}
    read = set()
    for n, meta in prob.model.list_outputs(out_stream=None, prom_name=True, shape=True, val=False,
                                           return_format='dict').items():
        if n.startswith('_auto_ivc'):
            continue
        produced[meta['prom_name']] += 1
        shapes[meta['prom_name']] = tuple(meta['shape'])
    for n, meta in prob.model.list_inputs(out_stream=None, prom_name=True, val=False, return_format='dict').items():
        read.add(meta['prom_name'])
    for n, s in want.items():
        if produced[n] != 1:
            Hn.fail('%s is computed %d times' % (n, produced[n]))
        if shapes[n] != s:
            Hn.fail('%s has shape %s instead of %s' % (n, shapes[n], s))
    extra = [n for n in produced if n[:1] in 'xye' and n[1:].isdigit() and n not in want]
    if extra:
        Hn.fail('model computes %s, which was not asked for' % extra)
    for l in prog['leaves']:
        n = l['name']
        if n not in live and n in read:
            Hn.fail('input %s, which no output needs, is part of the model' % n)
        if n in live and l['kind'] == 'input' and n not in read:
            Hn.fail('input %s, which an output needs, is not part of the model' % n)
    # expressions no output needs add nothing
    small = prune(prog)
    if outs or any(l['kind'] == 'indep' for l in small['leaves']):
        a = Counter(type(c).__name__ for c in comps)
        pruned = build(small, case)
        b = Counter(type(c).__name__ for c in components(pruned))
        if a != b:
            Hn.fail('expressions which no output needs change the components from %s to %s' % (dict(b), dict(a)))
        a, b = variables(prob), variables(pruned)
        if a != b:
            Hn.fail('expressions which no output needs change the variables of the components (type of component, input or '
                    'output, shape) from %s to %s' % (sorted((b - a).items()), sorted((a - b).items())))
    # every expression is computed once
    L = P.nleaf(prog)
    nd = P.needed(prog)
    nodes = [n for i, n in enumerate(prog['nodes']) if L + i in nd]
    most = sum(1 for l in prog['leaves'] if l['kind'] == 'indep')
    most += sum(1 for n in nodes if n['op'] != 'index')
    most += len({n['args'][0] for n in nodes if n['op'] == 'index'})
    most += sum(len(n['args']) - len(set(n['args'])) for n in nodes)
    if len(comps) > most:
        Hn.fail('%d components for %d expressions' % (len(comps), most))


def classify(case):
    prog = case['prog']
    out = strat.op_classes(case)
    nd = P.needed(prog)
    L = P.nleaf(prog)
    if any(L + i not in nd for i in range(len(prog['nodes']))):
        out.add('dead-expression')
    if any(i not in nd and l['kind'] == 'input' for i, l in enumerate(prog['leaves'])):
        out.add('unused-input')
    if any(i not in nd and l['kind'] == 'indep' for i, l in enumerate(prog['leaves'])):
        out.add('unused-indep')
    return out


def nontrivial(case):
    c = classify(case)
    return 'dead-expression' in c or 'shared-expression' in c or 'unused-input' in c
