"""Stock components used directly in OpenMDAO models, with the options each offers."""
import importlib

import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import omrun
from vp import ops as O
from vp import prog as P

ID = 'C26'
EXAMPLES = {'quick': 22500, 'thorough': 400000}
RULE = ('a case is one stock component, constructed by keyword options in an OpenMDAO model, with generated options, shapes '
        'and two input points; non-trivial: it has an input or an output with more than one element, distinct by content')
ASSUMPTIONS = ['default values of the inputs are given to the component, as its options require']

UNARY = {'sin': 'sincomp.SinComp', 'cos': 'coscomp.CosComp', 'tan': 'tancomp.TanComp', 'sec': 'seccomp.SecComp',
         'cosec': 'coseccomp.CosecComp', 'cotan': 'cotancomp.CotanComp', 'sinh': 'sinhcomp.SinhComp',
         'cosh': 'coshcomp.CoshComp', 'tanh': 'tanhcomp.TanhComp', 'sech': 'sechcomp.SechComp',
         'cosech': 'cosechcomp.CosechComp', 'cotanh': 'cotanhcomp.CotanhComp', 'exp': 'expcomp.ExpComp',
         'log': 'logcomp.LogComp', 'log10': 'log10comp.Log10Comp', 'arcsin': 'arcsincomp.ArcsinComp',
         'arccos': 'arccoscomp.ArccosComp', 'arctan': 'arctancomp.ArctanComp'}
KINDS = ['linear', 'linear', 'power', 'power', 'linpow', 'linpow', 'linpow', 'unary', 'sum1', 'sumn', 'avg1', 'avgn', 'pnorm',
         'pnormax', 'scalarext', 'axisext', 'elemext', 'matmat', 'matvec', 'vinner', 'vouter', 'tinner', 'touter', 'tdot',
         'cross', 'einsum', 'einsum', 'reshape', 'transpose', 'reorder', 'expand', 'scalarexpand', 'rotmat']


class D(P.Draw):
    def shape(self, lo=1, hi=3, cap=4):
        return [self.i(1, cap) for _ in range(self.i(lo, hi))]

    def vals(self, shape, kind='any'):
        rng = np.random.default_rng(self.i(0, 2**20))
        style = self.i(0, 4)
        return [O.leaf_values(rng, int(np.prod(shape)), kind, style).tolist() for _ in range(2)]


def back(d, nd, axes):
    """Axes, some of them counted from the back"""
    return [a - nd if d.b() else a for a in axes] if d.c([False, False, True]) else list(axes)


@st.composite
def cases(draw):
    d = D(draw)
    k = d.c(KINDS)
    c = {'kind': k, 'mode': d.c(['fwd', 'rev']), 'o': {}}
    o = c['o']
    ins = []    # [shape, kind of values]

    def names(n, again=True):
        """Names of operands, which may repeat"""
        r = []
        for q in range(n):
            if again and r and d.c([False, False, False, True]):
                r.append(d.c(r))
            else:
                r.append('x%d' % len(set(r)))
        return r
    if k in ('linear', 'power'):
        s = d.shape()
        how = d.c(['list', 'array', 'scalar', 'dict', 'default'] + ['arrays'] * (k == 'power'))
        n = d.i(1, 4)
        o['names'] = names(n, how != 'dict')
        size = int(np.prod(s))
        if k == 'linear':
            pool = [1., -2., 0.5, 3., 0., -0.25, 2]
            kind = 'any'
        else:
            kind = d.c(['pos', 'pos', 'small', 'nz'])
            pool = {'pos': [0.5, 1., 2., -1.5, 0., 3.], 'small': [1., 2., 3., 0., 4.], 'nz': [-1., -2., 1., 2., 0.]}[kind]
        c['how'] = how
        one = lambda: d.c(pool)
        if how == 'arrays':
            o['w'] = [[one() for _ in range(size)] if d.b() else one() for _ in range(n)]
        elif how in ('scalar', 'default'):
            o['w'] = 1. if how == 'default' else one()
        else:
            o['w'] = [one() for _ in range(n)]
        if d.b():
            o['k'] = d.c([0., 1.5, -2., 3]) if d.b() else [d.c([1., 0., -2.5]) for _ in range(size)]
        o['str'] = n == 1 and how != 'dict' and d.b()
        ins = [[s, kind] for _ in range(len(set(o['names'])))]
    elif k == 'linpow':
        s = d.shape()
        n = d.i(1, 3)
        kind = d.c(['pos', 'any', 'nz'])
        pool = {'pos': [0.5, 1., 2., -1.5, 3.], 'any': [1., 2., 3.], 'nz': [-1., -2., 1., 2.]}[kind]
        terms = []
        for t in range(d.i(1, 3)):
            used = [q for q in range(n) if t == 0 or d.b()] or [d.i(0, n - 1)]
            terms.append([d.c([1.5, 2., -1., 0.5]), {'x%d' % q: d.c(pool + [0.]) for q in d.perm(used)}])
        o['terms'] = terms
        c['how'] = d.c(['terms', 'arrays', 'list'])
        if d.b():
            o['k'] = d.c([0., 1.5, -2.]) if d.b() else [d.c([1., 0., -2.5]) for _ in range(int(np.prod(s)))]
        ins = [[s, kind] for _ in range(n)]
    elif k == 'unary':
        o['f'] = d.c(sorted(UNARY))
        ins = [[d.shape(), O.UN_DOM[o['f']]]]
    elif k in ('sum1', 'avg1', 'sumn', 'avgn'):
        s = d.shape(1, 4, 3)
        if d.b():
            o['axes'] = back(d, len(s), d.perm(range(len(s)))[:d.c([d.i(1, max(1, len(s) - 1)), len(s)])])
            o['os'] = d.b()
        n = 1 if k[-1] == '1' else d.i(2, 4)
        ins = [[s, 'any'] for _ in range(n)]
    elif k in ('pnorm', 'pnormax'):
        s = d.shape(1, 4, 3)
        if d.b():
            o['n'] = d.c([2, 4, 6, 8])
        if k == 'pnormax':
            o['axes'] = back(d, len(s), d.perm(range(len(s)))[:d.c([d.i(1, max(1, len(s) - 1)), len(s)])])
            o['os'] = d.b()
        ins = [[s, 'nz']]
    elif k == 'scalarext':
        o['lower'] = d.c([True, False, None])
        o['rho'] = d.c([50., 5., 20., 100.])
        ins = [[d.shape(), 'any']]
    elif k == 'axisext':
        s = d.shape(2, 3, 3)
        o['lower'] = d.b()
        o['rho'] = d.c([50., 5., 20., 100.])
        o['axis'] = d.i(-len(s), len(s) - 1)
        ins = [[s, 'any']]
    elif k == 'elemext':
        s = d.shape()
        o['lower'] = d.b()
        o['rho'] = d.c([5., 20., 100.])
        ins = [[s, 'any'] for _ in range(d.i(1, 4))]
    elif k == 'matmat':
        a, b, e = d.i(1, 3), d.i(1, 4), d.i(1, 3)
        o['os'] = d.b()
        ins = [[[a, b], 'any'], [[b, e], 'any']]
    elif k == 'matvec':
        a, b = d.i(1, 3), d.i(1, 4)
        ins = [[[a, b], 'any'], [[b], 'any']]
    elif k == 'vinner':
        a = d.i(1, 5)
        ins = [[[a], 'any'], [[a], 'any']]
    elif k == 'vouter':
        ins = [[[d.i(1, 4)], 'any'], [[d.i(1, 4)], 'any']]
    elif k == 'tinner':
        na, nb = d.c([(2, 1), (1, 2), (2, 2), (3, 2), (2, 3)])
        m = d.i(1, min(na, nb))
        sa, sb = [d.i(1, 3) for _ in range(na)], [d.i(1, 3) for _ in range(nb)]
        xa, xb = d.perm(range(na))[:m], d.perm(range(nb))[:m]
        for i, j in zip(xa, xb):
            sb[j] = sa[i]
        o['axes'] = [back(d, na, xa), back(d, nb, xb)]
        o['os'] = d.b()
        ins = [[sa, 'any'], [sb, 'any']]
    elif k == 'touter':
        ins = [[d.shape(1, 2, 3), 'any'], [d.shape(1, 2, 3), 'any']]
    elif k in ('tdot', 'cross'):
        s = [d.i(1, 3) for _ in range(d.i(2 if k == 'tdot' else 1, 3))]
        o['axis'] = d.i(0, len(s) - 1)
        if k == 'cross':
            s[o['axis']] = 3
        else:
            o['os'] = d.b()
        o['axis'] = back(d, len(s), [o['axis']])[0]
        ins = [[s, 'any'], [s, 'any']]
    elif k == 'einsum':
        letters = d.perm('ijkl')
        dims = {x: d.i(2, 3) if d.c([True, True, False]) else 1 for x in letters}
        subs = [''.join(d.perm(letters)[:d.c([1, 2, 2])]) for _ in range(d.c([1, 2, 2, 3]))]
        used = sorted(set(''.join(subs)))
        o['sub'] = ','.join(subs) + '->' + ''.join(d.perm(used)[:d.i(0, min(3, len(used)))])
        o['fmt'] = d.c(['dense', 'sparse'])
        o['os'] = d.b()
        o['str'] = len(subs) == 1 and d.b()
        ins = [[[dims[x] for x in q], 'any'] for q in subs]
    elif k == 'reshape':
        s = d.shape()
        o['to'] = list(d.c(O.factorizations(int(np.prod(s)))))
        ins = [[s, 'any']]
    elif k == 'transpose':
        o['os'] = d.b()
        ins = [[d.shape(), 'any']]
    elif k == 'reorder':
        s = d.shape(1, 4, 3)
        o['perm'] = d.perm(range(len(s)))
        c['how'] = d.c(['operation', 'locations', 'both'])
        o['os'] = d.b()
        ins = [[s, 'any']]
    elif k == 'expand':
        s = d.shape(2, 4, 3)
        o['shape'] = s
        o['new'] = sorted(d.perm(range(len(s)))[:d.c([d.i(1, max(1, len(s) - 1)), len(s)])])
        ins = [[[n for q, n in enumerate(s) if q not in o['new']], 'any']]
    elif k == 'scalarexpand':
        o['shape'] = d.shape()
        ins = [[[1], 'any']]
    elif k == 'rotmat':
        o['axis'] = d.c(['x', 'y', 'z'])
        ins = [[d.shape(1, 2, 3), 'any']]
    c['ins'] = [[s, d.vals(s, kind)] for s, kind in ins]
    c['twice'] = d.c([False, False, True])
    return c


def strategy(tier):
    return cases()


def comp_class(path):
    m, n = path.split('.') if path.count('.') == 1 else path.rsplit('.', 1)
    return getattr(importlib.import_module('omtools.comps.' + m), n)


def arr(x, shape):
    return O.user(np.asarray(x, float).reshape(shape)) if isinstance(x, list) else x


def spec(c):
    """(component class path, options, names of inputs, reference)"""
    k, o = c['kind'], c['o']
    shapes = [tuple(s) for s, _ in c['ins']]
    vals = [np.asarray(v[0], float).reshape(s) for s, v in zip(shapes, (v for _, v in c['ins']))]
    ins = ['x%d' % q for q in range(len(shapes))]
    s0 = shapes[0]
    opt = {'out_name': 'y'}
    single = {'in_name': 'x0', 'val': vals[0]}
    several = {'in_names': list(ins), 'in_vals': list(vals)}
    axes = tuple(o['axes']) if o.get('axes') and k != 'tinner' else None

    def outshape(s):
        if o.get('os'):
            opt['out_shape'] = tuple(s)

    def without(s, ax):
        return [n for q, n in enumerate(s) if q not in ax and q - len(s) not in ax]
    if k in ('linear', 'power'):
        opt['shape'] = s0
        names = o['names']
        w = o['w']
        ws = [arr(x, s0) for x in (w if isinstance(w, list) else [w] * len(names))]
        kw = 'coeffs' if k == 'linear' else 'powers'
        opt['in_vals'] = [vals[ins.index(n)] for n in names]
        if c['how'] == 'dict':
            opt[kw + '_dict'] = dict(zip(names, ws))
        else:
            opt['in_names'] = names[0] if o['str'] else list(names)
            if c['how'] == 'array':
                opt[kw] = O.user(np.array(w, float))
            elif c['how'] == 'scalar':
                opt[kw] = w
            elif c['how'] != 'default':
                opt[kw] = ws
        kk = arr(o['k'], s0) if 'k' in o else (0. if k == 'linear' else 1.)
        if 'k' in o:
            opt['constant' if k == 'linear' else 'coeff'] = kk
        if k == 'linear':
            ref = lambda *x: kk + np.zeros(s0) + sum(np.asarray(a) * x[ins.index(n)] for a, n in zip(ws, names))
        else:
            def ref(*x):
                r = kk + np.zeros(s0)
                for a, n in zip(ws, names):
                    r = r * O.cpow(x[ins.index(n)], a)
                return r
        path = 'linearcombination_comp.LinearCombinationComp' if k == 'linear' else \
            'arithmetic_comps.power_combination_comp.PowerCombinationComp'
    elif k == 'linpow':
        opt['shape'] = s0
        terms = [(arr(a, s0), p) for a, p in o['terms']]
        kk = arr(o['k'], s0) if 'k' in o else 0.
        if 'k' in o:
            opt['constant'] = kk
        if c['how'] == 'terms':
            opt['terms_list'] = terms
        else:
            opt['in_names'] = list(ins)
            opt['powers'] = O.user(np.array([[p.get(n, 0.) for n in ins] for _, p in terms]))
            opt['coeffs'] = [a for a, _ in terms]
            if c['how'] == 'arrays':
                opt['coeffs'] = O.user(np.array(opt['coeffs']))

        def ref(*x):
            r = kk + np.zeros(s0)
            for a, p in terms:
                t = np.asarray(a) * np.ones(s0)
                for n, e in p.items():
                    t = t * O.cpow(x[ins.index(n)], e)
                r = r + t
            return r
        path = 'linearpowercombination.LinearPowerCombinationComp'
    elif k == 'unary':
        opt.update(single, shape=s0)
        ref = O.NP_UN[o['f']]
        path = UNARY[o['f']]
    elif k in ('sum1', 'avg1', 'sumn', 'avgn'):
        f = np.sum if k[:3] == 'sum' else np.mean
        opt['shape'] = s0
        if axes:
            opt['axes'] = axes
            outshape(without(s0, axes) or [1])
        if k[-1] == '1':
            opt.update(single)
            ref = lambda x: O.as1(f(x, axis=axes))
        else:
            opt.update(in_names=list(ins), vals=list(vals))
            red = lambda x: O.as1(f(x, axis=axes)) if axes else x
            ref = lambda *x: sum(red(a) for a in x) / (1 if k[:3] == 'sum' else len(x))
        path = {'sum1': 'single_tensor_sum_comp.SingleTensorSumComp', 'sumn': 'multiple_tensor_sum_comp.MultipleTensorSumComp',
                'avg1': 'single_tensor_average_comp.SingleTensorAverageComp',
                'avgn': 'multiple_tensor_average_comp.MultipleTensorAverageComp'}[k]
    elif k in ('pnorm', 'pnormax'):
        opt.update(single, shape=s0)
        n = o.get('n', 2)
        if 'n' in o:
            opt['pnorm_type'] = n
        if axes:
            opt['axis'] = axes
            outshape(without(s0, axes) or [1])
        ref = lambda x: O.as1(np.sum(x**n, axis=axes)**(1. / n))
        path = 'vectorized_axiswise_pnorm_comp.VectorizedAxisWisePnormComp' if axes else 'vectorized_pnorm_comp.VectorizedPnormComp'
    elif k in ('scalarext', 'axisext', 'elemext'):
        opt['shape'] = s0
        rho = o['rho'] or 50.
        if o['rho']:
            opt['rho'] = rho
        sg = -1 if o['lower'] else 1
        if k == 'elemext':
            opt.update(in_names=list(ins), vals=list(vals))
            ref = lambda *x: sg * O.ks_max(sg * np.stack(x), rho, 0)
            path = 'elementwise_min_comp.ElementwiseMinComp' if o['lower'] else 'elementwise_max_comp.ElementwiseMaxComp'
        else:
            opt.update(single)
            if k == 'scalarext':
                if o['lower'] is not None:
                    opt['lower_flag'] = o['lower']
                ref = lambda x: O.as1(sg * O.ks_max(sg * x.reshape(-1), rho, 0))
                path = 'scalar_extremum_comp.ScalarExtremumComp'
            else:
                opt['axis'] = o['axis']
                ref = lambda x: sg * O.ks_max(sg * x, rho, o['axis'])
                path = 'axiswise_min_comp.AxisMinComp' if o['lower'] else 'axiswise_max_comp.AxisMaxComp'
    elif k in ('matmat', 'matvec'):
        opt.update(several, in_shapes=list(shapes))
        ref = lambda a, b: a @ b
        if k == 'matmat':
            if o['os']:
                opt['out_shape'] = (shapes[0][0], shapes[1][1])
            elif shapes[1][1] == 1:
                ref = lambda a, b: (a @ b).reshape(-1)
        path = 'matmat_comp.MatMatComp' if k == 'matmat' else 'matvec_comp.MatVecComp'
    elif k == 'vinner':
        opt.update(several, in_shape=s0[0])
        ref = lambda a, b: O.as1(np.sum(a * b))
        path = 'vector_inner_product_comp.VectorInnerProductComp'
    elif k == 'vouter':
        opt.update(several, in_shapes=[s[0] for s in shapes])
        ref = np.multiply.outer
        path = 'vector_outer_product_comp.VectorOuterProductComp'
    elif k == 'tinner':
        opt.update(several, in_shapes=list(shapes), axes=(tuple(o['axes'][0]), tuple(o['axes'][1])))
        outshape(without(shapes[0], o['axes'][0]) + without(shapes[1], o['axes'][1]) or [1])
        ref = lambda a, b: O.as1(np.tensordot(a, b, axes=o['axes']))
        path = 'tensor_inner_product_comp.TensorInnerProductComp'
    elif k == 'touter':
        opt.update(several, in_shapes=list(shapes))
        ref = np.multiply.outer
        path = 'tensor_outer_product_comp.TensorOuterProductComp'
    elif k == 'tdot':
        opt.update(several, in_shape=s0, axis=o['axis'])
        outshape(without(s0, [o['axis']]))
        ref = lambda a, b: np.sum(a * b, axis=o['axis'])
        path = 'tensor_dot_product_comp.TensorDotProductComp'
    elif k == 'cross':
        opt.update(shape=s0, axis=o['axis'], in1_name='x0', in2_name='x1', in1_val=vals[0], in2_val=vals[1])
        ref = lambda a, b: np.cross(a, b, axis=o['axis'])
        path = 'cross_product_comp.CrossProductComp'
    elif k == 'einsum':
        opt.update(several, in_shapes=list(shapes), operation=o['sub'])
        if o['str']:
            opt.update(in_names='x0', in_shapes=s0)
        if o['os']:
            opt['out_shape'] = O.as1(np.einsum(o['sub'], *vals)).shape
        ref = lambda *x: O.as1(np.einsum(o['sub'], *x))
        path = 'einsum_comp_dense_derivs.EinsumComp' if o['fmt'] == 'dense' else 'einsum_comp_sparse_derivs.SparsePartialEinsumComp'
    elif k == 'reshape':
        opt.update(single, shape=s0, new_shape=tuple(o['to']))
        ref = lambda x: x.reshape(o['to'])
        path = 'reshape_comp.ReshapeComp'
    elif k == 'transpose':
        opt.update(single, in_shape=s0)
        outshape(s0[::-1])
        ref = np.transpose
        path = 'transpose_comp.TransposeComp'
    elif k == 'reorder':
        opt.update(single, in_shape=s0)
        pm = o['perm']
        letters = 'ijkl'[:len(s0)]
        if c['how'] in ('operation', 'both'):
            opt['operation'] = letters + '->' + ''.join(letters[q] for q in pm)
        else:
            opt['operation'] = ''
        if c['how'] in ('locations', 'both'):
            opt['new_axes_locations'] = list(pm)
        outshape(s0[q] for q in pm)
        ref = lambda x: np.transpose(x, pm)
        path = 'reorder_axes_comp.ReorderAxesComp'
    elif k == 'expand':
        opt.update(single, shape=tuple(o['shape']), expand_indices=list(o['new']))
        ref = lambda x: np.broadcast_to(np.expand_dims(x, tuple(o['new'])), o['shape']) + 0
        path = 'array_expansion_comp.ArrayExpansionComp'
    elif k == 'scalarexpand':
        opt.update(single, shape=tuple(o['shape']))
        ref = lambda x: np.ones(o['shape']) * x.reshape(())
        path = 'scalar_expansion_comp.ScalarExpansionComp'
    else:
        opt.update(single, shape=s0, axis=o['axis'])
        ref = lambda x: O.rot(x, o['axis'])
        path = 'rotation_matrix_comp.RotationMatrixComp'
    return path, opt, ins, ref


def jac(ref, xs):
    out = []
    for q, x in enumerate(xs):
        cols = []
        for e in range(x.size):
            p = [a.astype(complex) for a in xs]
            p[q].reshape(-1)[e] += 1e-30j
            cols.append(np.imag(np.asarray(ref(*p)).reshape(-1)) / 1e-30)
        out.append(np.array(cols).T)
    return out


def check_case(case):
    import openmdao.api as om
    path, opt, ins, ref = spec(case)
    where = path.rsplit('.', 1)[1] + ': '
    with Hn.real(where + 'building the component'):
        comp = comp_class(path)(**opt)
        prob = om.Problem()
        prob.model.add_subsystem('comp', comp, promotes=['*'])
        prob.setup(mode=case['mode'])
        if case['twice']:
            prob.final_setup()
            prob.setup(mode=case['mode'])
        prob.final_setup()
    for point in range(2):
        xs = [np.asarray(v[point], float).reshape(s) for s, v in case['ins']]
        with Hn.real(where + 'running'):
            if point or case['kind'] == 'linpow':    # has no option for initial values
                for n, x in zip(ins, xs):
                    prob.set_val(n, x)
            prob.run_model()
        d = P.mismatch('value of output', omrun.get(prob, 'y'), np.real(ref(*xs)))
        if d:
            Hn.fail(where + 'point %d: ' % (point + 1) + d)
        with Hn.real(where + 'computing derivatives'):
            got = omrun.totals(prob, ['y'], ins)
        for n, w in zip(ins, jac(ref, xs)):
            d = P.mismatch('derivative with respect to ' + n, np.asarray(got['y', n]), w, rtol=1e-6, atol=1e-8)
            if d:
                Hn.fail(where + 'point %d: ' % (point + 1) + d)
    d = O.check_user_arrays()
    if d:
        Hn.fail(where + d)


def classify(case):
    r = {'kind:' + case['kind']}
    if 'how' in case:
        r.add('how:' + case['how'])
    if case['kind'] == 'unary':
        r.add('unary:' + case['o']['f'])
    return r


def nontrivial(case):
    return any(int(np.prod(s)) > 1 for s, _ in case['ins']) or 'shape' in case['o']
