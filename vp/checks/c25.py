"""Names generated for unnamed expressions."""
import re

import numpy as np
from hypothesis import strategies as st

from vp import harness as Hn
from vp import omrun
from vp import prog as P

ID = 'C25'
EXAMPLES = {'quick': 18000, 'thorough': 200000}
RULE = ('a case is either a set of numbers of expressions, whose generated names are compared (direct), or a group with several '
        'unnamed expressions, made in a process that has already created a generated number of expressions (model); '
        'non-trivial: at least two names are compared')
ASSUMPTIONS = ['fewer than 63**4 expressions are created in one process, the capacity of the naming scheme']
LIMIT = 63**4


class D(P.Draw):
    def number(self):
        t = self.i(0, 5)
        if t == 0:
            n = 63**self.i(1, 3) * self.i(1, 62) + self.i(-3, 3)
        elif t == 1:
            n = self.i(0, 300)
        elif t == 2:
            n = sum(self.c([0, 0, 1, 9, 10, 35, 36, 61, 62]) * 63**k for k in range(4))
        elif t == 3:
            n = 2**self.i(0, 23) + self.i(-1, 1)
        else:
            n = self.i(0, LIMIT - 1)
        return min(max(n, 0), LIMIT - 1)


@st.composite
def cases(draw):
    d = D(draw)
    if d.c([True, False, False]):
        return {'kind': 'model', 'skip': d.number(), 'ops': [[d.c(['sin', 'add', 'mul', 'cos', 'addc']), d.i(0, 40), d.i(0, 40)]
                                                            for _ in range(d.i(2, 12))],
                'groups': d.i(1, 2)}
    return {'kind': 'direct', 'ns': [d.number() for _ in range(d.i(1, 12))], 'run': d.i(1, 200)}


def strategy(tier):
    return cases()


VALID = re.compile('^_[A-Za-z0-9_]+$')


def valid(n):
    if not isinstance(n, str) or not VALID.match(n):
        Hn.fail('generated name %r is not a valid name that begins with an underscore' % (n,))


def direct(case):
    try:
        from omtools.utils.gen_hex_name import gen_hex_name
    except ImportError:
        return
    ns = set()
    for n in case['ns']:
        ns.update((n, min(n + 1, LIMIT - 1), max(n - 63, 0), max(n - 63**2, 0), min(n + 63**3, LIMIT - 1)))
    ns.update(range(case['ns'][0], min(case['ns'][0] + case['run'], LIMIT)))
    seen = {}
    for n in sorted(ns):
        with Hn.real('generating name number %d' % n):
            s = gen_hex_name(n)
            again = gen_hex_name(n)
        valid(s)
        if s != again:
            Hn.fail('name number %d is first %r and then %r' % (n, s, again))
        if s in seen:
            Hn.fail('expressions number %d and %d have the same name %r' % (seen[s], n, s))
        seen[s] = n


def model(case):
    from omtools.core.variable import Variable
    c = Variable.__dict__.get('_count')
    if not isinstance(c, int):
        return in_model(case)
    # as though that many expressions had been created before
    Variable._count = min(case['skip'], LIMIT - 1000)
    try:
        in_model(case)
    finally:
        Variable._count = c


def in_model(case):
    import omtools.api as ot
    parts = []
    with Hn.real('building a valid model'):
        groups = [ot.Group() for _ in range(case['groups'])]
        for q, g in enumerate(groups):
            x = g.declare_input('x%d' % q, shape=(2,), val=np.array([0.25, 0.5]) + q)
            es, vs = [x], [np.array([0.25, 0.5]) + q]
            for op, a, b in case['ops']:
                a, b = a % len(es), b % len(es)
                if op == 'sin':
                    e, v = ot.sin(es[a]), np.sin(vs[a])
                elif op == 'cos':
                    e, v = ot.cos(es[a]), np.cos(vs[a])
                elif op == 'addc':
                    e, v = es[a] + (b + 1.), vs[a] + (b + 1.)
                elif op == 'add':
                    e, v = es[a] + es[b], vs[a] + vs[b]
                else:
                    e, v = es[a] * es[b] * 0.5, vs[a] * vs[b] * 0.5
                es.append(e)
                vs.append(v)
            tot = es[1]
            for e in es[2:]:
                tot = tot + e
            g.register_output('y%d' % q, tot)
            parts.append((es[1:], vs[1:]))
    names = [e.name for es, _ in parts for e in es]
    for n in names:
        valid(n)
    if len(set(names)) != len(names):
        Hn.fail('names of expressions are not distinct: %s' % names)
    for q, g in enumerate(groups):
        with Hn.real('running'):
            prob = omrun.new_problem(g)
            prob.run_model()
        es, vs = parts[q]
        for e, v in zip(es, vs):
            with Hn.real('reading %s' % e.name):
                got = omrun.get(prob, e.name)
            d = P.mismatch('value of expression ' + e.name, got, v)
            if d:
                Hn.fail(d)
        d = P.mismatch('value of y%d' % q, omrun.get(prob, 'y%d' % q), sum(vs))
        if d:
            Hn.fail(d)


def check_case(case):
    direct(case) if case['kind'] == 'direct' else model(case)


def classify(case):
    r = {'kind:' + case['kind']}
    for n in case.get('ns', []) + [case.get('skip', 0)]:
        r.add('digits:%d' % (1 + sum(n >= 63**k for k in (1, 2, 3))))
    return r


def nontrivial(case):
    return case['kind'] == 'model' or len(case['ns']) > 1 or case['run'] > 1
