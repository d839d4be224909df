"""Histories of an options dictionary against a reference model."""
from hypothesis import strategies as st

from vp import harness as Hn
from vp import prog as P

ID = 'C24'
EXAMPLES = {'quick': 52500, 'thorough': 800000}
RULE = ('a case is a history of operations (construct with keyword options, declare, undeclare, set, update, read, test '
        'membership, iterate, print) on two options dictionaries of one class, compared after every operation with a '
        'reference model; non-trivial: at least four operations, one of which is rejected or changes a value')

NAMES = ['a', 'b', 'cc', 'long_option_name', 'e']
VALUES = [0, 1, -1, 2.5, -2.5, 10, 100., 'x', 'y', '', None, True, False, [1, 2], [], (1,), {'k': 1}]
TYPES = {'int': int, 'float': float, 'str': str, 'list': list, 'bool': bool, 'tuple': tuple, 'dict': dict}


def V(i):
    v = VALUES[i]
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


class D(P.Draw):
    def val(self):
        return self.i(0, len(VALUES) - 1)

    def decl(self):
        d = {'name': self.c(NAMES)}
        t = self.c(['none', 'none', 'values', 'types', 'types', 'values', 'both', 'badvalues', 'badtypes'])
        if t in ('values', 'both'):
            d['values'] = [self.val() for _ in range(self.i(1, 4))]
            d['vt'] = self.c(['list', 'tuple'])
        if t in ('types', 'both'):
            d['types'] = [self.c(sorted(TYPES)) for _ in range(self.i(1, 3))]
            if len(d['types']) == 1 and self.b():
                d['types'] = d['types'][0]
        if t in ('badvalues', 'badtypes'):
            d[t] = self.c(['str', 'int'])
        if self.c([True, False, False]):
            d['lower'] = self.c([-1, 0, 1.5])
        if self.c([True, False, False]):
            d['upper'] = self.c([2, 10, 50.])
        if self.c([True, False]):
            d['none'] = self.b()
        if self.c([True, False, False, False]):
            d['check'] = True
        if self.c([True, False]):
            d['desc'] = self.c(['words about it', 'w ' * 40, ''])
        if self.c([True, True, False]):
            # prefer a value that may be valid
            d['default'] = self.c(d['values']) if d.get('values') and self.b() else self.val()
        return d


@st.composite
def cases(draw, big):
    d = D(draw)
    hist = []
    init = [d.decl() for _ in range(d.i(0, 3))]
    case = {'init': init, 'ro': [d.c([False, False, False, True]) for _ in range(2)],
            'kw': [{d.c(NAMES): d.val() for _ in range(d.i(0, 2))} for _ in range(2)]}
    for _ in range(d.i(2, 30 if big else 14)):
        w = d.i(0, 1)
        k = d.c(['declare', 'declare', 'set', 'set', 'set', 'set', 'update', 'undeclare', 'read', 'print', 'snapshot'])
        if k == 'declare':
            hist.append([k, w, d.decl()])
        elif k == 'set':
            hist.append([k, w, d.c(NAMES), d.val()])
        elif k == 'update':
            names = d.perm(NAMES)[:d.i(0, 3)]
            hist.append([k, w, [[n, d.val()] for n in names]])
        elif k in ('undeclare', 'read'):
            hist.append([k, w, d.c(NAMES)])
        else:
            hist.append([k, w])
    case['hist'] = hist
    return case


def strategy(tier):
    return cases(tier != 'quick')


class Rejected(Exception):
    pass


def refuse(name, value):
    if value == 1 or value == 'x':
        raise ValueError('refused')


def kwargs(d):
    k = {}
    if 'values' in d:
        k['values'] = (tuple if d['vt'] == 'tuple' else list)(V(i) for i in d['values'])
    if 'types' in d:
        k['types'] = TYPES[d['types']] if isinstance(d['types'], str) else tuple(TYPES[t] for t in d['types'])
    if 'badvalues' in d:
        k['values'] = 'abc' if d['badvalues'] == 'str' else 3
    if 'badtypes' in d:
        k['types'] = 'int' if d['badtypes'] == 'str' else 3
    for a, b in (('lower', 'lower'), ('upper', 'upper'), ('desc', 'desc'), ('none', 'allow_none')):
        if a in d:
            k[b] = d[a]
    if 'check' in d:
        k['check_valid'] = refuse
    if 'default' in d:
        k['default'] = V(d['default'])
    return k


UNSET = ('unset',)
UNKNOWN = ('unknown',)


class Model:
    def __init__(self, ro):
        self.ro = ro
        self.d = {}     # name -> [keywords of declaration, value]

    def valid(self, k, v):
        if not (v is None and k.get('allow_none')):
            if k.get('values') is not None:
                if not any(v is x or v == x for x in k['values']):
                    return False
            elif k.get('types') is not None:
                t = k['types'] if isinstance(k['types'], tuple) else (k['types'],)
                if not any(isinstance(v, x) for x in t):
                    return False
            for b, s in ((k.get('lower'), -1), (k.get('upper'), 1)):
                if b is not None:
                    if not isinstance(v, (int, float)):
                        return False        # cannot be compared with a bound
                    if s * v > s * b:
                        return False
        if 'check_valid' in k and (v == 1 or v == 'x'):
            return False
        return True

    def declare(self, name, k):
        if isinstance(k.get('values'), (str, int)) or isinstance(k.get('types'), (str, int)):
            raise Rejected()
        if k.get('types') is not None and k.get('values') is not None:
            raise Rejected()
        self.d[name] = [k, UNSET]
        if 'default' in k:
            if not self.valid(k, k['default']):
                # the state of an option whose declaration was rejected is not specified
                self.d[name] = [k, UNKNOWN]
                raise Rejected()
            self.d[name][1] = k['default']

    def set(self, name, v):
        if name not in self.d or self.ro or not self.valid(self.d[name][0], v):
            raise Rejected()
        self.d[name][1] = v

    def get(self, name):
        if name not in self.d or self.d[name][1] is UNSET:
            raise Rejected()
        return self.d[name][1]


def same(a, b):
    return type(a) is type(b) and a == b


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'rejected', '%s: %s' % (type(e).__name__, e)


def both(what, real, model):
    r = attempt(real)
    try:
        m = ('ok', model())
    except Rejected:
        m = ('rejected', None)
    if r[0] != m[0]:
        Hn.fail('%s: %s, expected to be %s' % (what, 'accepted' if r[0] == 'ok' else 'rejected (%s)' % r[1],
                                               'accepted' if m[0] == 'ok' else 'rejected'))
    return r, m


def compare(what, real, m):
    for n in NAMES:
        if (n in real) != (n in m.d):
            Hn.fail('%s: membership of %s is %r' % (what, n, n in real))
        if n in m.d and m.d[n][1] is UNKNOWN:
            continue
        r, w = both('%s: reading %s' % (what, n), lambda: real[n], lambda: m.get(n))
        if w[0] == 'ok' and not same(r[1], w[1]):
            Hn.fail('%s: value of %s is %r, expected %r' % (what, n, r[1], w[1]))
    if sorted(real) != sorted(m.d):
        Hn.fail('%s: options are %s, expected %s' % (what, sorted(real), sorted(m.d)))


def check_case(case):
    import omtools.api as ot
    seen = []

    class Options(ot.OptionsDictionary):
        def initialize(self):
            for d in case['init']:
                self.declare(d['name'], **kwargs(d))

        def pre_setup(self):
            seen.append(sorted(self))

    dicts = []
    for w in range(2):
        kw = {n: V(i) for n, i in case['kw'][w].items()}
        m = Model(case['ro'][w])

        def ref():
            for d in case['init']:
                m.declare(d['name'], kwargs(d))
            for n, v in kw.items():
                m.set(n, v)
        del seen[:]
        r, _ = both('constructing', lambda: Options(case['ro'][w], **kw) if case['ro'][w] else Options(**kw), ref)
        if r[0] == 'ok' and seen != [sorted(m.d)]:
            Hn.fail('pre_setup runs once, after options are set; saw %r' % seen)
        if r[0] == 'rejected':
            m = Model(False)
            with Hn.real('constructing'):
                r = 'ok', ot.OptionsDictionary()
        dicts.append((r[1], m))
    for step, h in enumerate(case['hist']):
        what = 'step %d (%s)' % (step, h[0])
        o, m = dicts[h[1]]
        if h[0] == 'declare':
            k = kwargs(h[2])
            # separate objects for the code under test
            both(what, lambda: o.declare(h[2]['name'], **kwargs(h[2])), lambda: m.declare(h[2]['name'], k))
        elif h[0] == 'set':
            if h[2] in m.d and m.d[h[2]][1] is UNKNOWN:
                continue

            def put():
                o[h[2]] = V(h[3])
            both(what, put, lambda: m.set(h[2], V(h[3])))
        elif h[0] == 'update':
            if any(n in m.d and m.d[n][1] is UNKNOWN for n, _ in h[2]):
                continue
            before = {n: list(e) for n, e in m.d.items()}

            def ref():
                for n, i in h[2]:
                    m.set(n, V(i))
            r, _ = both(what, lambda: o.update({n: V(i) for n, i in h[2]}), ref)
            if r[0] == 'rejected':
                # how far a rejected update gets is not specified, but no invalid value is stored
                m.d = before
                for n, i in h[2]:
                    if n in m.d:
                        g = attempt(lambda: o[n])
                        if g[0] == 'ok' and same(g[1], V(i)) and not m.ro and m.valid(m.d[n][0], V(i)):
                            m.d[n][1] = V(i)
        elif h[0] == 'undeclare':
            with Hn.real(what):
                o.undeclare(h[2])
            m.d.pop(h[2], None)
        elif h[0] == 'read':
            pass
        elif h[0] == 'print':
            with Hn.real(what):
                text = str(o)
                repr(o)
            for n in m.d:
                if n not in text:
                    Hn.fail('%s: option %s is not in the printed table' % (what, n))
        for q in range(2):
            compare('after %s, dictionary %d' % (what, q), *dicts[q])


def classify(case):
    r = {'op:' + h[0] for h in case['hist']}
    if any(case['ro']):
        r.add('read-only')
    return r


def nontrivial(case):
    return len(case['hist']) >= 4 and any(h[0] in ('set', 'update', 'declare') for h in case['hist'])
