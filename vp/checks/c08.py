from vp import families
from vp import ops as O

ID = 'C08'
RULE = ('a case is a generated program around dot, cross, inner, outer, matrix-matrix and matrix-vector '
        'products; non-trivial: it contains one of them')
families.install(globals(), O.GROUPS['product'], 14000, 120000)
