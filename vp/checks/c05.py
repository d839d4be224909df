from vp import families
from vp import ops as O

ID = 'C05'
RULE = ('a case is a generated program around arithmetic between expressions and constants (numbers, arrays, '
        'either side), two input points, values and derivatives compared; non-trivial: it contains such an '
        'operation')
families.install(globals(), O.GROUPS['arith'], 14000, 80000)
