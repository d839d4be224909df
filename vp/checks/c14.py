from vp import families
from vp import ops as O

ID = 'C14'
RULE = ('a case is a generated program around reading elements and slices of expressions with one to three '
        'axes; non-trivial: it contains such a read')
families.install(globals(), O.GROUPS['index'], 14000, 120000)
