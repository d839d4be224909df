from vp import families
from vp import ops as O

ID = 'C09'
RULE = ('a case is a generated program around Einstein summations (both interfaces, dense and sparse '
        'partials, repeated operands, scalar outputs); non-trivial: it contains one')
families.install(globals(), O.GROUPS['einsum'], 14000, 120000)
