from vp import families
from vp import ops as O

ID = 'C07'
RULE = ('a case is a generated program around sum, average and p-norm over all or some axes of one or several '
        'arrays; non-trivial: it contains one of them')
families.install(globals(), O.GROUPS['reduce'], 14000, 120000)
