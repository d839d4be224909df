from vp import families
from vp import ops as O

ID = 'C10'
RULE = ('a case is a generated program around reshape, transpose, reordering of axes and expansion; '
        'non-trivial: it contains one of them')
families.install(globals(), O.GROUPS['shape'], 14000, 120000)
