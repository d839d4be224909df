from vp import families
from vp import ops as O

ID = 'C12'
RULE = ('a case is a generated program around conditional expressions, whose condition is positive, negative '
        'or exactly zero; non-trivial: it contains one')
families.install(globals(), O.GROUPS['if_else'], 14000, 60000)
