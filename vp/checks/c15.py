from vp import families
from vp import ops as O

ID = 'C15'
RULE = ('a case is a generated program around outputs that are defined whole or assigned block by block, in '
        'any order of blocks; non-trivial: it contains such an output')
families.install(globals(), O.GROUPS['assign'], 14000, 120000)
