from vp import families
from vp import ops as O

ID = 'C13'
RULE = ('a case is a generated program around rotation matrices about each axis; non-trivial: it contains one')
families.install(globals(), O.GROUPS['rotmat'], 14000, 120000)
