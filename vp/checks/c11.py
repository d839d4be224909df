from vp import families
from vp import ops as O

ID = 'C11'
RULE = ('a case is a generated program around smooth maxima and minima (whole array, along an axis, between '
        'arrays; default and given aggregation factor); non-trivial: it contains one')
families.install(globals(), O.GROUPS['extremum'], 14000, 80000)
