"""Life time of values.  At every evaluation of an equation of an abstract program, the mappings from variables to values held by the analysed interpreter
are inspected: no intermediate value whose last use lies before that equation may be held, every operand must be readable (no KeyError), outputs must be there at the end."""
from . import progbase as B
RULE = 'a value held while an equation is evaluated is still used by it or later, or is a program input, constant or output; every use finds its value'
ASSUMPTIONS = B.ASSUMPTIONS
PARTS = {'live', 'raise', 'output', 'operands'}


def units(project):
    return list(B.table('order'))


def run_unit(project, uid):
    return B.run(project, 'order', uid, PARTS)
