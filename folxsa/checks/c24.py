"""Calling convention.  The user function is a stand-in that records how it is called; programs with nested arguments, nested results, keyword arrays and
options, differentiated and plain arguments, jitted or not, are evaluated and the results compared position by position with the function."""
from . import progbase as B
RULE = 'the function receives positional and keyword arguments as given; the result has its tree structure, with its outputs in order'
ASSUMPTIONS = B.ASSUMPTIONS
PARTS = {'call', 'tree', 'output', 'raise', 'operands', 'rule'}


def units(project):
    return list(B.table('conventions'))


def run_unit(project, uid):
    return B.run(project, 'conventions', uid, PARTS)
