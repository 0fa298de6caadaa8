"""Trace-time patterns.  Every value of the analysed program carries the stage it is known at (numpy, traced, or evaluated at trace time);
rules are evaluated with all differentiated operands traced.  A sparse result must carry an index pattern known at trace time, no code path may
need a traced value concretely, and with traced indices the (dense) result must still be the derivative of the operation."""
from . import rulebase as B
RULE = 'index patterns are numpy values; traced values are never needed concretely; traced indices give dense, correct derivatives'
ASSUMPTIONS = B.ASSUMPTIONS
INDEXED = ('gather[', 'scatter', 'dynamic_slice[')


def units(project):
    return list(B.configs())


def run_unit(project, uid):
    parts = {'trace', 'stage'}
    if uid.startswith(INDEXED):
        parts |= {'jac', 'lap1', 'struct', 'raise', 'value', 'mask'}
    return B.evaluate(project, uid, parts)
