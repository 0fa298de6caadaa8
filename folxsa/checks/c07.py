"""Sparse storage.  In every operand mix with sparse Jacobians the index pattern of the result is compared, as a symbolic set term, with the
set of inputs each stored value belongs to: a value must be filed under its own pattern, union, intersection, re-arrangement or dense axis."""
from . import rulebase as B, viewbase as V
RULE = 'pattern(result)[k] names the input stored in data(result)[k]; materialised Jacobian = dense Jacobian'
ASSUMPTIONS = B.ASSUMPTIONS


def units(project):
    return V.units('dense', 'mask', 'jacobian+') + [k for k, c in B.configs().items() if any(o[0] == 's' for o in c.ops)]


def run_unit(project, uid):
    if uid not in B.configs():
        return V.evaluate(project, uid, {'mask', 'jac', 'raise', 'struct', 'value', 'lap'})
    return B.evaluate(project, uid, {'mask', 'jac'})
