"""Closed-form rules (division, complex modulus, log-determinant) against the derivatives of the function they stand for."""
from . import rulebase as B
RULE = 'closed-form Jacobian/Laplacian = derivative of the operation, per operand mix'
ASSUMPTIONS = B.ASSUMPTIONS
PARTS = {'value', 'jac', 'lap1', 'lap2', 'lap', 'raise', 'struct', 'mask'}
OPS = ('abs[', 'div[', ':slogdet')


def units(project):
    return [u for u in B.configs() if u.startswith(OPS)]


def run_unit(project, uid):
    return B.evaluate(project, uid, PARTS)
