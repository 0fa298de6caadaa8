"""Chain rule.  Every registered operation is evaluated by abstract interpretation of the repository's sources on abstract operands
(symbolic values, Jacobians, Laplacians and index patterns of symbolic shape); value, Jacobian and the first-order part of the
Laplacian are compared, as polynomials over the operand symbols, with the derivative of the operation itself."""
from . import rulebase as B
RULE = 'value = f(x); Jacobian = sum_i df/dx_i J_i; first-order Laplacian = sum_i df/dx_i L_i, for every operation x operand mix'
ASSUMPTIONS = B.ASSUMPTIONS
PARTS = {'value', 'jac', 'lap1', 'raise', 'lap'}


def units(project):
    return list(B.configs())


def run_unit(project, uid):
    return B.evaluate(project, uid, PARTS)
