"""Contractions.  The rule of dot_general is evaluated for 23 arrangements of batch, contracted and free dimensions (none, one, two of each,
crossed orders) and all operand mixes, on every branch including the multiply-and-sum short-cuts (whose traced program is reconstructed and
interpreted): shape, value, Jacobian and Laplacian are compared with the XLA definition of dot_general, axis by axis."""
from . import rulebase as B
RULE = 'axes(result) = batch, free(lhs), free(rhs); result and derivatives contract exactly the paired dimensions on every branch'
ASSUMPTIONS = B.ASSUMPTIONS


def units(project):
    return [u for u in B.configs() if u.startswith('dot_general[')]


def run_unit(project, uid):
    return B.evaluate(project, uid, {'value', 'jac', 'lap', 'lap1', 'lap2', 'mask', 'struct', 'raise'})
