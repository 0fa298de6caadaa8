"""Component-wise views.  real, imag, conj, dtype conversion and the operations registered as plain liftings: value, Jacobian data and Laplacian
of the result must be the same component-wise operation of value, Jacobian data and Laplacian of the operand, with its index pattern."""
from . import rulebase as B, viewbase as V
RULE = 'view(x, J, L) = (view x, view J, view L) with unchanged index pattern'
ASSUMPTIONS = B.ASSUMPTIONS
OPS = ('real[', 'imag[', 'conj[', 'convert_element_type[')


def units(project):
    return V.units('view ') + [u for u in B.configs() if u.startswith(OPS)]


def run_unit(project, uid):
    return (B if uid in B.configs() else V).evaluate(project, uid, {'value', 'jac', 'lap1', 'lap', 'lap2', 'mask', 'struct', 'raise'})
