"""Result dtype.  Operand dtypes are symbolic; dtype promotion is propagated through every analysed path and value, Jacobian data and Laplacian of
each result must carry the dtype of the operation's own result."""
from . import rulebase as B, viewbase as V
RULE = 'dtype(J) = dtype(L) = dtype(value) = dtype(f(x))'
ASSUMPTIONS = B.ASSUMPTIONS


def units(project):
    return V.units() + list(B.configs())


def run_unit(project, uid):
    return (B if uid in B.configs() else V).evaluate(project, uid, {'dtype'})
