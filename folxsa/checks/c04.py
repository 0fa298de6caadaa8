"""Second-order term.  As C03, comparing the terms of the Laplacian that are quadratic in the Jacobians with
sum_ij d2f/dx_i dx_j J_i.J_j under every strategy the rule can select (every alternative of every data-dependent branch)."""
from . import rulebase as B
RULE = 'second-order Laplacian = sum_ij f_ij J_i . J_j, for every operation x operand mix x strategy'
ASSUMPTIONS = B.ASSUMPTIONS
PARTS = {'lap2', 'lap'}
SKIP = ('abs[s:complex]C', 'abs[d:complex]C', 'div[')        # closed forms: C05


def units(project):
    return [u for u in B.configs() if not u.startswith(SKIP)]


def run_unit(project, uid):
    return B.evaluate(project, uid, PARTS)
