"""Initial derivatives.  The public transformation is evaluated on programs that return their inputs; the value, the Jacobian (symbolic identity:
which flat input position every axis ranges over), its index pattern, the weights and the Laplacian of each result are compared with the weighted identity.
Arguments that already carry derivatives have to come back unchanged."""
from . import progbase as B
from .. import scen
RULE = 'seed of entry i: value unchanged, Jacobian = weight * unit vector of flat position i (dense or stored), Laplacian 0; existing derivatives are kept'
ASSUMPTIONS = B.ASSUMPTIONS
KEEP = ('input is output', 'nothing to do', 'constants and inputs')


def units(project):
    return list(B.table('seeds')) + [u for u in B.table('order') if u.rsplit(' [', 1)[0] in KEEP]


def run_unit(project, uid):
    if uid in B.table('seeds'):
        return scen.run_seed(project, B.table('seeds')[uid])[0]
    return B.run(project, 'order', uid, {'output', 'raise'})
