"""Laplacian operators: each operator is evaluated on an opaque scalar function of a small array whose entries are symbols; the returned pair is compared
with the trace of the matrix of second partial derivatives and the list of first ones.  The forward operator is evaluated on a stand-in for the transformation
(dense small arrays; dense and sparse symbolic Jacobians of every input shape)."""
from .. import elem
RULE = 'pair of scalar trace of second derivatives and flat row-major gradient of x.size entries; the function receives x in its own shape; the threshold is passed on'
ASSUMPTIONS = ['library models (folxsa/m_*.py) describe jax.grad/linearize/vmap/scan correctly; short loops of known length are followed step by step',
               'arrays of at most four entries stand for all shapes; the function is arbitrary (opaque partial derivatives)',
               'the forward transformation itself is decided by C03-C13']


def units(project):
    return list(elem.op_units())


def run_unit(project, uid):
    return elem.op_run(project, uid)
