"""Complex-aware AD helpers: vjp, vjp_rc, jacrev, jacfwd and hessian are evaluated on opaque functions of small arrays whose entries are symbols
(real to real, real to complex, holomorphic; one to three arguments, several shapes); every entry of the returned cotangents, Jacobians and second
derivatives is compared with the partial derivative that belongs there."""
from .. import elem
RULE = 'entry (o, i) of a Jacobian is the plain complex derivative of output entry o by input entry i (hessian: second derivative); rows and columns in row-major order, one array per argument'
ASSUMPTIONS = ['library models (folxsa/m_*.py) describe jax.jvp/vjp/vmap/ravel_pytree correctly (jax.vjp transposes with respect to Re(a*b): a real argument receives the real part)',
               'arrays of at most four entries and three arguments stand for all shapes; the functions are arbitrary (opaque partial derivatives)']


def units(project):
    return list(elem.ad_units())


def run_unit(project, uid):
    return elem.ad_run(project, uid)
