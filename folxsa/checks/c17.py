"""Batched vmap: the public batched_vmap is evaluated on an opaque mapped function with symbolic arguments for a table of argument arrangements and
(number of elements, batch size) pairs; the result is compared, position by position, with the model of a plain vmap, and the number of elements handed
to the function per step is compared with the batch size."""
from .. import batch
RULE = 'every element of the result is the function of the same element of the mapped arguments; at most batch-size elements per call'
ASSUMPTIONS = ['library models (folxsa/m_*.py) describe numpy/jax correctly, in particular jax.vmap, jax.lax.map and jax.lax.scan',
               'numbers of elements and batch sizes are sampled over divisible, indivisible, smaller and larger pairs; contents and the remaining sizes are symbolic']


def units(project):
    return list(batch.units())


def run_unit(project, uid):
    return batch.run(project, uid)
