"""Loops: abstract programs with scans evaluated by the interpreter of traced programs; the loop primitive is a model that follows the body once on traced values.
Recorded are the operands of every body equation, length/direction/unrolling of the loop, and the arrangement and index patterns of its results."""
from . import progbase as B
RULE = 'body equations receive constants, carry and step in their own places; length, direction and unrolling are passed on; stacked results have the loop axis first (value, Laplacian) / second (Jacobian, pattern); changed carry types or patterns and loops over differentiated values raise'
ASSUMPTIONS = B.ASSUMPTIONS + ['jax.lax.scan calls its body with traced leaves in the structure of the initial carry, requires the same structure back, and stacks per-step results along a new leading axis']


def units(project):
    return list(B.table('loops'))


def run_unit(project, uid):
    return B.run(project, 'loops', uid, {'operands', 'params', 'output', 'order', 'rule', 'raise', 'loop', 'layout', 'mask', 'stage', 'swallowed', 'fallback'})
