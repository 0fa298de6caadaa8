"""Dropped derivatives.  Every registry entry that strips derivatives must belong to an operation whose derivative is identically zero,
and in every operand mix the rule of any other operation must return value, Jacobian and Laplacian (including dtype conversion)."""
from . import rulebase as B
from .. import facts
from ..oracle import Outcome
from ..world import World
RULE = 'a result without Jacobian and Laplacian is returned only if the derivative of the operation is identically zero'
ASSUMPTIONS = B.ASSUMPTIONS


def units(project):
    return ['registry'] + list(B.configs())


def run_unit(project, uid):
    if uid == 'registry':
        rec = facts.Recorder()
        W = World(project, hooks=rec.hooks())
        a, b = Outcome(), Outcome()
        facts.check_registry(W, rec, a, b)
        a.reach = set(W.I.reach)
        return a
    return B.evaluate(project, uid, {'struct'})
