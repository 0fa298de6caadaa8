"""Failures and fallbacks.  (1) programs in which a rule, a primitive, or only the eager evaluation of a primitive fails: the exception must reach the caller,
or the same operation must be executed again on the same operands with the same parameters; (2) unsupported loops must raise;
(3) every rule with an internal exception handler: on the paths through the handler the result must still be the derivative of the operation."""
from . import progbase as B, rulebase as R
from .. import scen
RULE = 'an exception reaches the caller unless the same operation is evaluated again on the same operands; results on handler paths satisfy the calculus'
ASSUMPTIONS = B.ASSUMPTIONS + R.ASSUMPTIONS
HANDLED = ('broadcast_in_dim[s]', 'concatenate[s,s]', 'concatenate[c,s]', 'concatenate[s,c]', 'gather[', 'dynamic_slice[', 'scatter', 'reshape[s]', 'rev[s]', 'slice[s]', 'squeeze[s]', 'transpose[s]',
           'dot_general[s,s]mm', 'dot_general[s,d]mv', 'dot_general[c,s]vm', 'dot_general[s,s]bmm')
PARTS = {'swallowed', 'raise', 'output', 'operands', 'params', 'order', 'rule', 'fallback'}


def units(project):
    return list(B.table('failures')) + [u for u, s in B.table('loops').items() if s.expect] + [u for u in R.configs() if u.startswith(HANDLED)]


def run_unit(project, uid):
    if uid in B.table('failures'):
        return B.run(project, 'failures', uid, PARTS)
    if uid in B.table('loops'):
        return B.run(project, 'loops', uid, PARTS)
    out = R.evaluate(project, uid, {'value', 'jac', 'mask', 'lap1', 'lap2', 'lap', 'struct', 'raise', 'shape'})
    if not uid.startswith(('gather[', 'dynamic_slice[', 'scatter')):
        out.bad = [i for i in out.bad if any(not isinstance(c, str) and c[0][0] == 'raises' and c[1] for c in i.cond)]
    return out
