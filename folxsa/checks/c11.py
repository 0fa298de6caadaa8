"""Interpreter.  (1) Abstract programs (chains, re-use, several results, dropped results, literals, constants, nested and named calls, inner functions, loops,
mixed operands) are evaluated by the public transformation.  Recording stand-ins for rules and primitives yield terms; order of evaluation, rule or primitive,
operands, parameters and outputs are compared with a direct reading of the program.  (2) Functions with a derivative rule of their own and operations
without a registered rule are evaluated by the real generic rule; the result is compared with the derivatives of the operation."""
from . import progbase as B, rulebase as R
from .. import scen
RULE = 'each equation once, in program order, by its rule iff an operand is differentiated, on its own operands and parameters; results bound to their variables'
ASSUMPTIONS = B.ASSUMPTIONS + R.ASSUMPTIONS
PARTS = {'operands', 'params', 'output', 'order', 'rule', 'fallback', 'raise', 'loop'}


def units(project):
    return list(B.table('order')) + list(B.table('generic')) + [u for u, s in B.table('loops').items() if not s.expect]


def run_unit(project, uid):
    if uid in B.table('generic'):
        return scen.run_generic(project, B.table('generic')[uid], {'value', 'jac', 'mask', 'lap1', 'lap2', 'lap', 'struct', 'raise', 'operands', 'shape'})
    return B.run(project, 'loops' if uid in B.table('loops') else 'order', uid, PARTS)
