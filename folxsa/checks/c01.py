"""Declarations.  Every declaration made through the public wrapping functions (recorded while the package is loaded and while rules run)
is compared with facts about the operation: its second derivatives are computed from the library model and must vanish where
linearity is declared; elementwise / selection / summation / product / index-operand claims are checked against the operation;
the value a rule returns must be that of the operation it is registered for."""
from . import rulebase as B
from .. import facts, rules
from ..oracle import Outcome
from ..world import World
RULE = 'declared structure is true of the operation; the rule evaluates the operation of its registry key'
ASSUMPTIONS = B.ASSUMPTIONS


def units(project):
    return ['registry'] + list(B.configs())


def run_unit(project, uid):
    if uid == 'registry':
        rec = facts.Recorder()
        W = World(project, hooks=rec.hooks())
        a, b = Outcome(), Outcome()
        facts.check_registry(W, rec, a, b)
        b.reach = set(W.I.reach)
        return b

    def extra(W, rec, cfg, out):
        rule = getattr(W, 'used_rule', None)
        if rule is None:
            return
        hit = rec.find(rule)
        if hit is not None and hit[0] == 'wrap':
            facts.check_declaration(W, hit[1], W.used_args, W.used_params, out)
        elif hit is None:
            # the rule is a function of the repository: declarations it made while it ran (same operands)
            for kind, vals, r in rec.recs[rec.loaded:]:
                if kind == 'wrap' and facts.op_name(vals['fn']) is not None:
                    facts.check_declaration(W, vals, W.used_args, W.used_params, out)
    return B.evaluate(project, uid, {'value'}, extra)
