"""Shared by the properties decided on the registered rules: evaluate the rule of every operation in every operand mix."""
from .. import rules, facts
from ..oracle import Outcome, Issue

ASSUMPTIONS = [
    'library models (folxsa/m_*.py) describe numpy/jax operations correctly',
    'array sizes are generic: at least 2 and distinct unless equal by construction',
    'ties, branch points and poles of the operations are excluded (derivatives almost everywhere)',
]
_cfgs = {}


def configs():
    if not _cfgs:
        for c in rules.configs():
            assert c.id not in _cfgs, c.id
            _cfgs[c.id] = c
    return _cfgs


def evaluate(project, uid, parts, extra=None):
    """Outcome restricted to the given parts."""
    rec = facts.Recorder()
    out, W = rules.run(project, configs()[uid], rec=rec)
    res = restrict(out, parts)
    res.reach = set(W.I.reach)
    if extra:
        extra(W, rec, configs()[uid], res)
    return res


def restrict(out, parts):
    res = Outcome()
    res.n = out.n
    res.bad = [i for i in out.bad if i.part in parts]
    res.und = [i for i in out.und if i.part in parts or i.part in ('unknown', 'raise', 'struct', 'ref')]
    res.ok = out.n if not res.bad and not res.und else min(out.ok, out.n - 1)
    return res
