"""Caller-owned data.  Every array handed in (values, Jacobians, index patterns, Laplacians, constants), every container of the caller (lists, dictionaries,
parameter mappings, the equations of a traced program) and every result that other equations may still read carries its owner; views keep the owner, copies and
results of array functions do not.  All in-place updates on the analysed paths - item and augmented assignment, mutating methods, NumPy functions with an
output argument, attribute stores - are checked to act on storage without an owner."""
from . import progbase as B, rulebase as R
from .. import scen, own, mem, auto, batch, elem, rules, trees, views
RULE = 'no in-place update acts on storage that the caller, another result or the traced program owns'
ASSUMPTIONS = B.ASSUMPTIONS + ['NumPy functions return views or copies as documented (folxsa/own.py); JAX arrays are immutable']
_u = {}


def table():
    if _u:
        return _u
    for u in R.configs():
        _u['rule: ' + u] = ('rule', u)
    for t in ('order', 'loops', 'failures', 'conventions', 'thresholds'):
        us = list(B.table(t))
        for u in us[::2] if t == 'failures' else us:
            _u[f'{t}: ' + u] = ('scen', t, u)
    for u in B.table('generic'):
        _u['own rule: ' + u] = ('generic', u)
    for u in B.table('seeds'):
        _u['seed: ' + u] = ('seed', u)
    for m, nm, step in ((mem, 'memory', 5), (batch, 'batching', 1), (trees, 'trees', 1), (elem, 'derivatives', 3), (views, 'views', 1)):
        us = list(m.units())
        for u in us[::step]:
            _u[f'{nm}: {u}'] = (m, u)
    for u, c in auto.cases().items():
        if c[0] != 'size':
            _u['automatic batching: ' + u] = ('auto', u)
    return _u


def units(project):
    return list(table())


def run_unit(project, uid):
    k, *a = table()[uid]
    if k == 'rule':
        return own.watched(lambda: rules.run(project, R.configs()[a[0]])[0])
    if k == 'scen':
        return own.watched(lambda: scen.run(project, B.table(a[0])[a[1]], set()))
    if k == 'generic':
        return own.watched(lambda: scen.run_generic(project, B.table('generic')[a[0]], {'raise'}))
    if k == 'seed':
        return own.watched(lambda: scen.run_seed(project, B.table('seeds')[a[0]]))
    if k == 'auto':
        def f():
            from ..oracle import Outcome
            out = Outcome()
            out.reach = set()
            auto.one(project, a[0], auto.cases()[a[0]], out)
            return out
        return own.watched(f)
    return own.watched(k.run, project, a[0])
