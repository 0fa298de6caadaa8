"""Process-wide state.  The stores standing for the loggers (handlers, levels, filters), the standard streams, the warning filters, library configuration, the
tracing mode and the rule registry are read before and after abstract calls of the public functions.  The calls return, raise (a failing rule, primitive,
equation, user function), or take a fallback; in addition every library call made while some of that state is changed is made to fail in turn."""
from . import progbase as B, rulebase as R
from .. import scen, state, mem, auto, batch, elem, rules
RULE = 'every store of process-wide state holds after the call what it held before; register/deregister change exactly the named entry'
ASSUMPTIONS = B.ASSUMPTIONS + ['a library call either has no effect on process-wide state or is one of the modelled ones (logging, sys, warnings, os, random, numpy/jax configuration)',
                               'a failing library call raises at its call site; asynchronous exceptions between two statements are not considered']
_u = {}


def table():
    if _u:
        return _u
    for u in B.table('failures'):
        _u['program: ' + u] = ('scen', 'failures', u)
    for u, s in B.table('loops').items():
        if s.expect or 'fault' in u:
            _u['loop: ' + u] = ('scen', 'loops', u)
    order = list(B.table('order'))
    for u in order[::3]:
        _u['program: ' + u] = ('scen', 'order', u)
    for u in order[1::9]:
        _u['program with faults: ' + u] = ('fscen', 'order', u)
    for u in list(B.table('conventions'))[::4]:
        _u['convention: ' + u] = ('fscen', 'conventions', u)
    for u in list(B.table('thresholds'))[::6]:
        _u['threshold: ' + u] = ('scen', 'thresholds', u)
    seen = set()
    for u, c in R.configs().items():
        sp = '[s' in u
        if (c.prim, sp) in seen:
            continue
        seen.add((c.prim, sp))
        _u[('rule with faults: ' if sp or c.prim.startswith(':') else 'rule: ') + u] = ('rule', u, sp or c.prim.startswith(':'))
    for u in list(B.table('generic')):
        _u['own rule: ' + u] = ('generic', u)
    gs = mem.graphs()
    seen = set()
    for u, (g, salt, big, how) in mem.cases().items():
        if big is None and salt == 1 or how in ('top', 'noises', 'noise+top', 'keyword', 'static first'):
            _u['memory: ' + u] = ('mem', u, None)
        if big is None and (g, how) not in seen and (salt == 0 or how != 'plain'):
            seen.add((g, how))
            for e in sorted({e.name for e in gs[g].eqns if e.kind == 'op'}):
                _u[f'memory: {u}, {e} fails'] = ('mem', u, e)
    for u in list(mem.cases())[:1] + [u for u, c in mem.cases().items() if c[3] in ('top', 'noise')][:2]:
        _u['memory with faults: ' + u] = ('fmem', u)
    for u, c in auto.cases().items():
        if c[0] != 'size':
            _u['automatic batching: ' + u] = ('auto', u)
    for u in [u for u, c in auto.cases().items() if c[0] != 'size'][:4]:
        _u['automatic batching with faults: ' + u] = ('fauto', u)
    for u in list(batch.units())[::40]:
        _u['batching with faults: ' + u] = ('batch', u)
    for u in list(elem.units())[::12]:
        _u['derivatives with faults: ' + u] = ('elem', u)
    for u in state.registry_units():
        _u['registry: ' + u] = ('reg', u)
    return _u


def units(project):
    return list(table())


def run_unit(project, uid):
    k, *a = table()[uid]
    if k in ('scen', 'fscen'):
        f = lambda: scen.run(project, B.table(a[0])[a[1]], set())
        return (state.watched if k == 'scen' else state.faulted)(f)
    if k == 'rule':
        f = lambda: rules.run(project, R.configs()[a[0]])[0]
        return (state.faulted if a[1] else state.watched)(f)
    if k == 'generic':
        return state.faulted(lambda: scen.run_generic(project, B.table('generic')[a[0]], {'raise'}))
    if k == 'mem':
        return state.watched(mem.run, project, a[0], a[1])
    if k == 'fmem':
        return state.faulted(mem.run, project, a[0])
    if k in ('auto', 'fauto'):
        def f():
            from ..oracle import Outcome
            out = Outcome()
            out.reach = set()
            auto.one(project, a[0], auto.cases()[a[0]], out)
            return out
        return (state.watched if k == 'auto' else state.faulted)(f)
    if k == 'batch':
        return state.faulted(batch.run, project, a[0])
    if k == 'elem':
        return state.faulted(elem.run, project, a[0])
    return state.registry_run(project, a[0])
