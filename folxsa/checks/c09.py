"""Threshold.  (1) abstract programs with concrete input sizes and every kind of threshold: each rule, also in nested calls, must be handed the threshold the
documentation defines; (2) seeds are dense iff the threshold is 0; (3) every rule is evaluated with a symbolic threshold: an operation that computes
a new index pattern may return it only under the path condition that its number of entries does not exceed that threshold."""
from . import progbase as B, rulebase as R
from .. import scen, rules, oracle as O
from ..world import *
from ..interp import AbsRaise, Unknown, Budget
RULE = 'every rule sees 0 | int(fraction * total input size) | int(count); a newly computed pattern is returned only if entries <= threshold'
ASSUMPTIONS = B.ASSUMPTIONS + R.ASSUMPTIONS
NEW = ('reduce_', 'cumsum', 'scatter', 'dot_general', 'opaque_op')
LOOSE = ('bcast', 'had', 'outer', 'scal')      # contractions without a contracted axis are products: no new pattern is computed
SEED = ('seed matrix weights default', 'seed vector weights default', 'seed three weights default', 'seed scalar, matrix weights default', 'seed threshold')


def cfgs():
    return [u for u, c in R.configs().items() if c.prim.startswith(NEW) and [o[0] for o in c.ops].count('s') == 1 and not (c.prim == 'dot_general' and u.endswith(LOOSE))]


def units(project):
    return list(B.table('thresholds')) + [u for u in B.table('loops') if u.startswith(('loop threshold', 'two of each', 'call in a loop'))] + [u for u in B.table('seeds') if u.startswith(SEED)] + cfgs()


def run_unit(project, uid):
    if uid in B.table('thresholds'):
        return B.run(project, 'thresholds', uid, {'threshold', 'raise'})
    if uid in B.table('loops'):
        return B.run(project, 'loops', uid, {'threshold'})
    if uid in B.table('seeds'):
        out = scen.run_seed(project, B.table('seeds')[uid])[0]
        return R.restrict(out, {'mode', 'raise'})
    return enforced(project, R.configs()[uid])


def enforced(project, cfg):
    W = World(project)
    I = W.I
    out = O.Outcome()
    try:
        args, params = rules.build(W, cfg)
        f = W.rule(cfg.prim[1:] if cfg.prim.startswith(':') else W.prim(cfg.prim))
        t = W.n('thr', 0)
        res = I.call(f, (tuple(args), I.new_dict(tuple(params.items())), t), {})
    except (AbsRaise, Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', str(e))
        return out
    for cond, r in O.leaves(I, I.rdeep(res)):
        for q in O.split_lapl(I, r)[0] or []:
            if not isinstance(q, NT) or not isinstance(q.items[1], NT):
                continue
            m = q.items[1].items[1]
            out.n += 1
            if m is None:
                out.ok += 1
            elif not isinstance(m, Arr):
                out.add('und', 'enforced', f'{m!r:.80}', cond)
            else:
                n = topoly(m.shape()[0])
                if any(g[0] == 'gt' and not v and implies(g[1], n - topoly(t)) for g, v in cond):
                    out.ok += 1
                elif any(g[0] == 'gt' and v and implies_not(g[1], topoly(t) - n) for g, v in cond):
                    out.ok += 1
                elif O.uncertain(cond):
                    out.add('und', 'enforced', 'condition', cond)
                else:
                    out.add('bad', 'enforced', f'a new index pattern of {n!r:.200} entries is returned without a test against the threshold', cond)
    out.reach = set(I.reach)
    return out


def implies(p, d):
    """not (p > 0) implies not (d > 0): p >= d."""
    c = (p - d).as_const()
    return c is not None and c >= 0


def implies_not(p, d):
    """p > 0 implies d >= 0, over the integers."""
    c = (p - d).as_const()
    return c is not None and c <= 1
