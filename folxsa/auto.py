"""Automatic batching: memory estimation and the batched map are recording stand-ins; measured costs, memory limits and fractions are concrete numbers.
The batch size the map is finally called with is compared with the solution of the linear model; failures have to lead to batch size one."""
from fractions import Fraction
from .world import *
from .values import *
from .jaxprs import call_obj
from .m_jax import flatten
from . import oracle as O, tensor as T
from .interp import AbsRaise, Unknown, Budget
from .rules import exc_name

COSTS = [(100, 150), (100, 101), (10, 20), (8, 15), (64, 64), (1000, 1900), (7, 10), (1, 2), (5, 5), (300, 500), (48, 80)]
LIMITS = [0, 1, 20, 64, 100, 107, 150, 160, 1000, 1024, 4096, 10 ** 6, 3 * 10 ** 10]
FRACTIONS = [1.0, 0.5, 0.25, 0.75]
ARGS = ['one', 'two axes', 'unmapped', 'keywords', 'pytree', 'static', 'partial', 'defaults']
FAILS = ['no statistics', 'no limit', 'devices', 'statistics raise', 'statistics not implemented', 'first measurement', 'second measurement', 'measurement assertion', 'measurement type', 'measurement key']


def cases():
    U = {}
    for l in LIMITS:
        for f in FRACTIONS:
            for s, p in COSTS:
                U[f'costs {s}, {p}; {l} bytes, fraction {f}'] = ('size', (s, p, l, f))
    for a in ARGS:
        U[f'arguments: {a}'] = ('args', a)
        U[f'arguments: {a}, measuring fails'] = ('args', a, 'second measurement')
        U[f'arguments: {a}, no statistics'] = ('args', a, 'no statistics')
    for x in FAILS:
        U[f'failure: {x}'] = ('fail', x)
        U[f'failure: {x}, function without a name'] = ('fail', x, 'partial')
    return U


def units():
    """Size cases are grouped: one unit per memory limit."""
    return [f'batch size within {l} bytes' for l in LIMITS] + [u for u, c in cases().items() if c[0] != 'size']


def run(project, uid):
    out = O.Outcome()
    out.reach = set()
    if uid.startswith('batch size within '):
        l = int(uid.split()[3])
        for u, c in cases().items():
            if c[0] == 'size' and c[1][2] == l:
                one(project, u, c, out)
    else:
        one(project, uid, cases()[uid], out)
    return out


def expected(s, p, limit, frac):
    e = p - s
    base = s - e
    if e == 0:
        return None
    t = Fraction(limit) * Fraction(frac)
    n = (t - base) // e
    return max(int(n), 1)


EXC = {'first measurement': 'builtins.RuntimeError', 'second measurement': 'builtins.ValueError', 'measurement assertion': 'builtins.AssertionError', 'measurement type': 'builtins.TypeError',
       'measurement key': 'builtins.KeyError', 'devices': 'builtins.RuntimeError', 'statistics raise': 'builtins.RuntimeError', 'statistics not implemented': 'builtins.NotImplementedError'}


def one(project, uid, case, out):
    W = World(project)
    I = W.I
    kind = case[0]
    s, p, limit, frac = case[1] if kind == 'size' else (100, 150, 1000, 1.0)
    fail = case[1] if kind == 'fail' else (case[2] if len(case) > 2 else None)
    how = case[1] if kind == 'args' else (case[2] if len(case) > 2 else 'one')

    def boom(n):
        raise AbsRaise(ModelV('excinst', (EXC.get(n, 'builtins.RuntimeError'), n)), I.where(), True)

    def stats(I, a, k):
        if fail in ('statistics raise', 'statistics not implemented'):
            boom(fail)
        if fail == 'no statistics':
            return None
        d = {'bytes_in_use': 5, 'bytes_limit': limit, 'num_allocs': 3, 'peak_bytes_in_use': 9}
        if fail == 'no limit':
            del d['bytes_limit']
        return I.new_dict(tuple(d.items()))

    def devices(I, a, k):
        if fail == 'devices':
            boom(fail)
        return I.new_list((Obj('Device', {'memory_stats': call_obj('stats', stats), 'platform': 'gpu', 'id': 0}),))
    I.ext_hooks['jax.devices'] = devices
    I.ext_hooks['jax.local_devices'] = devices
    x, y = W.plain('x', ['b', 'a']), W.plain('y', ['c', 'b'])
    z = W.plain('z', ['d'])
    given, kw, ax, static = {
        'two axes': ((x, y), {}, {'in_axes': (0, 1), 'out_axes': 1}, None),
        'unmapped': ((x, z), {}, {'in_axes': (0, None)}, None),
        'keywords': ((x,), {'k': z}, {'in_axes': 0, 'out_axes': -1}, None),
        'pytree': ((I.new_dict((('p', x), ('q', z))), y), {}, {'in_axes': (I.new_dict((('p', 0), ('q', None))), 1), 'out_axes': (0, 1)}, None),
        'static': ((x, 3), {}, {'in_axes': (0, None)}, 1),
        'defaults': ((x,), {}, {}, None),
    }.get(how, ((x,), {}, {'in_axes': 0}, None))
    wrong, calls, measured = [], [], []
    user = call_obj('userfn', lambda I, a, k: z, **({} if how == 'partial' else {'name': 'user'}))
    if how == 'partial':
        user = Obj('nameless', {'#call': lambda I, a, k: z, '#closed': True})
    bv = W.attr('folx.vmap', 'batched_vmap')
    defaults = {'in_axes': 0, 'out_axes': 0}
    want_ax = {**defaults, **ax}

    def say(m):
        if m not in wrong:
            wrong.append(m)

    def same(a, b):
        a, b = I.rdeep(a), I.rdeep(b)
        if isinstance(a, (Ref, tuple)) or isinstance(b, (Ref, tuple)):
            try:
                la, ta = flatten(I, a)
                lb, tb = flatten(I, b)
            except (Unknown, AbsRaise):
                return a == b
            return ta == tb and len(la) == len(lb) and all(p is q or p == q for p, q in zip(la, lb))
        return a is b or (type(a) is type(b) and a == b)

    def batched(I, f, args, kwargs):
        v = I.bind_args(f, args, kwargs)
        n = I.rdeep(v.get('max_batch_size'))
        if v.get('fn') is not user:
            say('the map is built for another function')
        for a in ('in_axes', 'out_axes'):
            if not same(v.get(a), want_ax[a]):
                say(f'the map is built with {a}={I.rdeep(v.get(a))!r:.60} instead of {want_ax[a]!r:.60}')

        def apply(I, a, k):
            calls.append((n, I.compile_time))
            if not same(tuple(a), given) or set(k) != set(kw) or any(not same(k[q], kw[q]) for q in kw):
                say('the map is called with other arguments')
            if n is None:
                T.raise_(I, 'TypeError', 'batch size None')
            if not isinstance(n, int):
                raise Unknown('batch size')
            return Arr((), {(): Poly.atom(('v', f'batch:{n}', True))}, F, 'jx')
        return call_obj('batched', apply, name='batched', batch=n)

    def cost(I, f, args, kwargs):
        v = I.bind_args(f, args, kwargs)
        fn = I.rdeep(v.get('f'))
        n = fn.get('batch') if isinstance(fn, Obj) and fn.kind == 'batched' else None
        if not isinstance(n, int) or n < 1:
            raise Unknown(f'memory of {fn!r:.60}, batch size {n}')
        measured.append(n)
        kk = I.rdeep(v.get('kwargs'))
        kk = dict(I.deref(kk).items) if isinstance(kk, Ref) else {}
        st = I.rdeep(v.get('static_argnums'))
        if not same(v.get('args'), given) or set(kk) != set(kw) or any(not same(kk[q], kw[q]) for q in kw):
            say('the memory is measured for other arguments')
        if static is not None and st not in (static, (static,)):
            say(f'static arguments {st!r} are given to the estimate instead of {static!r}')
        if fail == 'first measurement' and n == 1 or fail == 'second measurement' and n == 2 or fail and fail.startswith('measurement'):
            boom(fail)
        return s + (n - 1) * (p - s)
    I.hooks[bv.qual] = batched
    cm = W.attr('folx.experimental.memory', 'compute_memory')
    I.hooks[cm.qual] = cost
    want = 1 if fail else expected(s, p, limit, frac)
    pre = '' if kind != 'size' else uid + ': '
    try:
        f = W.attr('folx.experimental.vmap', 'auto_batched_vmap')
        k = dict(ax)
        if frac != 1.0:
            k['max_fraction'] = frac
        if static is not None:
            k['static_argnums'] = static
        g = I.call(f, (user,), k)
        r = I.call(g, given, dict(kw))
        out.n += 1
        if wrong:
            out.add('bad', 'arguments', pre + wrong[0])
        else:
            out.ok += 1
        for cond, v in O.leaves(I, I.rdeep(r)):
            out.n += 1
            n = batch_of(v)
            handler = any(gd[0] == 'raises' and val for gd, val in cond)
            if n is None:
                out.add('und' if isinstance(v, Top) else 'bad', 'result', f'{pre}the result is {v!r:.80}', cond)
                continue
            w = 1 if handler else want
            if (w is None and n >= 2 ** 20) or n == w:
                out.ok += 1
            else:
                out.add('bad', 'size', f'{pre}batch size {n} instead of {"an unbounded one" if w is None else w}' + (' after a failure' if handler or fail else ''), cond)
        out.n += 1
        late = [c for c in calls if c[1]]
        if late:
            out.add('bad', 'mode', f'{pre}the map runs in compile-time evaluation mode')
        else:
            out.ok += 1
    except AbsRaise as e:
        out.n += 1
        out.add('und' if I.notes else 'bad', 'raise', f'{pre}raises {exc_name(e)} at {e.where}')
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{pre}{type(e).__name__} {e} at {I.where()}')
    out.reach |= set(I.reach)


def batch_of(v):
    if isinstance(v, Arr) and len(v.blocks) == 1:
        c = next(iter(v.blocks.values()))
        if isinstance(c, Poly) and len(c.t) == 1:
            (m, k), = c.t.items()
            if k == 1 and len(m) == 1 and m[0][0][0] == 'v' and str(m[0][0][1]).startswith('batch:'):
                return int(m[0][0][1][6:])
    return None
