"""Scenarios: abstract programs evaluated by the public transformation, one configuration each."""
from .progs import *
from .interp import AbsRaise, Unknown, Budget


class S:
    """prog/kinds: program and its inputs (D differentiated, P plain, A plain and seeded by the library).
    thr: threshold handed in; want: threshold every rule has to see; expect: exception that has to reach the caller."""

    def __init__(self, make, kinds, thr=0, want=None, sparse=False, stage='jx', shapes=None, expect=None, tree=None, keyword=None, jit=False, otree=None, check=None, seeded=False):
        self.make, self.kinds, self.thr, self.sparse, self.stage, self.shapes = make, kinds, thr, sparse, stage, shapes
        self.want = thr if want is None else want
        self.expect, self.tree, self.keyword, self.jit, self.otree, self.check, self.seeded = expect, tree, keyword, jit, otree, check, seeded


def run(project, s, parts):
    r = Run(project, s.want, s.sparse, s.stage, s.shapes)
    I = r.I
    p = s.make()
    if s.seeded:
        r.seeded = set(p.ins)
    out = O.Outcome()
    res = None
    try:
        res = r.evaluate(p, s.kinds, s.thr, tree=s.tree, keyword=s.keyword, jit=s.jit, otree=s.otree)
        if s.expect:
            r.n += 1
            alive = [c for c, v in O.leaves(I, I.rdeep(res)) if not isinstance(v, Top)]
            if alive and not raised(I, s.expect):
                r.issue('swallowed' if not I.notes else 'und', f'{s.expect} raised by an operation does not reach the caller')
        else:
            r.compare(p, s.kinds, res, s.otree)
        if s.check:
            s.check(r, p, res)
    except AbsRaise as e:
        r.n += 1
        got = I.exc_name(e.exc)
        if s.expect:
            if got.split('.')[-1] not in s.expect.split('|'):
                r.issue('swallowed' if not I.notes else 'und', f'{got} at {e.where} reaches the caller instead of {s.expect}')
        else:
            r.issue('raise' if not I.notes else 'und', f'raises {exc_name(e)} at {e.where}')
    except (Unknown, Budget) as e:
        r.n += 1
        r.issue('und', f'{type(e).__name__} {e} at {I.where()}')
    o = outcome(r, parts)
    return o, r


def raised(I, names):
    """Is the exception possible on every path? (recorded as a conditional raise outside of any handler)"""
    return any(e['kind'] == 'maybe_raise' and not e['tried'] and I.exc_name(e['exc']).split('.')[-1] in names.split('|') for e in I.events)


VARIANTS = (('dense', dict(thr=0)), ('sparse', dict(thr=4, sparse=True)), ('static', dict(thr=4, sparse=True, stage='np')))


def order():
    U = {}
    for name in programs():
        for v, kw in VARIANTS:
            U[f'{name} [{v}]'] = S((lambda name=name: programs()[name][0]), programs()[name][1], **kw)
    return U


def live(project=None):
    return order()


# ------------------------------------------------------------------ loops
def loop(name, ins, outs, body, nc, nk, **kw):
    return E(name, ins, outs, 'scan', sub=body, num_consts=nc, num_carry=nk, **kw)


def loop_programs():
    U = {}

    def add(name, p, kinds, **kw):
        U[name] = (p, kinds, kw)
    ln = {'xs': ['len', 'a'], 'ys': ['len', 'a']}
    add('carry', lambda: P(['x'], [loop('loop', ['x'], ['y'], P(['c'], [E('f', ['c'], ['d'])], ['d']), 0, 1)], ['y']), 'D')
    add('carry and step', lambda: P(['x', 'xs'], [loop('loop', ['x', 'xs'], ['y', 'z'], P(['c', 's'], [E('f', ['s', 'c'], ['d']), E('g', ['d', 's'], ['o'])], ['d', 'o']), 0, 1)], ['y', 'z']), 'DP', shapes=ln)
    add('constant, carry and step', lambda: P(['k', 'x', 'xs'], [loop('loop', ['k', 'x', 'xs'], ['y', 'z'], P(['b', 'c', 's'], [E('f', ['s', 'c', 'b'], ['d']), E('g', ['b', 'd'], ['o'])], ['d', 'o']), 1, 1)], ['z', 'y']), 'DDP', shapes=ln)
    add('plain constant', lambda: P(['k', 'x', 'xs'], [loop('loop', ['k', 'x', 'xs'], ['y', 'z'], P(['b', 'c', 's'], [E('h', ['b', 's'], ['q']), E('f', ['q', 'c'], ['d'])], ['d', 'q']), 1, 1)], ['z', 'y']), 'PDP', shapes=ln)
    two = lambda **kw: P(['k', 'm', 'x', 'u', 'xs', 'ys'], [loop('loop', ['k', 'm', 'x', 'u', 'xs', 'ys'], ['y', 'v', 'z', 'w'],
          P(['k1', 'k2', 'c1', 'c2', 's1', 's2'], [E('f', ['c2', 'c1', 's1'], ['d1'], mask_of=1), E('g', ['c2', 's2', 'k2', 'k1'], ['d2']), E('h', ['k1', 's2', 'd1'], ['o1']), E('l', ['s1', 'd2'], ['o2'])], ['d1', 'd2', 'o2', 'o1']), 2, 2, **kw),
          E('post', ['w', 'y'], ['r'])], ['r', 'z', 'v'])
    add('two of each', two, 'DDDDPP', shapes=ln)
    add('two of each, mixed', two, 'PDDDPP', shapes=ln)
    add('backwards', lambda: two(reverse=True), 'DDDDPP', shapes=ln)
    add('unrolled', lambda: two(unroll=3), 'DDDDPP', shapes=ln)
    add('mixed carry', lambda: P(['p', 'x', 'xs'], [loop('loop', ['p', 'x', 'xs'], ['q', 'y', 'z', 'o'], P(['a', 'c', 's'], [E('f', ['a', 's'], ['b']), E('g', ['c', 'a', 's'], ['d']), E('h', ['b'], ['e'])], ['b', 'd', 'e', 'd']), 0, 2)], ['y', 'q', 'o', 'z']), 'PDP', shapes=ln)
    add('carry in the middle', lambda: P(['x', 'p', 'u'], [loop('loop', ['x', 'p', 'u'], ['y', 'q', 'v'], P(['a', 'b', 'c'], [E('f', ['c', 'a'], ['e']), E('g', ['a', 'b'], ['d']), E('h', ['b'], ['i'])], ['d', 'i', 'e']), 0, 3)], ['q', 'v', 'y']), 'DPD')
    add('outputs only', lambda: P(['k', 'xs'], [loop('loop', ['k', 'xs'], ['z', 'w'], P(['b', 's'], [E('f', ['s', 'b'], ['o']), E('g', ['s'], ['t'])], ['o', 't']), 1, 0)], ['w', 'z']), 'DP', shapes=ln)
    add('carry returned unchanged', lambda: P(['x', 'xs'], [loop('loop', ['x', 'xs'], ['y', 'z'], P(['c', 's'], [E('f', ['c', 's'], ['o'])], ['c', 'o']), 0, 1)], ['z', 'y']), 'DP', shapes=ln)
    add('loop in a call', lambda: P(['x', 'u', 'xs'], [E('call', ['u', 'xs', 'x'], ['p', 'q'], kind='pjit', sub=P(['a', 't', 'b'], [loop('loop', ['b', 'a', 't'], ['y', 'z'], P(['k', 'c', 's'], [E('f', ['s', 'c', 'k'], ['d']), E('g', ['k', 'd'], ['o'])], ['d', 'o']), 1, 1)], ['z', 'y']))], ['q', 'p']), 'DDP', shapes=ln)
    add('call in a loop', lambda: P(['x', 'u', 'xs'], [loop('loop', ['x', 'u', 'xs'], ['y', 'z'], P(['k', 'c', 's'], [E('call', ['s', 'c', 'k'], ['d', 'o'], kind='pjit', sub=P(['i', 'j', 'l'], [E('f', ['l', 'i'], ['m']), E('g', ['m', 'j'], ['n'], mask_of=1)], ['n', 'm']))], ['d', 'o']), 1, 1)], ['y', 'z']), 'DDP', shapes=ln)
    add('two loops', lambda: P(['x', 'xs', 'ys'], [loop('loop', ['x', 'xs'], ['y', 'z'], P(['c', 's'], [E('f', ['s', 'c'], ['d']), E('g', ['d', 's'], ['o'])], ['d', 'o']), 0, 1),
        loop('loop2', ['x', 'y', 'ys'], ['v', 'w'], P(['k', 'c', 's'], [E('f2', ['s', 'c', 'k'], ['d'])], ['d', 'k']), 1, 1)], ['v', 'z', 'w']), 'DPP', shapes=ln)
    add('plain loop', lambda: P(['p', 'x', 'xs'], [loop('loop', ['p', 'xs'], ['y', 'z'], P(['c', 's'], [E('f', ['s', 'c'], ['d'])], ['d', 'd']), 0, 1), E('h', ['x', 'y'], ['r'])], ['r', 'z']), 'PDP', shapes=ln)
    return U


def layout(r, p, res):
    """Differentiated results: stacked axis first in value and Laplacian, second in the Jacobian; patterns constant, aligned with the data."""
    I = r.I
    for cond, v in O.leaves(I, I.rdeep(res)):
        v = I.rdeep(v)
        if isinstance(v, Top):
            continue
        for i, q in enumerate(I.iterate(v) if not isinstance(v, NT) else [v]):
            q = I.rdeep(q)
            if not (isinstance(q, NT) and q.cls.name == 'FwdLaplArray' and isinstance(q.items[1], NT)):
                continue
            r.n += 1
            x, j, l = q.items
            data, idx = (I.rdeep(t) for t in j.items)
            if not all(isinstance(t, Arr) and t.rank is not None for t in (x, data, l)):
                r.issue('und', f'layout of output {i}')
                continue
            if tuple(x.shape()) != tuple(l.shape()):
                r.issue('layout', f'output {i}: Laplacian of shape {l.shape()} for a value of shape {x.shape()}')
            want = x.axes
            if len(data.axes) != len(want) + 1 or tuple(data.axes[1:]) != tuple(want):
                r.issue('layout', f'output {i}: Jacobian of shape {data.shape()} for a value of shape {x.shape()}')
                continue
            lab = data.axes[0][0][0]
            if r.sparse and idx is None and not r.dense_ok:
                r.issue('mask', f'output {i}: the index pattern is lost')
            if idx is None:
                if lab != ('J',):
                    r.issue('mask', f'output {i}: the Jacobian of a sparse value is returned as if it were dense')
                continue
            if not isinstance(idx, Arr):
                r.issue('und', f'pattern of output {i}: {idx!r:.80}')
                continue
            if idx.stage == 'jx':
                r.issue('stage', f'output {i}: the index pattern is a traced value')
            if tuple(idx.shape()) != tuple(data.shape()):
                r.issue('mask', f'output {i}: index pattern of shape {idx.shape()} for Jacobian data of shape {data.shape()}')
            cs = set(idx.blocks.values())
            d = {a for c in data.blocks.values() if isinstance(c, Poly) for a in c.atoms() if a[0] == 'S'}
            if len(cs) == 1 and len(d) == 1:
                t = next(iter(d))[2]
                r.issue('mask', f'output {i}: the index pattern {next(iter(cs))} belongs to another Jacobian') if next(iter(cs)) != t else None
            else:
                r.issue('und', f'pattern of output {i}')


def loops():
    U = {}
    for name, (mk, kinds, kw) in loop_programs().items():
        for v, vk in VARIANTS:
            U[f'{name} [{v}]'] = S(mk, kinds, check=layout, **{**vk, **kw})
    ln = {'xs': ['len', 'a']}
    sh = {'x': [('a', 3)], 'xs': [('len', 4), ('b', 3)], 'u': [('c', 2)]}
    body = lambda **k: P(['c', 's'], [E('f', ['c', 's'], ['d'], **k), E('g', ['d', 's'], ['o'])], ['d', 'o'])
    one = lambda **k: (lambda: P(['x', 'xs'], [loop('loop', ['x', 'xs'], ['y', 'z'], body(**k), 0, 1)], ['y', 'z']))
    for thr in (0.5, 0.25, 2, 8, 0):
        U[f'loop threshold {thr}'] = S(lambda: P(['x', 'xs', 'u'], [loop('loop', ['u', 'x', 'xs'], ['y', 'z'], P(['k', 'c', 's'], [E('f', ['c', 's', 'k'], ['d'], shape=[('a', 3)]), E('call', ['d'], ['o'], kind='pjit', sub=P(['i'], [E('g', ['i'], ['j'])], ['j']))],
                                       ['d', 'o']), 1, 1, length=4)], ['y', 'z']), 'DPD', thr=thr, want=int(thr * 17) if 0 < thr < 1 else thr, sparse=thr > 0, shapes=sh)
    bad = 'ValueError|TypeError|AssertionError|NotImplementedError'
    for v, vk in VARIANTS[1:]:
        U[f'carry changes its pattern [{v}]'] = S(one(newmask=True), 'DP', expect=bad, shapes=ln, **vk)
        U[f'carry becomes dense [{v}]'] = S(one(dense=True), 'DP', expect=bad, shapes=ln, **vk)
        U[f'second carry changes its pattern [{v}]'] = S(lambda: P(['x', 'u'], [loop('loop', ['x', 'u'], ['y', 'v'], P(['c', 'd'], [E('f', ['c'], ['e']), E('g', ['d'], ['h'], newmask=True)], ['e', 'h']), 0, 2)], ['y', 'v']), 'DD', expect=bad, **vk)
        U[f'carries swap their patterns [{v}]'] = S(lambda: P(['x', 'u'], [loop('loop', ['x', 'u'], ['y', 'v'], P(['c', 'd'], [E('f', ['c'], ['e'])], ['d', 'e']), 0, 2)], ['y', 'v']), 'DD', expect=bad, **vk)
    for v, vk in VARIANTS:
        U[f'plain carry gains derivatives [{v}]'] = S(lambda: P(['p', 'x'], [loop('loop', ['x', 'p'], ['y'], P(['k', 'c'], [E('f', ['c', 'k'], ['d'])], ['d']), 1, 1)], ['y']), 'PD', expect=bad, **vk)
        U[f'carry loses its derivatives [{v}]'] = S(lambda: P(['x'], [loop('loop', ['x'], ['y'], P(['c'], [E('f', ['c'], ['d'], plain_outs=(0,))], ['d']), 0, 1)], ['y']), 'D', expect=bad, **vk)
        U[f'second carry loses its derivatives [{v}]'] = S(lambda: P(['x', 'u'], [loop('loop', ['x', 'u'], ['y', 'v'], P(['c', 'b'], [E('g', ['c'], ['e']), E('f', ['b'], ['d'], plain_outs=(0,))], ['e', 'd']), 0, 2)], ['y', 'v']), 'DD', expect=bad, **vk)
        U[f'loop over a differentiated value [{v}]'] = S(lambda: P(['xs', 'x'], [loop('loop', ['x', 'xs'], ['y', 'z'], body(), 0, 1)], ['y', 'z']), 'DD', expect=bad, shapes=ln, **vk)
        U[f'loop over differentiated values only [{v}]'] = S(lambda: P(['xs', 'p'], [loop('loop', ['p', 'xs'], ['z'], P(['k', 's'], [E('f', ['k', 's'], ['o'])], ['o']), 1, 0)], ['z']), 'DP', expect=bad, shapes=ln, **vk)
        U[f'loop over a plain and a differentiated value [{v}]'] = S(lambda: P(['xs', 'ys'], [loop('loop', ['xs', 'ys'], ['z'], P(['k', 's'], [E('f', ['k', 's'], ['o'])], ['o']), 0, 0)], ['z']), 'PD', expect=bad, shapes={**ln, 'ys': ['len', 'b']}, **vk)
        for exc in ('ZeroDivisionError', 'ValueError', 'RuntimeError'):
            U[f'rule in a loop raises {exc} [{v}]'] = S(one(fail=failing('rule'), exc=exc), 'DP', expect=exc, shapes=ln, **vk)
    return U


# ------------------------------------------------------------------ operations without a rule, functions with a derivative rule of their own
def generic():
    U = {}
    sh = {'x': ['a', 'b'], 'u': ['c'], 'w': ['d']}
    for kind, mk in (('custom derivative', lambda i, o: E('cj', i, o, 'custom_jvp', multi=True, subfuns=2, params={})), ('no rule', lambda i, o: E('op', i, o, 'raw', prim='lax.opaque_op_p', params={}, multi=False))):
        for thr in (0, 4):
            v = 'sparse' if thr else 'dense'
            for ins, kinds in ((('x',), 'D'), (('u', 'x'), 'DD'), (('x', 'u'), 'DP'), (('u', 'x'), 'DP'), (('x', 'w', 'u'), 'DPD')):
                names = ['x', 'u', 'w'][:len(kinds)]
                U[f'{kind}, {",".join(ins)} of {kinds} [{v}]'] = (mk, names, kinds, ins, thr, sh)
    return U


def run_generic(project, u, parts):
    mk, names, kinds, ins, thr, sh = u
    r = Run(project, thr, thr > 0, 'jx', sh)
    I = r.I
    out = O.Outcome()
    try:
        p = P(names, [mk(list(ins), ['z'])], ['z'])
        env = {n: r.W.lapl(i, sh[n], thr > 0) if t == 'D' else r.W.plain(f'x{i}', sh[n]) for i, (n, t) in enumerate(zip(names, kinds))}
        refs = O.mkref(I, lambda *a: I.call(ExtV('lax.opaque_op_p.bind'), tuple(a), {}), [env[n] for n in ins])
        r.trace_hook(p)
        f = r.transform(r.fn_obj(p), r.W.n('thr', 1) if thr else 0, disable_jit=True)
        res = I.call(f, tuple(env[n] for n in names), {})
        O.check_result(I, res, refs, out)
    except AbsRaise as e:
        out.n += 1
        out.add('und' if I.notes else 'bad', 'raise', f'raises {exc_name(e)} at {e.where}')
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {I.where()}')
    for _, m in r.bad:
        out.add('bad', 'operands', m)
    out.bad = [i for i in out.bad if i.part in parts]
    out.reach = set(I.reach)
    return out


# ------------------------------------------------------------------ failures
def failing(mode, when=None):
    return lambda run, m: m == mode and (when is None or when(run))


def failures():
    U = {}
    ct = lambda run: run.I.compile_time
    T_ = lambda p, kinds, exp, **kw: S(p, kinds, expect=exp, **kw)
    for exc in ('ZeroDivisionError', 'KeyError', 'RuntimeError', 'TypeError', 'ValueError', 'NotImplementedError', 'AssertionError'):
        mk = lambda fail, kind='op', exc=exc: E('g', ['y'], ['z'], kind, fail=fail, exc=exc)
        rule = failing('rule')
        for v, kw in VARIANTS[:2]:
            U[f'rule raises {exc} [{v}]'] = T_(lambda mk=mk: P(['x'], [E('f', ['x'], ['y']), mk(failing('rule')), E('h', ['z'], ['w'])], ['w']), 'D', exc, **kw)
            U[f'nested rule raises {exc} [{v}]'] = T_(lambda mk=mk: P(['x'], [E('call', ['x'], ['w'], kind='pjit', sub=P(['y'], [mk(failing('rule')), E('h', ['z'], ['w'])], ['w']))], ['w']), 'D', exc, **kw)
            U[f'unused rule raises {exc} [{v}]'] = T_(lambda mk=mk: P(['x'], [E('f', ['x'], ['y']), mk(failing('rule')), E('h', ['y'], ['w'])], ['w']), 'D', exc, **kw)
        for v, kw in VARIANTS:
            pl = lambda f, exc=exc: P(['x', 'p'], [E('g', ['p'], ['q'], fail=f, exc=exc), E('h', ['q', 'x'], ['z'])], ['z'])
            U[f'operation raises {exc} [{v}]'] = T_(lambda pl=pl: pl(failing('primitive')), 'DP', exc, **kw)
        U[f'eager evaluation fails with {exc}'] = S(lambda pl=pl: pl(failing('primitive', ct)), 'DP', thr=4, sparse=True, stage='np')
        m = lambda f, exc=exc: P(['x', 'p'], [E('k', ['p'], ['s', 't']), E('g', ['t', 'p', 's'], ['q', 'r'], fail=f, exc=exc), E('h', ['r', 'x', 'q'], ['z'])], ['z', 'r'])
        U[f'eager evaluation of several results fails with {exc}'] = S(lambda m=m: m(failing('primitive', ct)), 'DP', thr=4, sparse=True, stage='np')
        sf = lambda f, exc=exc: P(['x', 'p'], [E('g', ['p'], ['q'], fail=f, exc=exc, subfuns=2), E('h', ['q', 'x'], ['z'])], ['z'])
        U[f'eager evaluation with inner functions fails with {exc}'] = S(lambda sf=sf: sf(failing('primitive', ct)), 'DP', thr=4, sparse=True, stage='np')
        nested = lambda f, exc=exc: P(['x', 'p'], [E('call', ['p', 'x'], ['z'], kind='pjit', sub=P(['a', 'b'], [E('g', ['a'], ['q'], fail=f, exc=exc), E('h', ['q', 'b'], ['c'])], ['c']))], ['z'])
        U[f'nested eager evaluation fails with {exc}'] = S(lambda nested=nested: nested(failing('primitive', ct)), 'DP', thr=4, sparse=True, stage='np')
    return U


# ------------------------------------------------------------------ thresholds
def thresholds():
    U = {}
    sh = {'x': [('x1', 7)], 'u': [('u1', 5)], 'w': [('w1', 2), ('w2', 4)]}
    nest = lambda: P(['x', 'u', 'w'], [E('f', ['x', 'u'], ['y']), E('call', ['y', 'w'], ['p', 'q'], kind='pjit', sub=P(['a', 'b'], [E('f1', ['b', 'a'], ['c']),
                     E('in', ['c'], ['d'], kind='pjit', sub=P(['s'], [E('f3', ['s'], ['t'])], ['t'])), E('f2', ['d'], ['e'])], ['e', 'c'])), E('g', ['q', 'p'], ['z']),
                     E('special', ['z', 'u'], ['v', 'r'], kind='named', sub=P(['a', 'b'], [], ['a', 'b']))], ['v'])
    for t, want in ((0, 0), (0.0, 0), (0.5, 10), (0.25, 5), (0.9, 18), (0.1, 2), (0.05, 1), (0.01, 0), (0.999, 19), (1, 1), (1.0, 1), (2, 2), (3, 3), (7, 7), (19, 19), (20, 20), (21, 21), (500, 500), (6.0, 6)):
        for k in ('DDD', 'AAA') + (('DPD',) if want in (10, 5, 3) else ()):
            if k == 'AAA' and want not in (10, 0, 7):
                continue
            for jit in (False, True):
                if jit and want not in (10, 3):
                    continue
                U[f'threshold {t!r} on 7+5+8 entries [{k}{",jit" if jit else ""}]'] = S(nest, k, thr=t, want=want, sparse=want > 0, shapes=sh, jit=jit, seeded=k == 'AAA')
    one = lambda: P(['x'], [E('f', ['x'], ['y'])], ['y'])
    for t, want in ((0.5, 3), (0.6, 4), (2, 2), (0, 0)):
        U[f'threshold {t!r} on 7 entries'] = S(one, 'D', thr=t, want=want, sparse=want > 0, shapes=sh)
    U['threshold 0.5 on nested arguments'] = S(nest, 'DDD', thr=0.5, want=10, sparse=True, shapes=sh, tree=nested_args)
    return U


# ------------------------------------------------------------------ calling convention
def nested_args(I, *a):
    """({'v': a1, 'u': a0}, [a2, (a3,)], ...) - leaves in the order of jax (dictionary keys sorted)."""
    a = list(a)
    first = I.new_dict((('v', a[1]), ('u', a[0])))
    rest = a[2:]
    return (first,) + ((I.new_list((rest[0],) + ((tuple(rest[1:]),) if len(rest) > 1 else ())),) if rest else ())


def dict_out(I, o):
    """{'b': (o1, o2), 'a': o0} : flattening order a, b"""
    return I.new_dict((('b', tuple(o[1:])), ('a', o[0])))


def deep_out(I, o):
    return (o[0], I.new_list((I.new_dict((('k', o[1]),)),) + tuple(o[2:])))


def conventions():
    U = {}
    prog = lambda: P(['x', 'u', 'w'], [E('f', ['u', 'x'], ['y']), E('g', ['w', 'y'], ['z'])], ['z', 'y', 'w'])
    kwprog = lambda: P(['x', 'u'], [E('f', ['x', 'scale'], ['y']), E('h', ['shift'], ['s']), E('g', ['u', 's', 'y'], ['z'])], ['z', 'y'])
    one = lambda: P(['x'], [E('f', ['x'], ['y'])], ['y'])

    def args_given(r, p, res):
        I = r.I
        if not r.calls:
            r.issue('und', 'the function is never called')
        names = [n for n in r.top.ins if n not in r.keyword] if hasattr(r, 'top') else p.ins
        for args, kw in r.calls:
            r.n += 1
            want = (tuple(range(len(names))) if r.arg_tree is None else r.arg_tree(I, *range(len(names))))
            ls = r.leaves_like(tuple(args), want)
            got = [r.name_of(I.rdeep(v)) for v in ls] if ls is not None else None
            if got is None:
                r.issue('call', f'the function is called with differently arranged arguments {I.rdeep(tuple(args))!r:.160}')
            elif got != [('P', n) for n in names]:
                r.issue('call', f'the function is called with {got} instead of {names}')
            if set(kw) != set(r.keyword):
                r.issue('call', f'the function is called with keyword arguments {sorted(kw)} instead of {sorted(r.keyword)}')
            else:
                for n, v in kw.items():
                    v = I.rdeep(v)
                    w = r.keyword[n]
                    if (r.name_of(v) != ('P', n)) if w == 'array' else v != w:
                        r.issue('call', f'keyword argument {n} is {v!r:.80}')
    kws = {'scale': 'array', 'shift': 'array'}
    for kinds in ('DDD', 'AAA', 'DPD'):
        for jit in (False, True):
            for tn, tr in (('flat', None), ('nested', nested_args)):
                for on, ot in (('tuple', None), ('dict', dict_out), ('deep', deep_out)):
                    if kinds == 'DPD' and (tn == 'nested' or on == 'deep'):
                        continue
                    U[f'call {kinds} {tn} -> {on}{", jit" if jit else ""}'] = S(prog, kinds, thr=4 if kinds == 'DDD' else 0, sparse=kinds == 'DDD', tree=tr, otree=ot, jit=jit, check=args_given, seeded=kinds == 'AAA')
    for jit in (False, True):
        for kinds in ('DD', 'AA'):
            U[f'keyword arrays {kinds}{", jit" if jit else ""}'] = S(kwprog, kinds, keyword=kws, jit=jit, check=args_given, seeded=kinds == 'AA')
            U[f'keyword arrays, nested {kinds}{", jit" if jit else ""}'] = S(kwprog, kinds, keyword=kws, jit=jit, tree=nested_args, otree=dict_out, check=args_given, seeded=kinds == 'AA')
        U[f'single array{", jit" if jit else ""}'] = S(one, 'D', otree=lambda I, o: o[0], jit=jit, check=args_given)
        U[f'single array, list{", jit" if jit else ""}'] = S(one, 'D', otree=lambda I, o: I.new_list((o[0],)), jit=jit, check=args_given)
    U['keyword option'] = S(kwprog_opt, 'DD', keyword={'axis': 3, 'mode': 'text'}, check=args_given)
    U['keyword option and array'] = S(kwprog, 'DD', keyword={'scale': 'array', 'shift': 'array', 'flag': True}, check=args_given)
    return U


def kwprog_opt():
    return P(['x', 'u'], [E('f', ['x', 'u'], ['y'])], ['y'])


# ------------------------------------------------------------------ initial derivatives
def ident(I, *a):
    return a


def seeds():
    U = {}
    shapes = [
        ('vector', {'x': ['a']}), ('matrix', {'x': ['a', 'b']}), ('cube', {'x': ['a', 'b', 'c']}), ('scalar', {'x': []}), ('one', {'x': [1]}),
        ('row', {'x': [1, 'b']}), ('column', {'x': ['a', 1]}), ('unit inside', {'x': ['a', 1, 'b']}),
        ('vector, vector', {'x': ['a'], 'u': ['b']}), ('matrix, vector', {'x': ['a', 'b'], 'u': ['c']}), ('vector, matrix', {'x': ['c'], 'u': ['a', 'b']}),
        ('same shapes', {'x': ['a', 'b'], 'u': ['a', 'b']}), ('scalar, matrix', {'x': [], 'u': ['a', 'b']}), ('matrix, scalar, vector', {'x': ['a', 'b'], 'u': [], 'w': ['c']}),
        ('three', {'x': ['a'], 'u': ['b', 'c'], 'w': ['d', 1, 'a']}), ('numbers', {'x': [('a', 3)], 'u': [('b', 2), ('c', 2)], 'w': [('d', 1)]}),
    ]
    for sn, sh in shapes:
        for thr in (0, 4):
            for wn in ('default', 'none', 'number', 'each', 'arrays', 'array'):
                if wn in ('none', 'number', 'array') and sn not in ('matrix', 'matrix, vector', 'scalar', 'three'):
                    continue
                U[f'seed {sn} weights {wn} [{"sparse" if thr else "dense"}]'] = (sh, thr, wn, None, F)
            if len(sh) > 1:
                U[f'seed nested {sn} [{"sparse" if thr else "dense"}]'] = (sh, thr, 'default', nested_args, F)
        if sn in ('matrix', 'vector, matrix'):
            for thr in (0, 4):
                U[f'seed complex {sn} [{"sparse" if thr else "dense"}]'] = (sh, thr, 'each', None, C)
    for thr, sp in ((1, True), (1.0, True), (2, True), (0.0, False), (0.1, False), (0.124, False), (0.125, True), (0.2, True), (0.5, True), (0.99, True), (100, True)):
        U[f'seed threshold {thr!r} for 8 entries'] = (shapes[-1][1], thr, 'default', None, F, sp)
    return U


def run_seed(project, u):
    sh, thr, wn, tree, dt = u[:5]
    sparse = u[5] if len(u) > 5 else thr > 0
    out = O.Outcome()
    r = Run(project, thr, sparse, 'jx', sh)
    I, W = r.I, r.W
    names = list(sh)
    p = P(names, [], names)
    r.trace_hook(p)
    args = [W.plain(n, sh[n], dt) for n in names]
    wt = {}
    kw = {}
    if wn == 'none':
        kw = {'weights': None}
    elif wn == 'number':
        kw = {'weights': 2.5}
        wt = {n: Poly.const(Fraction(5, 2)) for n in names}
    elif wn == 'array':
        kw = {'weights': W.plain('wt', [], F)}
        wt = {n: Poly.atom(('v', 'wt', True)) for n in names}
    elif wn == 'each':
        kw = {'weights': tuple(float(i + 2) for i in range(len(names)))}
        wt = {n: Poly.const(i + 2) for i, n in enumerate(names)}
    elif wn == 'arrays':
        kw = {'weights': tuple(W.plain('wt_' + n, [], F) for n in names)}
        wt = {n: Poly.atom(('v', 'wt_' + n, True)) for n in names}
    try:
        given = tuple(args) if tree is None else tree(I, *args)
        f = r.transform(r.fn_obj(p), thr, disable_jit=True)
        res = I.call(f, given, kw)
        for cond, v in O.leaves(I, I.rdeep(res)):
            vals = I.iterate(I.rdeep(v)) if not isinstance(v, Top) else v
            if isinstance(vals, Top):
                out.n += 1
                out.add('und', 'unknown', f'{vals!r:.100}')
                continue
            if len(vals) != len(names):
                out.n += 1
                out.add('bad', 'output', f'{len(vals)} results for {len(names)} arguments', cond)
                continue
            total = Poly.const(0)
            offs = []
            for a in args:
                offs.append(total)
                total = total + topoly(T.size_of(a))
            for n, a, o, q in zip(names, args, offs, vals):
                seed_ok(I, n, a, o, total, I.rdeep(q), wt.get(n, ONE), sparse, out, cond)
    except AbsRaise as e:
        out.n += 1
        out.add('und' if I.notes else 'bad', 'raise', f'raises {exc_name(e)} at {e.where}')
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {I.where()}')
    out.reach = set(I.reach)
    return out, r


def place(l):
    """(base, total, low, high, component, of) of an axis label that ranges over flat input positions; None for other labels."""
    comp = None
    if l and l[0] == 'div':
        comp = (l[2], l[3])
        l = l[1]
    lo = hi = None
    if l and l[0] == 'rng':
        lo, hi, n = l[2], l[3], l[4]
        l = l[1]
    if l and l[0] == 'O' and isinstance(l[1], tuple) and l[1][0] == 'full':
        l = ('eye', l[1][1])
    if not l or l[0] != 'eye' or len(l) != 2:
        return None
    n = topoly(l[1])
    return n, ZERO if lo is None else topoly(lo), n if hi is None else topoly(hi), comp


def seed_ok(I, name, a, off, total, q, w, sparse, out, cond):
    def rep(part, s, m):
        out.n += 1
        if s == 'ok':
            out.ok += 1
        else:
            out.add(s, part, f'argument {name}: {m}', cond)
    if not (isinstance(q, NT) and q.cls.name == 'FwdLaplArray'):
        rep('struct', 'bad' if isinstance(q, Arr) else 'und', f'no derivatives are attached: {q!r:.80}')
        return
    x, j, lap = q.items
    rep('value', *O.diff(I, x, a))
    zero = a.but(blocks={k: ZERO for k in a.blocks}, cval=None)
    rep('lap', *O.diff(I, lap, zero))
    if not isinstance(j, NT) or not isinstance(j.items[0], Arr):
        rep('jac', 'und', f'{j!r:.80}')
        return
    data, idx = j.items
    if sparse != (idx is not None):
        rep('mode', 'bad', 'the Jacobian is dense although sparsity is enabled' if sparse else 'the Jacobian is sparse although sparsity is disabled')
        return
    rep('dtype', 'ok' if not O.definite(data.dt) or data.dt == a.dt else 'bad', f'Jacobian of dtype {data.dt} for an argument of dtype {a.dt}')
    lead = ONE if sparse else total
    want = (norm(lead),) + tuple(a.shape())
    for t, what in ((data, 'Jacobian'), (idx, 'index pattern')):
        if isinstance(t, Arr):
            ok = t.rank == a.rank + 1 and all(topoly(s) == topoly(v) for s, v in zip(t.shape(), want))
            rep('shape', 'ok' if ok else 'bad', f'{what} of shape {t.shape()} instead of {want}')
            if not ok:
                return
    if sparse:
        cs = {c if isinstance(c, Poly) else None for c in data.blocks.values()}
        rep('jac', 'ok' if cs == {w} else 'und' if None in cs else 'bad', f'the stored derivative is {cs} instead of the weight {w!r}')
        if not isinstance(idx, Arr):
            rep('mask', 'und', f'{idx!r:.80}')
            return
        if idx.stage == 'jx':
            rep('stage', 'bad', 'the index pattern is a traced value')
        if idx.cval is not None and off.as_const() is not None and isinstance(flat_consts(idx.cval), list):
            fl, o = flat_consts(idx.cval), int(off.as_const())
            rep('mask', 'ok' if fl == list(range(o, o + len(fl))) else 'bad', f'the index pattern is {fl} instead of {o}, {o + 1}, ...')
            return
        cont = {c for c in idx.blocks.values()}
        if total == ONE:
            rep('mask', 'ok' if cont == {ZERO} or {type(c) for c in cont} == {tuple} else 'bad', f'the index pattern of the only entry is {cont}')
            return
        one = next(iter(cont))
        if len(cont) == 1 and isinstance(one, tuple) and one[0] in ('first', 'at') and one[1] == ('O', one[-1]) and one[-1] == ('full', norm(total)):
            at = ZERO if one[0] == 'first' else topoly(one[2])
            rep('mask', 'ok' if at == off and topoly(T.size_of(a)) == ONE else 'bad', f'the index pattern holds position {at} instead of {off}')
            return
        good = len(cont) == 1 and isinstance(next(iter(cont)), tuple) and next(iter(cont))[0] == 'full'
        if not good:
            rep('mask', 'und', f'index pattern {idx!r:.120}')
            return
        if topoly(next(iter(cont))[1]) != total:
            rep('mask', 'bad', f'the index pattern counts up to {next(iter(cont))[1]} instead of {total}')
            return
        rep('mask', *positions(a, idx.axes[1:], off, total))
        return
    # dense: weight on the diagonal
    if total == ONE:
        cs = set(data.blocks.values())
        rep('jac', 'ok' if cs == {w} else 'bad', f'the derivative is {cs} instead of the weight {w!r}')
        return
    lab = data.axes[0]
    if len(lab) != 1 or place(lab[0][0]) is None:
        rep('jac', 'und', f'leading Jacobian axis {lab!r:.100}')
        return
    n, lo, hi, comp = place(lab[0][0])
    if comp is not None or n != total or lo != ZERO or hi != total:
        rep('jac', 'bad', f'the leading Jacobian axis does not range over all {total} input entries')
        return
    for c in data.blocks.values():
        if not isinstance(c, Poly):
            rep('jac', 'und', f'{c!r:.80}')
            return
        d = [at for at in c.atoms() if at[0] == 'app' and at[1] == 'ind' or at[0] == 'ind']
        if len(d) != 1 or 'delta' not in str(d[0]):
            rep('jac', 'bad' if not d else 'und', f'the Jacobian holds {c!r:.100} instead of the weight on the diagonal')
            return
        if c != w * Poly.atom(d[0]):
            rep('jac', 'bad', f'the Jacobian holds {c!r:.100} instead of the weight {w!r} on the diagonal')
            return
    rep('jac', *positions(a, data.axes[1:], off, total))


def flat_consts(n):
    if isinstance(n, tuple):
        r = []
        for x in n:
            y = flat_consts(x)
            if y is None:
                return None
            r += y
        return r
    return [n] if isinstance(n, int) else None


def positions(a, axes, off, total):
    """Do the axes enumerate the flat positions off .. off+size in row-major order?"""
    size = topoly(T.size_of(a))
    seen = []
    for d, ax in enumerate(axes):
        if len(ax) != 1:
            return 'und', f'axis {d} consists of several pieces'
        l, n = ax[0]
        if n == ONE:
            continue
        p = place(l) if l is not None else None
        if p is None:
            return 'und', f'axis {d} ranges over {l!r:.80}'
        tot, lo, hi, comp = p
        if tot != total:
            return 'bad', f'axis {d} ranges over {tot} positions instead of {total}'
        if lo != off or hi != off + size:
            return 'bad', f'its entries are positions {lo!r} to {hi!r} instead of {off!r} to {off + size!r}'
        seen.append((d, comp))
    if len(seen) > 1:
        cs = [c for _, c in seen]
        if None in cs or len({c[1] for c in cs}) > 1:
            return 'und', 'the order of the positions'
        if [c[0] for c in cs] != sorted(c[0] for c in cs):
            return 'bad', 'the positions are not in row-major order'
    elif not seen and total != ONE:
        return 'ok', None       # a single entry: its position is decided by the concrete-size configurations
    return 'ok', None
