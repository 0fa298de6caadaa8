"""Comparison of an abstract result with the calculus it has to implement.

The reference for operation f at operands x_i with derivatives (J_i, L_i) is obtained from the library model of f alone:
    value      f(x)
    Jacobian   d/de            f(x + e J)
    Laplacian  d^2/de1 de2     f(x + e1 J + e2 J)   +   d/de f(x + e L)
(products of Jacobian symbols stand for the contraction over the inputs).
"""
from .poly import Poly, ZERO, ONE
from .values import *
from .interp import AbsRaise, Unknown, Budget
from . import tensor as T
from .m_np import arr, simp, simp_arr
from .m_jax import flatten, unflatten, split_out, new_eps


class Issue:
    """part: value / jac / mask / lap1 / lap2 / lap / shape / dtype / struct / raise"""
    __slots__ = ('part', 'msg', 'cond')

    def __init__(self, part, msg, cond=()):
        self.part, self.msg, self.cond = part, msg, cond

    def __repr__(self):
        return f'{self.part}: {self.msg}' + (f'   [when {"; ".join(show_guard(g, v) for g, v in self.cond)}]' if self.cond else '')


def show_guard(g, v):
    s = str(g[1]) if g[0] in ('gt', 'eq0') else str(g)
    s = {'gt': s + ' > 0', 'eq0': s + ' == 0'}.get(g[0], s)
    return ('' if v else 'not ') + s[:160]


class Outcome:
    def __init__(self):
        self.bad, self.und, self.n, self.ok = [], [], 0, 0

    def add(self, kind, part, msg, cond=()):
        i = Issue(part, msg, tuple(cond))
        l = self.bad if kind == 'bad' else self.und
        if repr(i) not in [repr(x) for x in l]:
            l.append(i)


# ------------------------------------------------------------------ guarded alternatives
def leaves(I, v, cond=()):
    """All guard-free alternatives of a value: [(conditions, value)]."""
    g = I.find_phi((v,), True)
    if g is None:
        yield cond, v
        return
    for val in (True, False):
        r = I.restrict((v,), g, val)[0]
        yield from leaves(I, r, cond + ((g, val),))


def uncertain(cond):
    return any(g[0] not in ('gt', 'eq0', 'raises') for g, _ in cond)


def zero_jac(cond):
    """Do the path conditions say that no output depends on any input?"""
    for g, v in cond:
        if g[0] == 'eq0' and v:
            at = list(g[1].atoms())
            if len(at) == 1 and at[0][0] == 'n' and 'cnt' in str(at[0][1]):
                return True
    return False


def count_sets(g):
    out = set()

    def walk(t):
        if isinstance(t, tuple):
            if t and t[0] == 'cnt':
                out.add(t[1])
            for x in t:
                walk(x)
        elif isinstance(t, frozenset):
            for x in t:
                walk(x)
    for a in g[1].atoms():
        walk(a)
    return out


# ------------------------------------------------------------------ reference
def mkref(I, fn, ops):
    """ops: list of plain Arr or FwdLaplArray NT.  -> (value, jac, lap1, lap2) pytrees of Arr."""
    e1, e2, e3 = new_eps(I), new_eps(I), new_eps(I)
    args = []
    for o in ops:
        if isinstance(o, NT):
            x, j, l = o.items
            jn = jac_symbol(j)
            k = {}
            for kk, c in x.blocks.items():
                lc = l.blocks[kk]
                k[kk] = c + jn * Poly.atom(e1) + jn * Poly.atom(e2) + lc * Poly.atom(e3)
            args.append(x.but(blocks=k, stage='jx', cval=None))
        else:
            args.append(o)
    y = fn(*args)
    y = I.rdeep(y)
    outs = []
    for cond, yy in leaves(I, y):
        l, t = flatten(I, yy)
        res = []
        for z in l:
            if isinstance(z, Top):
                res.append(None)
                continue
            z = arr(I, z)
            v, j, l1, l2 = {}, {}, {}, {}
            for kk, c in z.blocks.items():
                if not isinstance(c, Poly):
                    v[kk], j[kk], l1[kk], l2[kk] = c, None, None, None
                    continue
                c, c3 = c.coef_eps(e3)
                a, b1 = c.coef_eps(e1)
                a, b2 = a.coef_eps(e2)
                b1, b12 = b1.coef_eps(e2)
                v[kk], j[kk], l1[kk], l2[kk] = a, b1, drop_eps(c3), b12
            res.append(tuple(z.but(blocks=q, cval=None) for q in (v, j, l1, l2)))
        outs.append((cond, res, t))
    return outs


def drop_eps(p):
    return Poly({m: c for m, c in p.t.items() if not any(a[0] == 'eps' for a, _ in m)})


def jac_symbol(j):
    d = j.items[0]
    c = next(iter(d.blocks.values()))
    return T.densify(c)


# ------------------------------------------------------------------ comparison
def absnorm(p):
    """Normal form for moduli: conj(z) -> |z|^2 / z wherever |z| occurs."""
    zs = {a[2][0].atoms().pop() for a in p.all_atoms() if a[0] == 'app' and a[1] == 'abs' and isinstance(a[2][0], Poly)
          and len(a[2][0].t) == 1 and a[2][0] == Poly.atom(next(iter(a[2][0].atoms())))}
    if not zs:
        return p
    ab = {a[2][0].atoms().pop(): a for a in p.all_atoms() if a[0] == 'app' and a[1] == 'abs'}

    def f(a):
        if a[0] == 'conj' and a[1] in zs:
            return Poly.atom(ab[a[1]], 2) * Poly.atom(a[1], -1)
        return None
    return p.subst(f)


def diff(I, a, b):
    """Compare two value arrays. -> ('ok'|'bad'|'und', message)"""
    if isinstance(a, Top) or a is None or not isinstance(a, Arr):
        if isinstance(a, (int, float, Poly, complex)) and not isinstance(a, bool):
            a = T.lift_scalar(a)
        else:
            return 'und', f'{a!r:.80}'
    if a.axes is None:
        return 'und', 'unknown rank'
    if a.rank != b.rank:
        return 'bad', f'shape {a.shape()} instead of {b.shape()}'
    for p, q in zip(a.shape(), b.shape()):
        if topoly(p) != topoly(q):
            return 'bad', f'shape {a.shape()} instead of {b.shape()}'
    try:
        r = T.pointwise(I, [T.absorb(a), T.absorb(b)], lambda x, y: (x - y) if isinstance(x, Poly) and isinstance(y, Poly) else None, a.dt, 'jx')
    except AbsRaise:
        return 'bad', f'shape {a.shape()} instead of {b.shape()}'
    und = None
    for kk, c in r.blocks.items():
        if c is None:
            und = 'unknown contents'
            continue
        if c.bad():
            return 'bad', c.bad()
        if not c.is_zero() and not absnorm(c).is_zero():
            return 'bad', f'{show_block(a)} instead of {show_block(b)}'
    # axis meaning
    for d, (x, y) in enumerate(zip(T.absorb(a).axes, T.absorb(b).axes)):
        if len(x) == len(y):
            for (l1, n1), (l2, n2) in zip(x, y):
                if l1 != l2 and l1 is not None and l2 is not None and n1 != ONE:
                    return 'bad', f'axis {d} ranges over {T.show_label(l1)} instead of {T.show_label(l2)}'
                if l1 is None and l2 is not None and n1 != ONE and any(isinstance(c, Poly) and T.depends(I, c, l2) for c in a.blocks.values()):
                    und = und or f'axis {d} not tracked'
    return ('und', und) if und else ('ok', None)


def show_block(a):
    b = a.blocks
    s = repr(list(b.values())[0]) if len(b) == 1 else repr(b)
    return s[:300]


def jac_terms(c):
    """Stored-Jacobian atoms of a content (also inside function applications)."""
    out = set()
    for a in c.all_atoms():
        if a[0] == 'S':
            out.add(a)
    return out


def names_of_mask(t):
    return t[1] if isinstance(t[1], frozenset) else {t[1]}


def check_pattern(I, data, mask):
    """Does the index pattern name the input of every stored value? -> (status, message)"""
    if mask.axes is None or data.axes is None:
        return 'und', 'unknown pattern'
    try:
        if data.rank != mask.rank:
            return 'bad', f'index pattern has rank {mask.rank}, data rank {data.rank}'
        for p, q in zip(data.shape(), mask.shape()):
            if topoly(p) != topoly(q) and topoly(q) != ONE:
                return 'bad', f'index pattern shape {mask.shape()} does not match the data {data.shape()}'
        pairs = {}
        axes, maps = [], []
        d2, m2 = T.absorb(data), T.absorb(mask)
        for x, y in zip(d2.axes, m2.axes):
            ax, m, ok = T.unify_axes(I, [x, y])
            if not ok:
                return 'bad', f'index pattern axes {m2!r:.200} do not correspond to the data axes {d2!r:.200}'
            axes.append(ax)
            maps.append(m)
    except AbsRaise as e:
        return 'bad', f'index pattern shape {mask.shape()} does not match the data {data.shape()}'
    for x, y in zip(d2.axes, m2.axes):
        if len(x) == len(y):
            for (l1, n1), (l2, n2) in zip(x, y):
                if l1 is not None and l2 is not None and l1 != l2 and not (T.klike(l1) and T.klike(l2)):
                    return 'bad', f'index pattern axis {T.show_label(l2)} is paired with data axis {T.show_label(l1)}'
    for k in T.keys(axes):
        c = d2.blocks[tuple(maps[d][0][k[d]] for d in range(len(axes)))]
        t = m2.blocks[tuple(maps[d][1][k[d]] for d in range(len(axes)))]
        pairs[k] = (c, t)
    und = None
    for k, (c, t) in pairs.items():
        if c is None or t is None:
            und = 'unknown contents'
            continue
        if not isinstance(c, Poly):
            und = 'unknown contents'
            continue
        if c.bad():
            return 'bad', c.bad()
        t = simp(I, t)
        s, m = pair(I, c, t, axes[0][k[0]][0])
        if s == 'bad':
            return s, m
        if s == 'und':
            und = m
    return ('und', und) if und else ('ok', None)


def pair(I, c, t, kl):
    at = jac_terms(c)
    if isinstance(t, Poly):
        if not at and c.is_zero():
            return 'ok', None
        if t == Poly.const(-1) and (at or not c.is_zero()):
            return 'bad', f'values {c!r:.100} are filed under the padding index -1'
        return 'und', f'constant index {t!r:.60}'
    if c.is_zero():
        return 'ok', None
    if not at:
        return 'und', f'untracked data {c!r:.80}'
    if t[0] in ('trunc', 'badfill'):
        return 'bad', ('the index set may be cut short' if t[0] == 'trunc' else 'index set padded with a valid index')
    apps = {a for a in c.all_atoms() if a[0] == 'app' and isinstance(a[5], tuple) and a[5][0] == 'op' and any(isinstance(p, Poly) and jac_terms(p) for p in a[2])}
    if t[0] == 'F' and t[1] == 'select' and not any(a[1].split('#')[0] == 'select' for a in apps):
        # the case that the predicate picks: data and index pattern must agree on each
        b, cases = t[2][0].split_eps()[0], t[2][1:]
        if not any(a[0] == 'app' and a[1].startswith('ind') and a[2] == (b,) for a in c.all_atoms()):
            return 'bad', f'index pattern re-arranged by {t[1]}, data are not'
        und = None
        for i, ti in enumerate(cases):
            def on(a, i=i):
                if a[0] == 'app' and a[1].startswith('ind') and a[2] == (b,):
                    j = int(a[1][3:]) if a[1] != 'ind' else 1
                    return ONE if i == j else ZERO
            s, m = pair(I, c.subst(on), simp(I, ti), kl)
            if s == 'bad':
                return s, m
            und = und or (m if s == 'und' else None)
        return ('und', und) if und else ('ok', None)
    if t[0] == 'F':
        for a in apps:
            if a[1].split('#')[0] != t[1].split('#')[0]:
                return 'bad', f'data re-arranged by {a[1]}, index pattern by {t[1]}'
        if not apps:
            return 'bad', f'index pattern re-arranged by {t[1]}, data are not'
        ms = set()
        for x in t[2]:
            if isinstance(x, tuple):
                ms |= set(all_masks(x))
        for a in at:
            if a[2][0] == 'M' and a[2][1] not in ms:
                return 'bad', f'data of {a[1]} use pattern {a[2]}, the result carries {t}'
        return 'ok', None
    for a in at:
        u = simp(I, a[2])
        if u != t:
            return 'bad', f'values of {a[1]} are stored for index set {show_t(u)} but the pattern says {show_t(t)}'
        if t[0] == 'I':
            return 'bad', 'only inputs common to all operands are stored'
        if t[0] in ('U', 'R') and not own_mask(I, a[1]) <= set(names_of_mask(t)):
            return 'bad', f'index set {show_t(t)} lacks inputs of {a[1]}'
    return 'ok', None


def own_mask(I, name):
    return {'m' + name} if ('M', 'm' + name) in I.models.deps else set()


def all_masks(t):
    if isinstance(t, tuple):
        if t and t[0] == 'M':
            yield t[1]
        elif t and t[0] in ('U', 'I', 'R') and isinstance(t[1], frozenset):
            for x in t[1]:
                if isinstance(x, str):
                    yield x
        else:
            for x in t:
                yield from all_masks(x)
    elif isinstance(t, frozenset):
        for x in t:
            yield from all_masks(x)


def show_t(t):
    if t[0] in ('U', 'I', 'R'):
        return {'U': 'union', 'I': 'intersection', 'R': 'union'}[t[0]] + '(' + ','.join(sorted(map(str, t[1]))) + ')'
    return str(t)


def dense_ref(I, jref, data, sparse):
    """Reference Jacobian with the same leading axis as data."""
    lead = data.axes[0]
    r = T.expand(I, jref, 0)
    blocks = {}
    for k, c in r.blocks.items():
        for i in range(len(lead)):
            blocks[(i,) + k[1:]] = ZERO if lead[i][0] == T.PAD else c
    return r.but(axes=(lead,) + r.axes[1:], blocks=blocks, cval=None)


def segments_sum(I, dd, jac):
    """Several groups of stored entries, each filed under the inputs it depends on, that add up to the Jacobian."""
    lead = dd.axes[0]
    segs = [i for i in range(len(lead)) if lead[i][0] != T.PAD]
    if len(segs) < 2:
        return False
    blocks = {}
    for k, c in dd.blocks.items():
        if k[0] in segs:
            if not isinstance(c, Poly):
                return False
            blocks[k[1:]] = blocks.get(k[1:], ZERO) + c
    tot = Arr(dd.axes[1:], blocks, dd.dt, dd.stage)
    # every group holds whole terms of the sum: terms of different groups belong to different operands
    names = [{t for k, c in dd.blocks.items() if k[0] == i for t in jac_names(c)} for i in segs]
    if any(a & b for i, a in enumerate(names) for b in names[i + 1:]):
        return False
    return diff(I, tot, jac)[0] == 'ok'


def jac_names(p):
    out = set()

    def f(a):
        if a[0] in ('v', 'S') and isinstance(a[1], str) and a[1].startswith('J'):
            out.add(a[1])
        if a[0] == 'conj':
            f(a[1])
        if a[0] == 'app':
            for q in a[2]:
                if isinstance(q, Poly):
                    for x in q.atoms():
                        f(x)
    if isinstance(p, Poly):
        for x in p.atoms():
            f(x)
    return out


def to_dense(c):
    if not isinstance(c, Poly):
        return c
    return dens(c)


def dens(p):
    """Replace stored data atoms by the dense symbol, also inside applications."""
    def f(a):
        if a[0] == 'S':
            return Poly.atom(('v', a[1], a[3]))
        if a[0] == 'conj':
            r = f(a[1])
            return r.conj() if r is not None else None
        if a[0] == 'app' and any(isinstance(q, Poly) and jac_terms(q) for q in a[2]):
            return Poly.atom(a[:2] + (tuple(dens(q) if isinstance(q, Poly) else q for q in a[2]),) + a[3:])
        return None
    return p.subst(f)


def check_result(I, res, refs, out, need=None, dt=True):
    """res: value returned by the rule; refs: result of mkref; need: 'plain' for derivative-free operations."""
    FL = 'FwdLaplArray'
    res = I.rdeep(res)
    for cond, r in leaves(I, res):
        dead = uncertain(cond)
        rl, rt = split_lapl(I, r)
        for rcond, ref, t in refs:
            out.n += 1
            if rl is None:
                out.add('und', 'struct', f'result {r!r:.100}', cond)
                continue
            if len(rl) != len(ref):
                out.add('und' if dead else 'bad', 'struct', f'{len(rl)} results instead of {len(ref)}', cond)
                continue
            good = True
            for q, rf in zip(rl, ref):
                if rf is None:
                    out.add('und', 'struct', 'no reference', cond)
                    good = False
                    continue
                for part, s, m in check_one(I, q, rf, cond, need, dt):
                    if s != 'ok':
                        good = False
                        if part in ('lap1', 'lap2', 'lap') and s == 'bad' and uncertain(cond):
                            s = 'und'
                        elif dead:
                            s = 'und'
                        out.add(s, part, m, cond)
            if good:
                out.ok += 1
    return out


def split_lapl(I, r):
    """Leaves of a result with FwdLaplArray as leaf."""
    def rec(v):
        if isinstance(v, NT) and v.cls.name == 'FwdLaplArray':
            return [v]
        if isinstance(v, (tuple, list)):
            o = []
            for x in v:
                y = rec(x)
                if y is None:
                    return None
                o += y
            return o
        if isinstance(v, NT):
            return rec(tuple(v.items))
        if isinstance(v, Ref):
            o = I.deref(v)
            if type(o).__name__ == 'ListObj':
                return rec(tuple(o.items))
            return None
        if isinstance(v, Top):
            return None
        return [v]
    return rec(r), None


def check_one(I, q, ref, cond, need=None, dt=True):
    val, jac, l1, l2 = ref
    if not (isinstance(q, NT) and q.cls.name == 'FwdLaplArray'):
        s, m = diff(I, q, val)
        yield 'value', s, m
        if need != 'plain':
            z = all(isinstance(c, Poly) and c.is_zero() for a in (jac, l1, l2) for c in a.blocks.values())
            if not z:
                yield 'struct', 'bad', 'a plain value without derivatives is returned although the derivative is not zero'
        elif not z_(jac):
            yield 'struct', 'bad', 'a plain value without derivatives is returned although the derivative is not zero'
        return
    x, j, lap = q.items
    s, m = diff(I, x, val)
    yield 'value', s, m
    if not isinstance(j, NT):
        yield 'jac', 'und', f'{j!r:.80}'
        return
    data, mask = j.items
    if not isinstance(data, Arr) or data.axes is None:
        yield 'jac', 'und', f'{data!r:.80}'
    elif data.rank != val.rank + 1:
        yield 'jac', 'bad', f'Jacobian shape {data.shape()} for a value of shape {val.shape()}'
    else:
        dd = data.but(blocks={k: to_dense(c) for k, c in data.blocks.items()}, cval=None)
        s, m = diff(I, dd, dense_ref(I, jac, data, mask is not None))
        if s == 'bad' and isinstance(mask, Arr) and segments_sum(I, dd, jac):
            s, m = 'ok', ''
        yield 'jac', s, m
        if mask is None:
            for k, c in data.blocks.items():
                if isinstance(c, Poly) and jac_terms(c):
                    yield 'mask', 'bad', f'sparsely stored values {c!r:.100} are returned as a dense Jacobian'
                    break
        elif isinstance(mask, Arr):
            if mask.stage == 'jx':
                yield 'stage', 'bad', 'the index pattern is a traced value'
            s, m = check_pattern(I, data, mask)
            yield 'mask', s, m
        else:
            yield 'mask', 'und', f'{mask!r:.80}'
    if isinstance(lap, Arr) and lap.axes is not None:
        both = T.pointwise(I, [l1, l2], lambda a, b: a + b, l1.dt, 'jx')
        s, m = diff(I, lap, both)
        if s == 'bad' and zero_jac(cond):
            if diff(I, lap, l1)[0] == 'ok':
                s = 'ok'
        part = 'lap'
        if s == 'bad':
            part = lap_part(I, lap, both)
        yield part, s, m
    else:
        yield 'lap', 'und', f'{lap!r:.80}'
    if dt:
        ds = [a.dt for a in (x, data, lap) if isinstance(a, Arr)]
        if len(ds) == 3:
            for a, n in ((data, 'Jacobian'), (lap, 'Laplacian')):
                if definite(a.dt) and definite(x.dt) and a.dt != x.dt:
                    yield 'dtype', 'bad', f'{n} has dtype {a.dt}, the value {x.dt}'
            if definite(x.dt) and definite(val.dt) and x.dt != val.dt:
                yield 'dtype', 'bad', f'value has dtype {x.dt} instead of {val.dt}'


def definite(d):
    return isinstance(d, Dt) and d.key not in ('?', 'weak', '0', 'def')


def z_(a):
    return all(isinstance(c, Poly) and c.is_zero() for c in a.blocks.values())


def lap_part(I, a, b):
    """Which part of the Laplacian is wrong: first-order (L terms) or second-order (J terms)."""
    try:
        r = T.pointwise(I, [a, b], lambda x, y: x - y, a.dt, 'jx')
    except (AbsRaise, TypeError):
        return 'lap'
    two = one = False
    for c in r.blocks.values():
        if c is None or c.bad():
            return 'lap2'
        for m in c.t:
            if T.jdeg(I, m):
                two = True
            else:
                one = True
    return 'lap' if one and two else 'lap1' if one else 'lap2'
