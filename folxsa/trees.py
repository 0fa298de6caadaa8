"""Tree helpers compared with the named operation applied leaf by leaf."""
import ast

from .world import *
from .values import *
from .m_jax import flatten, unflatten
from . import oracle as O, tensor as T
from .interp import AbsRaise, Unknown, Budget
from .rules import exc_name

MOD = 'folx.tree_utils'
C_ = Dt('c', 'p')

# arrangement: nested dict/list/tuple of leaf names / None ; shapes of the leaves
TREES = {
    'array': ('p', {'p': ['a', 'b']}),
    'list': (['p', 'q'], {'p': ['a', 'b'], 'q': ['a', 'c']}),
    'tuple': (('p', 'q', 'r'), {'p': ['a', 'b'], 'q': ['a', 'b'], 'r': ['a', 'c']}),
    'dictionary': ({'q': 'p', 'p': 'q'}, {'p': ['a', 'b'], 'q': ['a', 'c', 'd']}),
    'nested': ({'w': ['p', ('q', None)], 'b': {'u': 'r'}}, {'p': ['a', 'b'], 'q': ['a', 'c', 'd'], 'r': ['a', 'e']}),
    'repeated': (('p', ['p']), {'p': ['a', 'b']}),
    'numbers': (('p', {'u': 'q'}), {'p': [], 'q': ['a']}),
    'one leaf': ((('p',),), {'p': ['a', 'b', 'c']}),
}


def build(I, t, leaf):
    if isinstance(t, str):
        return leaf(t)
    if isinstance(t, dict):
        return I.new_dict(tuple((k, build(I, x, leaf)) for k, x in t.items()))
    if isinstance(t, list):
        return I.new_list(tuple(build(I, x, leaf) for x in t))
    if isinstance(t, tuple):
        return tuple(build(I, x, leaf) for x in t)
    return t


def add(I, x, y):
    return I.binop(ast.Add(), x, y)


def sub(I, x, y):
    return I.binop(ast.Sub(), x, y)


def mul(I, x, y):
    return I.binop(ast.Mult(), x, y)


def sl(lo, hi, st=None):
    return SliceV(lo, hi, st)


def take_ref(I, x, idx, axis):
    if isinstance(idx, SliceV):
        d = axis % x.rank
        return I.getitem(x, (SliceV(None, None, None),) * d + (idx,))
    return I.call(ExtV('jnp.take'), (x, idx), {'axis': axis})


def units():
    """name -> (tree, operation, parameters, dtype)"""
    U = {}
    for t in TREES:
        for dn, dt in (('', F), (' complex', C_)):
            for op in ('tree_scale', 'tree_shift', 'tree_mul', 'tree_add'):
                for by in ('number', 'scalar', 'int'):
                    U[f'{op} {t} by {by}{dn}'] = (t, op, by, dt)
            for op in ('tree_mul', 'tree_add', 'tree_sub'):
                U[f'{op} {t} by tree{dn}'] = (t, op, 'tree', dt)
        for op in ('tree_scale', 'tree_shift', 'tree_mul', 'tree_add'):
            U[f'{op} {t} by numpy scalar'] = (t, op, 'np', F)
        for op in ('tree_dot', 'tree_sum', 'tree_squared_norm'):
            U[f'{op} {t}'] = (t, op, None, F)
        U[f'tree_dot {t} with itself'] = (t, 'tree_dot', 'self', F)
        U[f'tree_sum {t} complex'] = (t, 'tree_sum', None, C_)
        if t == 'numbers':
            continue                    # the remaining helpers need an axis
        for n in (1, 2, 3):
            for ax in ('default', 0, 1, -1):
                if (ax in (1, -1)) and t not in ('array', 'one leaf', 'list', 'repeated', 'nested'):
                    continue
                U[f'tree_concat {n} {t} axis {ax}'] = (t, 'tree_concat', (n, ax), F)
        for ss in ((2,), (2, 3), (1, 2, 3), (), (0, 4), (3, 0, 1)):
            U[f'tree_split {t} {ss}'] = (t, 'tree_split', ss, F)
        U[f'tree_split {t} list of sizes'] = (t, 'tree_split', [2, 3], F)
        for nm, ix in (('0', 0), ('1', 1), ('-1', -1), ('slice', sl(1, 3)), ('head', sl(None, 2)), ('tail', sl(1, None)), ('pair', (0, 1)), ('second axis', (sl(None, None), 0)),
                       ('last axis', (Ellipsis, 0)), ('new axis', None), ('all', Ellipsis)):
            U[f'tree_idx {t} {nm}'] = (t, 'tree_idx', ix, F)
        for ax in (0, 1, -1, (0, 1)):
            U[f'tree_expand {t} {ax}'] = (t, 'tree_expand', ax, F)
        for nm, ix in (('0', 0), ('1', 1), ('slice', sl(1, 3)), ('head', sl(None, 2)), ('tail', sl(1, None)), ('last', sl(-1, None)), ('all', sl(None, None))):
            for ax in (0, 1, -1, -2):
                U[f'tree_take {t} {nm} axis {ax}'] = (t, 'tree_take', (ix, ax), F)
    return U


def run(project, uid):
    t, op, par, dt = units()[uid]
    W = World(project)
    I = W.I
    out = O.Outcome()
    shape_t, shapes = TREES[t]
    big = op in ('tree_split', 'tree_idx', 'tree_take')

    def size(s):
        return (s, 9) if big and s in ('a',) else (s, 8) if big and s == 'b' else (s, 7) if big and s != 1 else s

    def arr_(pre, n, lead=None):
        ax = [size(s) for s in shapes[n]]
        if lead is not None:
            d, i = lead
            ax[d] = f'{ax[d] if not isinstance(ax[d], tuple) else ax[d][0]}_{i}'
        return W.plain(pre + n, ax, dt)
    mem = {}

    def leaf(pre, lead=None):
        def f(n):
            if (pre, n) not in mem:
                mem[pre, n] = arr_(pre, n, lead)
            return mem[pre, n]
        return f
    x = build(I, shape_t, leaf('x_'))
    xs, td = flatten(I, x)
    try:
        kw = {}
        if op in ('tree_scale', 'tree_shift', 'tree_mul', 'tree_add', 'tree_sub'):
            o = {'tree_scale': mul, 'tree_mul': mul, 'tree_shift': add, 'tree_add': add, 'tree_sub': sub}[op]
            if par == 'tree':
                y = build(I, shape_t, leaf('y_'))
                ys = flatten(I, y)[0]
            else:
                y = {'number': 2.5, 'int': 3, 'scalar': W.plain('s', [], dt), 'np': W.plain('s', [], Dt('f', 'p'), 'np')}[par]
                ys = [y] * len(xs)
            args = (x, y)
            want = [o(I, a, b) for a, b in zip(xs, ys)]
            wt = td
        elif op in ('tree_dot', 'tree_sum', 'tree_squared_norm'):
            args = (x,)
            ys = None
            if op == 'tree_dot':
                y = x if par == 'self' else build(I, shape_t, leaf('y_'))
                ys = flatten(I, y)[0]
                args = (x, y)
            if op == 'tree_squared_norm':
                ys = xs
            terms = [I.call(ExtV('jnp.sum'), (a if ys is None else mul(I, a, ys[i]),), {}) for i, a in enumerate(xs)]
            r = terms[0]
            for v in terms[1:]:
                r = add(I, r, v)
            want, wt = [r], ('leaf',)
        elif op == 'tree_concat':
            n, ax = par
            d = 0 if ax == 'default' else ax
            ts = [build(I, shape_t, leaf(f'x{i}_', (d, i))) for i in range(n)]
            fl = [flatten(I, v)[0] for v in ts]
            args = (I.new_list(tuple(ts)),)
            if ax != 'default':
                kw = {'axis': ax}
            want = [I.call(ExtV('jnp.concatenate'), (I.new_list(tuple(f[i] for f in fl)),), {'axis': d}) for i in range(len(xs))]
            wt = td
        elif op == 'tree_split':
            args = (x, I.new_list(tuple(par)) if isinstance(par, list) else par)
            want, pos = [], 0
            wt = ('tuple', None, (td,) * (len(par) + 1))
            ends = []
            for s in list(par) + [None]:
                ends.append((pos, None if s is None else pos + s))
                pos += s or 0
            for lo, hi in ends:
                want += [I.getitem(v, sl(lo, hi)) for v in xs]
            wt = flatten(I, tuple(x for _ in ends))[1]
        elif op == 'tree_idx':
            args = (x, par)
            want = [I.getitem(v, par) for v in xs]
            wt = td
        elif op == 'tree_expand':
            args = (x, par)
            want = [I.call(ExtV('jnp.expand_dims'), (v, par), {}) for v in xs]
            wt = td
        elif op == 'tree_take':
            ix, ax = par
            args = (x, ix, ax)
            want = [take_ref(I, v, ix, ax) for v in xs]
            wt = td
        want = [I.rdeep(w) for w in want]
        if any(not isinstance(w, Arr) for w in want):
            raise Unknown(f'reference {want!r:.100}')
    except AbsRaise:
        return out                      # the operation is not defined for these leaves
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'ref', f'reference: {type(e).__name__} {e} {getattr(e, "where", "")}')
        return out
    try:
        res = I.call(W.attr(MOD, op), args, kw)
        for cond, r in O.leaves(I, I.rdeep(res)):
            out.n += 1
            got, gt = flatten(I, r)
            if gt != wt:
                out.add('bad', 'tree', f'the result is arranged as {gt!r:.100} instead of {wt!r:.100}', cond)
                continue
            good = True
            for i, (g, w) in enumerate(zip(got, want)):
                s, m = O.diff(I, g, w)
                if s == 'ok' and isinstance(g, Arr) and O.definite(g.dt) and O.definite(w.dt) and g.dt != w.dt:
                    s, m = 'bad', f'dtype {g.dt} instead of {w.dt}'
                if s != 'ok':
                    good = False
                    out.add('und' if O.uncertain(cond) else s, 'leaf', f'{op}, leaf {i}: {m}', cond)
            out.ok += good
    except AbsRaise as e:
        out.n += 1
        out.add('und' if I.notes else 'bad', 'raise', f'{op} raises {exc_name(e)} at {e.where}')
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {I.where()}')
    out.reach = set(I.reach)
    return out
