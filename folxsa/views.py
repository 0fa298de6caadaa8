"""Views and arithmetic of differentiated values, called directly: real, imag, conj, astype, dense, dense_jacobian, + of Jacobians."""
from .world import *
from . import oracle as O, tensor as T
from .rules import exc_name, PRECISIONS
from .values import *

AB = ['a', 'b']
C_ = Dt('c', 'p')


def plain_view(I, name, *args):
    def f(a):
        v = I.getattr(a, name)
        return I.call(v, args, {}) if name in ('conj', 'astype') else v
    return f


def viewed(name, *args):
    def f(W, x):
        I = W.I
        v = I.getattr(x, name)
        return I.call(v, args, {}) if name in ('conj', 'astype') else v
    return f


def units():
    U = {}
    for m in 'sd':
        for dn, dt in (('real', F), ('complex', C_)):
            for sh, spec in (('', AB), ('scalar', [])):
                for view, args in (('real', ()), ('imag', ()), ('conj', ()), ('astype', (Dt('f', 'q'),)), ('astype', (Dt('c', 'q'),)),
                                   ('astype', (Dt('i', '32'),)), ('astype', (Dt('b', 'b'),))):
                    if (view == 'imag' and dn == 'real') or (view == 'astype' and dn == 'complex' and args[0].kind != 'c'):
                        continue
                    tag = f'{view}{args[0].kind if args else ""}'
                    U[f'view {tag}[{m}:{dn}]{sh}'] = ('view', (m, spec, dt, view, args))
        for src, dst in PRECISIONS:
            U[f'view astype {dst}[{m}:{src}]'] = ('view', (m, AB, src, 'astype', (dst,)))
        for sh, spec in (('', AB), ('scalar', []), ('3d', ['a', 'b', 'c'])):
            U[f'dense[{m}]{sh}'] = ('dense', (m, spec))
            U[f'dense_jacobian[{m}]{sh}'] = ('dense_jacobian', (m, spec))
            U[f'dense_array[{m}]{sh}'] = ('dense_array', (m, spec))
            U[f'mask[{m}]{sh}'] = ('mask', (m, spec))
    for cst in ('a', 'b', 'c', 'ab', 'bc', 'ac', 'abc'):
        U[f'dense[s]3d const {cst}'] = ('dense', ('s', ['a', 'b', 'c']))
        U[f'dense_jacobian[s]3d const {cst}'] = ('dense_jacobian', ('s', ['a', 'b', 'c']))
    for m in ('ss', 'sd', 'ds', 'dd'):
        for sh, spec in (('', AB), ('scalar', [])):
            U[f'jacobian+[{m}]{sh}'] = ('add', (m, spec, None))
            if m == 'ss':
                U[f'jacobian+[{m}:same]{sh}'] = ('add', (m, spec, 'mJ0'))
    return U


def run(project, uid):
    kind, par = units()[uid]
    W = World(project)
    I = W.I
    out = O.Outcome()
    I.models.constant_axes = frozenset(('A', x) for x in uid.partition(' const ')[2])
    parts = None
    try:
        FL = W.attr('folx.api', 'FwdLaplArray')
        if kind == 'view':
            m, spec, dt, view, args = par
            x = W.lapl(0, spec, m == 's', dt=dt)
            refs = O.mkref(I, plain_view(I, view, *args), [x])
            need = 'plain' if args and args[0].kind in 'ib' else None
            res = viewed(view, *args)(W, x)
            O.check_result(I, res, refs, out, need)
        elif kind in ('dense', 'dense_jacobian', 'dense_array'):
            m, spec = par
            x = W.lapl(0, spec, m == 's')
            refs = O.mkref(I, lambda a: a, [x])
            if kind == 'dense':
                res = I.getattr(x, 'dense')
            else:
                d = I.getattr(x, kind) if kind == 'dense_jacobian' else I.getattr(x.items[1], kind)
                res = O_map(I, d, lambda v: NT(FL, (x.items[0], NT(x.items[1].cls, (v, None)), x.items[2])))
            O.check_result(I, res, refs, out)
            for cond, r in O.leaves(I, I.rdeep(res)):
                if isinstance(r, NT) and r.items[1].items[1] is not None:
                    out.add('bad', 'mask', 'the dense view keeps an index pattern', cond)
        elif kind == 'mask':
            m, spec = par
            x = W.lapl(0, spec, m == 's')
            v = I.getattr(x.items[1], 'mask')
            refs = O.mkref(I, lambda a: a, [x])
            res = O_map(I, v, lambda k: NT(FL, (x.items[0], NT(x.items[1].cls, (x.items[1].items[0], k)), x.items[2])))
            for cond, r in O.leaves(I, I.rdeep(res)):
                out.n += 1
                k = r.items[1].items[1]
                if not isinstance(k, Arr):
                    out.add('und', 'mask', f'{k!r:.80}', cond)
                    continue
                want = x.items[1].items[1]
                if k.stage == 'jx':
                    out.add('bad', 'stage', 'the index pattern is a traced value', cond)
                elif want is not None and (k.axes != want.axes or k.blocks != want.blocks):
                    out.add('bad', 'mask', 'mask differs from the stored index pattern', cond)
                elif want is None and not full_mask(I, k, x.items[1].items[0]):
                    out.add('bad' if plain_content(k) else 'und', 'mask', f'mask of a dense Jacobian is {k!r:.120}', cond)
                else:
                    out.ok += 1
        elif kind == 'add':
            m, spec, mask = par
            kw = {'mask': mask, 'kname': 'kJ0'} if mask else {}
            a = W.lapl(0, spec, m[0] == 's', **kw)
            b = W.lapl(1, spec, m[1] == 's', **kw)
            refs = O.mkref(I, W.ref_fn('add', {}), [a, b])
            j = I.call(I.getattr(a.items[1], '__add__'), (b.items[1],), {})
            pw = lambda p, q: T.pointwise(I, [p, q], lambda s, t: s + t, p.dt, 'jx')
            res = O_map(I, j, lambda v: NT(FL, (pw(a.items[0], b.items[0]), v, pw(a.items[2], b.items[2]))))
            O.check_result(I, res, refs, out)
    except AbsRaise as e:
        out.n += 1
        out.add('und' if W.I.notes else 'bad', 'raise', f'raises {exc_name(e)} at {e.where}')
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e}')
    out.reach = set(I.reach)
    return out


def O_map(I, v, f):
    v = I.rdeep(v)
    if isinstance(v, Phi):
        return Phi(v.g, O_map(I, v.a, f), O_map(I, v.b, f))
    return f(v)


def plain_content(k):
    return all(isinstance(c, tuple) or isinstance(c, Poly) for c in k.blocks.values())


def full_mask(I, k, data):
    if k.rank != data.rank or any(topoly(p) != topoly(q) for p, q in zip(k.shape(), data.shape())):
        return False
    n = topoly(data.shape()[0])
    return all(c == ('full', n) for c in k.blocks.values())
