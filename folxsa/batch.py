"""Batched vmap compared with vmap: the mapped function is an opaque stand-in, batch sizes are concrete (or symbolic), contents are symbolic."""
from .world import *
from .values import *
from .jaxprs import call_obj
from .m_jax import flatten, opaque_fn
from . import oracle as O, tensor as T
from .interp import AbsRaise, Unknown, Budget
from .rules import exc_name

SIZES = [(7, 3), (6, 3), (5, 4), (3, 3), (2, 3), (5, 1), (4, 2), (1, 1), (1, 4), (9, 5)]
B = 'batch'


def cases():
    """name -> (argument axes, tree of arguments, in_axes, outputs, out_axes, keyword arguments)"""
    U = {}
    one = {'x': [B, 'a']}
    U['one'] = (one, None, 0, 1, 0, ())
    U['one, default axes'] = (one, None, '-', 1, '-', ())
    U['last axis'] = ({'x': ['a', B]}, None, -1, 1, 0, ())
    U['middle axis'] = ({'x': ['a', B, 'b']}, None, 1, 1, 0, ())
    U['scalar elements'] = ({'x': [B]}, None, 0, 1, 0, ())
    U['two'] = ({'x': [B, 'a'], 'u': [B, 'b', 'c']}, None, 0, 1, 0, ())
    U['two axes'] = ({'x': [B, 'a'], 'u': ['b', B]}, None, (0, 1), 1, 0, ())
    U['list of axes'] = ({'x': [B, 'a'], 'u': ['b', B]}, None, [0, 1], 1, 0, ())
    U['unmapped first'] = ({'x': ['a'], 'u': [B, 'b']}, None, (None, 0), 1, 0, ())
    U['unmapped last'] = ({'x': [B, 'a'], 'u': ['b']}, None, (0, None), 1, 0, ())
    U['unmapped in the middle'] = ({'x': [B, 'a'], 'u': ['b'], 'w': ['c', B]}, None, (0, None, 1), 1, 0, ())
    U['unmapped around'] = ({'x': ['a'], 'u': ['b', B], 'w': ['c']}, None, (None, -1, None), 1, 0, ())
    U['unmapped with the batch size'] = ({'x': [B, 'a'], 'u': ['same']}, None, (0, None), 1, 0, ())
    U['two results'] = (one, None, 0, 2, 0, ())
    U['two results, axes'] = (one, None, 0, 2, (0, 1), ())
    U['two results, axes reversed'] = (one, None, 0, 2, (-1, 0), ())
    U['result on the last axis'] = (one, None, 0, 1, -1, ())
    U['result on the second axis'] = (one, None, 0, 1, 1, ())
    U['cube, last axis'] = ({'x': ['a', 'b', B], 'u': ['c', B, 'd', 'e']}, None, (2, 1), 1, 0, ())
    U['matrix result, last axis'] = (one, None, 0, 2, (0, -1), ())
    U['matrix result, third axis'] = (one, None, 0, 2, (1, 2), ())
    U['dictionary result'] = (one, None, 0, 'dict', {'p': 1, 'q': 0}, ())
    U['dictionary result, one axis'] = (one, None, 0, 'dict', 1, ())
    U['dictionary'] = ({'x': [B, 'a'], 'u': [B, 'b']}, 'dict', 0, 1, 0, ())
    U['dictionary, axes'] = ({'x': [B, 'a'], 'u': ['b', B]}, 'dict', ({'x': 0, 'u': 1},), 1, 0, ())
    U['dictionary, unmapped entry'] = ({'x': [B, 'a'], 'u': ['b']}, 'dict', ({'x': 0, 'u': None},), 1, 0, ())
    U['dictionary, unmapped entry first'] = ({'x': ['a'], 'u': [B, 'b']}, 'dict', ({'x': None, 'u': 0},), 1, 0, ())
    U['nested'] = ({'x': [B, 'a'], 'u': ['b', B], 'w': ['c']}, 'nest', (({'x': 0}, 1), None), 1, 0, ())
    U['prefix of a tree'] = ({'x': [B, 'a'], 'u': [B, 'b'], 'w': ['c']}, 'nest', (0, None), 2, (1, 0), ())
    U['keyword'] = (one, None, 0, 1, 0, ('k',))
    U['keywords, unmapped'] = ({'x': ['a'], 'u': [B, 'b']}, None, (None, 0), 2, (0, 1), ('k', 'l'))
    return U


def units():
    out = {}
    for n in cases():
        for s in SIZES:
            out[f'{n}: {s[0]} in batches of {s[1]}'] = (n, s)
    return out


def split_like(I, w, g):
    """The reference cut into the pieces of the computed array, so that single rows are represented alike."""
    if not isinstance(g, Arr) or g.rank != w.rank:
        return w
    for d, (x, y) in enumerate(zip(g.axes, w.axes)):
        ns = [n.as_const() for _, n in x]
        if len(x) > 1 and len(y) == 1 and 1 in ns and None not in ns and sum(ns) == y[0][1].as_const():
            pos, ps = 0, []
            for n in ns:
                ps.append(I.getitem(w, (SliceV(None, None, None),) * d + (SliceV(pos, pos + int(n), None),)))
                pos += int(n)
            w = I.call(ExtV('jnp.concatenate'), (I.new_list(tuple(ps)),), {'axis': d})
    return w


def run(project, uid):
    name, (size, batch) = units()[uid]
    spec, tree, ia, outs, oa, kws = cases()[name]
    W = World(project)
    I = W.I
    out = O.Outcome()
    sizes = []
    outer = I.st

    def pyv(v):
        if isinstance(v, dict):
            return I.new_dict(tuple((k, pyv(x)) for k, x in v.items()))
        if isinstance(v, list):
            return I.new_list(tuple(pyv(x) for x in v))
        if isinstance(v, tuple):
            return tuple(pyv(x) for x in v)
        return v
    real = lambda s: [(s_, size) if s_ in (B, 'same') else s_ for s_ in s]
    arrs = {n: W.plain(n, real(s)) for n, s in spec.items()}
    if tree == 'dict':
        given = (I.new_dict(tuple(arrs.items())),)
    elif tree == 'nest':
        given = ((I.new_dict((('x', arrs['x']),)), arrs['u']), arrs['w'])
    else:
        given = tuple(arrs.values())
    kw = {k: W.plain('kw_' + k, ['d']) for k in kws}

    def fn(I, a, k):
        leaves, t = flatten(I, (tuple(a), I.new_dict(tuple(k.items()))))
        n = ONE
        lv = I.models.vlevels
        for i, (l, s) in enumerate(lv):
            if i not in I.models.steplevels:
                n = n * topoly(s)
        sizes.append(n)
        xs = list(leaves)
        order = ';'.join(','.join(T.show_label(l) for ax in x.axes for l, m in ax) for x in xs)       # the function sees the order of the axes
        r1 = opaque_fn(I, f'f1[{order}]', xs, [(('A', 'o'), W.n('o'))], 'gen')
        if outs == 1:
            return r1
        r2 = opaque_fn(I, f'f2[{order}]', xs, [(('A', 'p'), W.n('p')), (('A', 'q'), W.n('q'))], 'gen')
        return (r1, r2) if outs == 2 else I.new_dict((('q', r2), ('p', r1)))
    user = call_obj('userfn', fn, name='user')
    try:
        ref_ia = pyv(tuple(ia) if isinstance(ia, list) else 0 if ia == '-' else ia)
        part = call_obj('userfn', lambda I, a, k: I.call(user, a, dict(kw)), name='user')
        ref = I.call(ModelV('vmap', (part, ref_ia, pyv(0 if oa == '-' else oa))), given, {})
        refs, rt = flatten(I, I.rdeep(ref))
        if any(not isinstance(r, Arr) for r in refs):
            raise Unknown(f'reference {refs!r:.100}')
    except (AbsRaise, Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'ref', f'reference: {type(e).__name__} {e}')
        return out
    sizes.clear()
    try:
        a = [user, batch]
        k = {}
        if ia != '-':
            k['in_axes'] = pyv(ia)
        if oa != '-':
            k['out_axes'] = pyv(oa)
        f = I.call(W.attr('folx', 'batched_vmap'), tuple(a), k)
        res = I.call(f, given, kw)
        for cond, r in O.leaves(I, I.rdeep(res)):
            out.n += 1
            if isinstance(r, Top):
                out.add('und', 'unknown', f'{r!r:.120}')
                continue
            got, gt = flatten(I, r)
            if gt != rt:
                out.add('bad', 'tree', f'the result is arranged as {gt!r:.100} instead of {rt!r:.100}', cond)
                continue
            good = True
            for i, (g, w) in enumerate(zip(got, refs)):
                s, m = O.diff(I, g, split_like(I, w, g))
                if s != 'ok':
                    good = False
                    out.add(s, 'result', f'result {i}: {m}', cond)
            out.ok += good
        out.n += 1
        big = [n for n in sizes if n.as_const() is None or n.as_const() > batch]
        if not sizes:
            out.add('und', 'size', 'the function is never called')
        elif any(n.as_const() is None for n in big):
            out.add('und', 'size', f'{big!r:.100}')
        elif big:
            out.add('bad', 'size', f'{big[0]} elements are processed at once, {batch} are allowed')
        else:
            out.ok += 1
    except AbsRaise as e:
        out.n += 1
        out.add('und' if I.notes else 'bad', 'raise', f'raises {exc_name(e)} at {e.where}')
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {I.where()}')
    out.reach = set(I.reach)
    return out
