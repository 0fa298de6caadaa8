"""Transfer functions of JAX: pytrees, vmap/jvp/vjp, control flow, lax primitives."""
from fractions import Fraction

from .poly import Poly, ZERO, ONE, I as IMAG
from .values import *
from .interp import AbsRaise, Unknown
from . import tensor as T
from .models import EXT, KIND, METH, CONSTS, NOLIFT, OPAQUE_LAX, ext, kind, meth
from .m_np import (arr, promote, op_stage, simp_arr, arr_getitem, do_reshape, rev_axis, stack, axes_arg, want_dt,
                   cv, tracer_error, n_add, masks_in)

# =================================================================== pytrees


def children(I, v):
    """(kind, meta, children) when v is a pytree node, None when it is a leaf."""
    if v is None:
        return ('none', None, ())
    if isinstance(v, NT):
        return ('nt', v.cls, v.items)
    if isinstance(v, tuple):
        return ('tuple', len(v), v)
    if isinstance(v, AbsList):
        return ('abs', None, (v.elem,))
    if isinstance(v, Ref):
        o = I.deref(v)
        if isinstance(o, ListObj):
            return ('list', len(o.items), tuple(I.rdeep(x) for x in o.items))
        if isinstance(o, DictObj):
            it = sorted(o.items, key=lambda kv: str(kv[0]))
            return ('dict', tuple(k for k, _ in it), tuple(I.rdeep(x) for _, x in it))
    return None


def rebuild(I, k, meta, ch, old=None):
    if k == 'none':
        return None
    if k == 'nt':
        return NT(meta, ch)
    if k == 'tuple':
        return tuple(ch)
    if k == 'list':
        return I.new_list(ch)
    if k == 'dict':
        return I.new_dict(tuple(zip(meta, ch)))
    if k == 'abs':
        return AbsList(ch[0], old.size, old.axis) if old is not None else AbsList(ch[0], None)
    raise Unknown('pytree node')


def is_leaf_(I, is_leaf, v):
    if is_leaf is None:
        return False
    r = I.call(is_leaf, (v,), {})
    if isinstance(r, (Top, Phi)):
        raise Unknown('is_leaf')
    return bool(r)


def flatten(I, v, is_leaf=None):
    if is_leaf_(I, is_leaf, v):
        return [v], ('leaf',)
    n = children(I, v)
    if n is None:
        if isinstance(v, Top):
            raise Unknown('pytree of unknown structure')
        return [v], ('leaf',)
    k, meta, ch = n
    if k == 'abs':
        ls, t = flatten(I, v.elem, is_leaf)
        return [AbsList(x, v.size, v.axis) for x in ls], ('abs', (v.size, v.axis), (t,))
    leaves, ts = [], []
    for c in ch:
        l, t = flatten(I, c, is_leaf)
        leaves += l
        ts.append(t)
    if k == 'none':
        return [], ('none',)
    return leaves, (k, meta, tuple(ts))


def td_leaves(t):
    if t[0] == 'leaf':
        return 1
    if t[0] == 'none':
        return 0
    return sum(td_leaves(c) for c in t[2])


def unflatten(I, t, leaves):
    leaves = list(leaves)
    if len(leaves) != td_leaves(t):
        T.raise_(I, 'ValueError', f'unflatten: {len(leaves)} leaves for a tree with {td_leaves(t)}')

    def go(t):
        if t[0] == 'leaf':
            return leaves.pop(0)
        if t[0] == 'none':
            return None
        if t[0] == 'abs':
            x = go(t[2][0])
            raise_if = x
            return raise_if if isinstance(x, AbsList) else AbsList(x, t[1][0], t[1][1])
        return rebuild(I, t[0], t[1], [go(c) for c in t[2]])
    return go(t)


def flatten_up_to(I, t, v):
    if t[0] == 'leaf':
        return [v]
    if t[0] == 'none':
        if v is not None:
            T.raise_(I, 'ValueError', 'flatten_up_to: expected None')
        return []
    n = children(I, v)
    if t[0] == 'abs' or (n is not None and n[0] == 'abs'):
        raise Unknown('flatten_up_to of a sequence of unknown length')
    if n is None or n[0] != t[0] or (t[0] == 'nt' and n[1].qual != t[1].qual) or (t[0] != 'nt' and n[1] != t[1]) or len(n[2]) != len(t[2]):
        T.raise_(I, 'ValueError', f'pytree structure mismatch: {t[0]} expected')
    out = []
    for c, x in zip(t[2], n[2]):
        out += flatten_up_to(I, c, x)
    return out


def tree_map(I, f, tree, rest=(), is_leaf=None):
    if is_leaf_(I, is_leaf, tree):
        return I.call(f, (tree,) + tuple(rest), {})
    n = children(I, tree)
    if n is None:
        return I.call(f, (tree,) + tuple(rest), {})
    k, meta, ch = n
    rs = []
    for r in rest:
        m = children(I, r)
        if k == 'abs' and m is not None and m[0] == 'abs':
            rs.append(m[2])
            continue
        if k == 'abs' and m is not None and m[0] in ('list', 'tuple') and m[2] and all(x == m[2][0] for x in m[2]):
            rs.append((m[2][0],))
            continue
        if m is None or m[0] != k or (k == 'nt' and m[1].qual != meta.qual) or (k != 'nt' and m[1] != meta) or len(m[2]) != len(ch):
            if isinstance(r, Top):
                raise Unknown('tree_map over unknown')
            T.raise_(I, 'ValueError', f'tree_map: structure mismatch ({k} vs {"leaf" if m is None else m[0]})')
        rs.append(m[2])
    out = [tree_map(I, f, c, tuple(r[i] for r in rs), is_leaf) for i, c in enumerate(ch)]
    return rebuild(I, k, meta, out, tree)


@ext('jtu.tree_map', 'jax.tree_util.tree_map', lift=False)
def x_tree_map(I, a, k):
    f, trees = a[0], a[1:]
    il = k.get('is_leaf')
    return I.models.lifted(I, lambda t, kk: tree_map(I, f, t[0], t[1:], il), tuple(trees), {})


def _il(a, k):
    return a[1] if len(a) > 1 else k.get('is_leaf')


@ext('jtu.tree_leaves')
def x_tree_leaves(I, a, k):
    return I.new_list(tuple(flatten(I, a[0], _il(a, k))[0]))


@ext('jtu.tree_flatten')
def x_tree_flatten(I, a, k):
    l, t = flatten(I, a[0], _il(a, k))
    return (I.new_list(tuple(l)), TreeDef(t))


@ext('jtu.tree_structure')
def x_tree_structure(I, a, k):
    return TreeDef(flatten(I, a[0], _il(a, k))[1])


@ext('jtu.tree_unflatten')
def x_tree_unflatten(I, a, k):
    it = I.iterate(a[1])
    if isinstance(it, (Top, AbsList)) or not isinstance(a[0], TreeDef):
        raise Unknown('tree_unflatten')
    return unflatten(I, a[0].t, it)


@meth('treedef', 'unflatten')
def td_unflatten(I, o, a, k):
    it = I.iterate(a[0])
    if isinstance(it, (Top, AbsList)):
        raise Unknown('unflatten')
    return unflatten(I, o.t, it)


@meth('treedef', 'flatten_up_to')
def td_fut(I, o, a, k):
    return I.new_list(tuple(flatten_up_to(I, o.t, a[0])))


@ext('jtu.tree_reduce')
def x_tree_reduce(I, a, k):
    l, _ = flatten(I, a[1], k.get('is_leaf'))
    if any(isinstance(x, AbsList) for x in l):
        raise Unknown('tree_reduce over a sequence of unknown length')
    init = a[2] if len(a) > 2 else k.get('initializer', UNSET)
    if init is not UNSET:
        l = [init] + l
    if not l:
        T.raise_(I, 'TypeError', 'reduce of empty sequence')
    r = l[0]
    for x in l[1:]:
        r = I.call(a[0], (r, x), {})
    return r


@ext('jtu.tree_all')
def x_tree_all(I, a, k):
    return EXT['builtins.all'](I, (I.new_list(tuple(flatten(I, a[0])[0])),), {})


UNSET = object()


@ext('jfu.ravel_pytree')
def x_ravel_pytree(I, a, k):
    leaves, t = flatten(I, a[0])
    if any(isinstance(x, AbsList) for x in leaves):
        raise Unknown('ravel_pytree')
    arrs = [simp_arr(I, arr(I, x)) for x in leaves]
    if not arrs:
        raise Unknown('empty ravel_pytree')
    d = promote(*[x.dt for x in arrs])
    flat = [do_reshape(I, x, [-1]) for x in arrs]
    sizes = [axis_size(f.axes[0]) for f in flat]
    out = flat[0] if len(flat) == 1 else EXT['jnp.concatenate'](I, (I.new_list(tuple(flat)),), {'axis': 0})
    out = out.but(dt=d, stage=jst(I, out))
    I.segmap[axis_size(out.axes[0])] = out.axes[0]
    un = ModelV('unravel', (t, tuple(tuple(x.shape()) for x in arrs), tuple(x.dt for x in arrs), tuple(sizes)))
    return (out, un)


def jst(I, v):
    if v.stage in ('jx',):
        return 'jx'
    return 'ct' if I.compile_time or not I.models.jitted else 'jx'


def definite_(d):
    return d.key not in ('?', 'weak', '0', 'def')


@kind('unravel')
def k_unravel(I, f, a, k):
    t, shapes, dts, sizes = f.data

    def go(args, kw):
        v = arr(I, args[0])
        if v.rank != 1:
            T.raise_(I, 'ValueError', 'unravel of a non-flat array')
        tot = ZERO
        for s in sizes:
            tot = tot + s
        if axis_size(v.axes[0]) != tot:
            T.raise_(I, 'TypeError', f'unravel: expected {norm(tot)} entries, got {norm(axis_size(v.axes[0]))}')
        mixed = len(set(dts)) > 1
        if mixed and definite_(v.dt) and all(map(definite_, dts)) and v.dt != promote(*dts):
            T.raise_(I, 'TypeError', f'unravel function given array of dtype {v.dt}, but expected dtype {promote(*dts)}')
        out, pos = [], ZERO
        for s, sh, d in zip(sizes, shapes, dts):
            x = v if len(sizes) == 1 else arr_getitem(I, v, SliceV(norm(pos), norm(pos + s), None))
            x = do_reshape(I, x, list(sh))
            if mixed:                   # leaves of one dtype are cut out as they are, others are converted back
                if x.dt.kind == 'c' and d.kind != 'c':
                    x = EXT['jnp.real'](I, (x,), {})
                x = x.but(dt=d)
            out.append(x)
            pos = pos + s
        return unflatten(I, t, out)
    return I.models.lifted(I, go, a, k)


# =================================================================== vmap

def prefix_axes(I, axes, tree):
    """Axis per leaf of tree for a vmap in_axes/out_axes prefix tree."""
    if axes is None or (isinstance(axes, int) and not isinstance(axes, bool)):
        return [axes] * len(flatten(I, tree)[0])
    n = children(I, axes)
    m = children(I, tree)
    if n is None:
        raise Unknown(f'axes {axes!r}')
    if m is None or m[0] in ('abs',) or (m[0] != n[0] and not {m[0], n[0]} <= {'tuple', 'list'}) or len(m[2]) != len(n[2]):
        if m is not None and m[0] == 'abs':
            raise Unknown('axes of a sequence of unknown length')
        T.raise_(I, 'ValueError', 'vmap in_axes/out_axes must be a prefix of the arguments')
    out = []
    for x, y in zip(n[2], m[2]):
        out += prefix_axes(I, I.rdeep(x), y)
    return out


@ext('jax.vmap', 'jax.pmap', lift=False)
def x_vmap(I, a, k):
    ia = a[1] if len(a) > 1 else k.get('in_axes', 0)
    oa = a[2] if len(a) > 2 else k.get('out_axes', 0)
    if isinstance(ia, Ref):
        it = I.iterate(ia)
        ia = tuple(it) if not isinstance(it, (Top, AbsList)) else ia
    return ModelV('vmap', (a[0], I.rdeep(ia), I.rdeep(oa)))


@kind('vmap')
def k_vmap(I, f, a, k):
    fn, ia, oa = f.data
    ks = tuple(k)
    return I.lift(lambda fn2, ia2, args, kv: vmap_call(I, fn2, ia2, oa, args, dict(zip(ks, kv))), fn, ia, tuple(a), tuple(k[x] for x in ks))


def vmap_call(I, fn, ia, oa, args, kw):
    if isinstance(ia, Top) or any(isinstance(x, Top) for x in args):
        return I.top('vmap of unknown arguments')
    try:
        return vmap_call_(I, fn, ia, oa, args, kw)
    except Unknown as e:
        return I.top(f'vmap: {e}')


def vmap_call_(I, fn, ia, oa, args, kw):
    if isinstance(ia, tuple) and len(ia) != len(args):
        T.raise_(I, 'ValueError', f'vmap in_axes has {len(ia)} entries for {len(args)} arguments')
    leaves, t = flatten(I, (tuple(args), I.new_dict(tuple(kw.items()))))
    nkw = len(flatten(I, I.new_dict(tuple(kw.items())))[0])
    axes = prefix_axes(I, ia, tuple(args)) + [0] * nkw
    mapped, arrs = [], {}
    for i, (x, ax) in enumerate(zip(leaves, axes)):
        if ax is None:
            continue
        if not isinstance(ax, int):
            raise Unknown('vmap axis')
        if isinstance(x, AbsList):
            raise Unknown('vmap over a sequence of unknown length')
        if isinstance(x, Top):
            raise Unknown('vmap over an unknown value')
        if not isinstance(x, Arr):
            x = arr(I, x)
        x = simp_arr(I, x)
        if x.rank is None:
            raise Unknown('vmap over an array of unknown rank')
        if not -x.rank <= ax < x.rank:
            T.raise_(I, 'ValueError', f'vmap over axis {ax} of an array of rank {x.rank}')
        arrs[i] = (x, ax % x.rank)
        mapped.append(x.axes[ax % x.rank])
    if not mapped:
        T.raise_(I, 'ValueError', 'vmap must have at least one non-None value in in_axes')
    tot = axis_size(mapped[0])
    for m in mapped:
        if axis_size(m) != tot:
            T.raise_(I, 'ValueError', f'vmap got inconsistent sizes {norm(tot)} and {norm(axis_size(m))}')
    axis, maps, ok = T.unify_axes(I, mapped)
    st = 'ct' if (I.compile_time or not I.models.jitted) and all(x.stage != 'jx' for x, _ in arrs.values()) else 'jx'
    results = []
    for j, (l, n) in enumerate(axis):
        new = list(leaves)
        for q, (i, (x, ax)) in enumerate(arrs.items()):
            y = T.drop_axis(x, ax, maps[q][j] if len(maps[q]) > j else 0)
            if not ok:
                y = y.but(blocks={kk: T.bad('axes of different meaning are mapped together') for kk in y.blocks})
            new[i] = y.but(stage='jx' if x.stage == 'jx' else st)
        a2, k2 = unflatten(I, t, new)
        I.models.vlevels.append((l, n))
        try:
            results.append(I.call(fn, a2, dict(I.deref(k2).items)))
        finally:
            I.models.vlevels.pop()
    return I.lift(lambda *rs: vmap_stack(I, rs, oa, axis), *results)


def vmap_stack(I, rs, oa, axis):
    if any(isinstance(r, Top) for r in rs):
        return I.top('vmapped function has unknown result')
    fl = [flatten(I, r) for r in rs]
    t = fl[0][1]
    for _, t2 in fl[1:]:
        if t2 != t:
            raise Unknown('vmapped function returns different structures')
    oaxes = prefix_axes(I, oa, rs[0])
    out = []
    for i, ax in enumerate(oaxes):
        ls = [f[0][i] for f in fl]
        if any(isinstance(x, Top) for x in ls):
            out.append(Top('unknown'))
            continue
        if any(isinstance(x, AbsList) for x in ls):
            raise Unknown('vmap result of unknown length')
        xs = [simp_arr(I, arr(I, x)) for x in ls]
        xs = [x.but(stage=jst(I, x) if x.stage in ('np', 'py') else x.stage) for x in xs]
        if ax is None:
            for x, (l, n) in zip(xs, axis):
                for c in x.blocks.values():
                    if l is not None and n != ONE and isinstance(c, Poly) and T.depends(I, c, l) and not c.bad() and T.klike(l) and T_jdeg(I, c):
                        T.raise_(I, 'ValueError', 'vmap has mapped output but out_axes is None')
            out.append(xs[0])
            continue
        if not isinstance(ax, int):
            raise Unknown('vmap out_axes')
        r = xs[0].rank
        if not -(r + 1) <= ax <= r:
            T.raise_(I, 'ValueError', f'vmap out_axes {ax} for a result of rank {r}')
        ax = ax % (r + 1)
        out.append(vstack_axis(I, xs, axis, ax))
    return unflatten(I, t, out)


def T_jdeg(I, c):
    return any(T.jdeg(I, m) for m in c.t)


def vstack_axis(I, xs, axis, ax):
    if len({x.rank for x in xs}) > 1:
        raise Unknown('vmap results of different rank')
    r = xs[0].rank
    axes, mp, okall = [], [], True
    for d in range(r):
        u, m, ok = T.unify_axes(I, [x.axes[d] for x in xs])
        axes.append(u)
        mp.append(m)
        okall = okall and ok
    blocks = {}
    for j, x in enumerate(xs):
        for kk in T.keys(axes):
            old = tuple(mp[d][j][kk[d]] for d in range(r))
            c = x.blocks[old]
            if not okall and isinstance(c, Poly) and c.as_const() is None:
                c = T.bad('values of different axes are stacked')
            blocks[kk[:ax] + (j,) + kk[ax:]] = c
    axes = tuple(axes[:ax]) + (axis,) + tuple(axes[ax:])
    st = 'jx' if any(x.stage == 'jx' for x in xs) else xs[0].stage
    return Arr(axes, blocks, promote(*[x.dt for x in xs]), st)


@ext('jnp.vectorize', lift=False)
def x_vectorize(I, a, k):
    return ModelV('vectorize', (a[0], k.get('signature')))


@kind('vectorize')
def k_vectorize(I, f, a, k):
    fn, sig = f.data
    core = 0
    if sig is not None:
        core = len([x for x in sig.split('->')[0].strip().strip('()').split(',') if x.strip()])

    def go(args, kw):
        if len(args) != 1:
            raise Unknown('vectorize over several arguments')
        x = arr(I, args[0])
        if x.rank < core:
            T.raise_(I, 'ValueError', 'vectorize: too few dimensions')
        g = fn
        x = x.but(stage=jst(I, x) if x.stage in ('np', 'py') else x.stage)
        for _ in range(x.rank - core):
            g = ModelV('vmap', (g, 0, 0))
        return I.call(g, (x,), kw)
    return I.models.lifted(I, go, a, k)


# =================================================================== forward mode

def new_eps(I):
    I.eps += 1
    return ('eps', I.eps)


def perturb(I, x, t, eps, what='jvp'):
    x, t = simp_arr(I, arr(I, x)), simp_arr(I, arr(I, t))
    if x.shape() != t.shape():
        T.raise_(I, 'ValueError', f'{what}: primal shape {x.shape()} and tangent shape {t.shape()} differ')
    if getattr(I.models, 'strict_tangents', False) and x.dt.kind in 'fc' and (definite_(t.dt) or t.dt.key == 'def') and definite_(x.dt) and t.dt != x.dt:
        T.raise_(I, 'TypeError', f'{what}: primal and tangent arguments do not have the same type: {x.dt} and {t.dt}')
    e = Poly.atom(eps)

    def g(p, q):
        if isinstance(p, tuple):
            return p
        if isinstance(p, Poly) and isinstance(q, Poly):
            return p + q * e
        return None
    return T.pointwise(I, [x, t], g, x.dt, 'jx')


def split_out(I, y, eps):
    """(value, tangent) of a possibly perturbed result leaf."""
    if isinstance(y, Top):
        return y, y
    y = arr(I, y)
    a, b = {}, {}
    for k, c in y.blocks.items():
        if isinstance(c, Poly):
            a[k], b[k] = c.coef_eps(eps)
        else:
            a[k], b[k] = c, (None if c is None else ZERO)
    d = y.dt if y.dt.kind in 'fc' else Dt('f', '0')
    st = y.stage if y.stage in ('jx', 'ct') else jst(I, y)
    return y.but(blocks=a, cval=None, stage=st), y.but(blocks=b, dt=d, cval=None, stage=st)


def map_leaves2(I, v, f):
    l, t = flatten(I, v)
    ab = [f(x) for x in l]
    return unflatten(I, t, [x for x, _ in ab]), unflatten(I, t, [y for _, y in ab])


def do_jvp(I, f, primals, tangents):
    """primals / tangents: tuples of pytrees -> (out, tangent out)"""
    pl, pt = flatten(I, tuple(primals))
    tl = flatten_up_to(I, pt, tuple(tangents))
    if any(isinstance(x, (AbsList, Top)) for x in pl + tl):
        raise Unknown('jvp of unknown values')
    eps = new_eps(I)
    ps = unflatten(I, pt, [perturb(I, x, t, eps) for x, t in zip(pl, tl)])
    y = I.call(f, ps, {})
    return I.lift(lambda y: map_leaves2(I, y, lambda x: split_out(I, x, eps)) if not isinstance(y, Top) else I.top('jvp of unknown function'), y)


@ext('jax.jvp', lift=False)
def x_jvp(I, a, k):
    f = a[0]
    p, t = a[1:3] if len(a) > 2 else (a[1] if len(a) > 1 else k['primals'], k['tangents'])

    def go(args, kw):
        p, t = args
        p, t = I.iterate(p), I.iterate(t)
        if isinstance(p, (Top, AbsList)) or isinstance(t, (Top, AbsList)):
            raise Unknown('jvp operands')
        if len(p) != len(t):
            T.raise_(I, 'TypeError', 'jvp: primals and tangents differ in number')
        return do_jvp(I, f, tuple(p), tuple(t))
    return I.models.lifted(I, go, (p, t), {})


@ext('jax.linearize', lift=False)
def x_linearize(I, a, k):
    f = a[0]

    def go(args, kw):
        y = I.call(f, args, {})
        return (y, ModelV('linfn', (f, args)))
    return I.models.lifted(I, go, a[1:], {})


@kind('linfn')
def k_linfn(I, f, a, k):
    fn, primals = f.data
    if len(a) != len(primals):
        T.raise_(I, 'TypeError', 'linearized function called with a different number of arguments')

    def go(args, kw):
        r = do_jvp(I, fn, primals, args)
        return I.lift(lambda r: r if isinstance(r, Top) else r[1], r)
    return I.models.lifted(I, go, a, k)


@ext('jax.custom_jvp', lift=False)
def x_custom_jvp(I, a, k):
    return ModelV('custom_jvp', (a[0], I.fresh()))


@meth('custom_jvp', 'defjvp')
def m_defjvp(I, o, a, k):
    I.st.set(('cjvp', o.data[1]), a[0])
    return a[0]


@meth('custom_jvp', 'defjvps')
def m_defjvps(I, o, a, k):
    raise Unknown('defjvps')


def eps_of(I, v):
    out = set()
    for x in flatten(I, v)[0]:
        if isinstance(x, Arr):
            for c in x.blocks.values():
                if isinstance(c, Poly):
                    out |= {q for m in c.t for q, _ in m if q[0] == 'eps'}
    return out


@kind('custom_jvp')
def k_custom_jvp(I, f, a, k):
    fn, uid_ = f.data

    def go(args, kw):
        es = eps_of(I, args)
        rule = I.st.get(('cjvp', uid_)) if I.st.has(('cjvp', uid_)) else None
        if not es or rule is None:
            return I.call(fn, args, kw)
        e = max(es, key=lambda x: x[1])
        ps, ts = map_leaves2(I, args, lambda x: split_out(I, x, e))
        r = I.call(rule, (ps, ts), {})

        def join(r):
            if isinstance(r, Top):
                return I.top('custom_jvp rule')
            it = I.iterate(r)
            if isinstance(it, (Top, AbsList)) or len(it) != 2:
                T.raise_(I, 'TypeError', 'custom_jvp rule must return a pair')
            yl, yt = flatten(I, it[0])
            tl = flatten_up_to(I, yt, it[1])
            return unflatten(I, yt, [perturb(I, x, t, e, 'custom_jvp rule') if arr(I, x).dt.kind in 'fc' else x for x, t in zip(yl, tl)])
        return I.lift(join, r)
    return I.models.lifted(I, go, a, k)


# =================================================================== reverse mode

def do_vjp(I, f, primals, has_aux=False):
    pl, pt = flatten(I, tuple(primals))
    if any(isinstance(x, (AbsList, Top)) for x in pl):
        raise Unknown('vjp of unknown values')
    eps = new_eps(I)
    pl = [simp_arr(I, arr(I, x)) for x in pl]
    taus, ps = [], []
    for i, x in enumerate(pl):
        blk, names = {}, {}
        for k, c in x.blocks.items():
            nm = ('tau', eps[1], i, k)
            ls = frozenset().union(*[T.comps(x.axes[d][k[d]][0]) for d in range(x.rank)]) if x.rank else frozenset()
            I.models.deps[nm] = ls
            names[k] = ('v', nm, x.dt.kind != 'c')
            blk[k] = Poly.atom(names[k])
        taus.append(names)
        ps.append(perturb(I, x, x.but(blocks=blk, cval=None, stage='jx'), eps))
    y = I.call(f, unflatten(I, pt, ps), {})

    def fin(y):
        if isinstance(y, Top):
            return I.top('vjp of unknown function')
        y0, y1 = map_leaves2(I, y, lambda x: split_out(I, x, eps))
        yl, yt = flatten(I, y1)
        return (y0, ModelV('vjpfn', (pt, tuple(pl), tuple(tuple(sorted(t.items())) for t in taus), yt, tuple(yl))))
    return I.lift(fin, y)


@ext('jax.vjp', lift=False)
def x_vjp(I, a, k):
    if k:
        raise Unknown('vjp options')
    return I.models.lifted(I, lambda args, kw: do_vjp(I, a[0], args), a[1:], {})


def delta_label(x, k):
    """Unit tangent along all (non-trivial) axes of block k."""
    out = ONE
    for d in range(x.rank):
        l, n = x.axes[d][k[d]]
        if n != ONE:
            out = out * Poly.atom(('delta', l if l is not None else ('anon', norm(n))))
    return out


def tau_in_slot(a, tau):
    if a[0] == 'conj':
        a = a[1]
    return a[0] == 'app' and any(isinstance(p, Poly) and tau in p.all_atoms() for p in a[2])


def coef_tau(I, c, tau, real, x, k):
    """Cotangent coefficient (a, b): derivative along tau and conj(tau)."""
    a = b = ZERO
    for m, co in c.t.items():
        hit = None
        for q, e in m:
            if q == tau or q == ('conj', tau) or tau_in_slot(q, tau):
                hit = (q, e)
        if hit is None:
            continue
        q, e = hit
        rest = Poly({tuple(z for z in m if z[0] != q): co})
        if q == tau:
            a = a + rest
        elif q == ('conj', tau):
            b = b + rest
        else:
            if not real:
                raise Unknown('complex opaque reverse mode')
            dl = delta_label(x, k)
            inner = q[1] if q[0] == 'conj' else q
            new = tuple(p.subst(lambda z: dl if z == tau else None) if isinstance(p, Poly) else p for p in inner[2])
            z = Poly.atom(('app', inner[1], new, inner[3], inner[4], inner[5]))
            a = a + rest * (z.conj() if q[0] == 'conj' else z)
    return a, b


@kind('vjpfn')
def k_vjpfn(I, f, a, k):
    pt, pl, taus, yt, yl = f.data
    return I.models.lifted(I, lambda args, kw: vjp_apply(I, pt, pl, taus, yt, yl, args), a, k)


def vjp_apply(I, pt, pl, taus, yt, yl, args):
    if len(args) != 1:
        T.raise_(I, 'TypeError', 'vjp function takes one cotangent')
    cts = flatten_up_to(I, yt, args[0])
    outs = []
    for x, names in zip(pl, taus):
        acc = None
        blocks = {k: ZERO for k in x.blocks}
        for y, ct in zip(yl, cts):
            if isinstance(y, Top) or isinstance(ct, Top):
                raise Unknown('vjp')
            ct = simp_arr(I, arr(I, ct))
            if ct.shape() != y.shape():
                T.raise_(I, 'ValueError', f'vjp: cotangent shape {ct.shape()} for output {y.shape()}')
            for k, tau in names:
                def g(p, q):
                    if not isinstance(p, Poly) or not isinstance(q, Poly):
                        return None
                    if x.dt.kind == 'c':
                        aa, bb = coef_tau(I, p, tau, False, x, k)
                        return q * aa + (q * bb).conj()
                    aa, _ = coef_tau(I, p, tau, True, x, k)
                    r = q * aa
                    return r if r.is_real() else r.re()
                z = T.pointwise(I, [y, ct], g, x.dt, 'jx')
                # contract output axes that are not axes of the primal block
                tl = [x.axes[d][k[d]] for d in range(x.rank)]
                tot = ZERO
                kx = T.nk(z.axes)
                for kk, c in z.blocks.items():
                    if c is None:
                        tot = None
                        break
                    shared, rest = [], []
                    pool = [l for l, n in tl if n != ONE]
                    for d in range(z.rank):
                        l, n = z.axes[d][kk[d]]
                        if n == ONE:
                            continue
                        if l in pool:
                            pool.remove(l)
                            shared.append(l)
                        else:
                            rest.append((l, n))
                    for l, n in rest:
                        if l is not None and set(T.comps(l)) & set().union(*[T.comps(q) for q in pool] or [set()]) and l[0] == '*':
                            continue        # same elements, flattened
                        others = [q for q, _ in tl]
                        c = contract(I, c, l, n, kx, others)
                    tot = tot + c if c is not None else None
                    if tot is None:
                        break
                if tot is None or blocks[k] is None:
                    blocks[k] = None
                else:
                    blocks[k] = blocks[k] + tot
        outs.append(x.but(blocks=blocks, cval=None, stage='jx'))
    return unflatten(I, pt, outs)


def contract(I, c, l, n, kx, others):
    return T.sum_content(I, c, l, n, kx, others)


@ext('jax.grad', lift=False)
def x_grad(I, a, k):
    return ModelV('grad', (a[0], k.get('argnums', a[1] if len(a) > 1 else 0), False))


@ext('jax.value_and_grad', lift=False)
def x_vgrad(I, a, k):
    return ModelV('grad', (a[0], k.get('argnums', a[1] if len(a) > 1 else 0), True))


@kind('grad')
def k_grad(I, f, a, k):
    fn, argn, val = f.data

    def go(args, kw):
        if not isinstance(argn, int):
            raise Unknown('grad argnums')
        g = ModelV('argsel', (fn, args, argn, tuple(kw.items())))
        y, pull = do_vjp(I, g, (args[argn],))
        yv = arr(I, y)
        if yv.rank != 0:
            T.raise_(I, 'TypeError', 'grad requires a scalar-valued function')
        if yv.dt.kind == 'c':
            T.raise_(I, 'TypeError', 'grad requires a real-valued function')
        one = Arr((), {(): ONE}, yv.dt, 'jx')
        r = I.call(pull, (one,), {})[0]
        return (y, r) if val else r
    return I.models.lifted(I, go, a, k)


@kind('argsel')
def k_argsel(I, f, a, k):
    fn, args, i, kw = f.data
    return I.call(fn, args[:i] + (a[0],) + args[i + 1:], dict(kw))


@ext('jax.jacrev', lift=False)
def x_jacrev(I, a, k):
    return ModelV('jacrev', (a[0], k.get('argnums', a[1] if len(a) > 1 else 0)))


@ext('jax.jacfwd', lift=False)
def x_jacfwd(I, a, k):
    return ModelV('jacfwd', (a[0], k.get('argnums', a[1] if len(a) > 1 else 0)))


@ext('jax.hessian', lift=False)
def x_hessian(I, a, k):
    n = k.get('argnums', a[1] if len(a) > 1 else 0)
    return ModelV('jacfwd', (ModelV('jacrev', (a[0], n)), n))


def eye_like(I, v):
    return EXT['jnp.eye'](I, (norm(axis_size(v.axes[0])),), {}).but(dt=v.dt)


@kind('jacrev')
def k_jacrev(I, f, a, k):
    fn, argn = f.data

    def go(args, kw):
        g = ModelV('argsel', (fn, args, argn, tuple(kw.items())))
        y, pull = do_vjp(I, g, (args[argn],))
        yv, xv = arr(I, y), arr(I, args[argn])
        if yv.rank == 0:
            return I.call(pull, (Arr((), {(): ONE}, yv.dt, 'jx'),), {})[0]
        if yv.rank != 1:
            raise Unknown('jacrev of a higher-rank output')
        I.segmap[axis_size(yv.axes[0])] = yv.axes[0]
        r = I.call(ModelV('vmap', (pull, 0, 0)), (eye_like(I, yv),), {})
        return I.lift(lambda r: r if isinstance(r, Top) else r[0], r)
    return I.models.lifted(I, go, a, k)


@kind('jacfwd')
def k_jacfwd(I, f, a, k):
    fn, argn = f.data

    def go(args, kw):
        g = ModelV('argsel', (fn, args, argn, tuple(kw.items())))
        xv = arr(I, args[argn])
        if xv.rank == 0:
            return I.lift(lambda r: r[1], do_jvp(I, g, (args[argn],), (Arr((), {(): ONE}, xv.dt, 'jx'),)))
        if xv.rank != 1:
            raise Unknown('jacfwd of a higher-rank input')
        I.segmap[axis_size(xv.axes[0])] = xv.axes[0]
        return I.call(ModelV('vmap', (ModelV('linfn', (g, (args[argn],))), 0, -1)), (eye_like(I, xv),), {})
    return I.models.lifted(I, go, a, k)


# =================================================================== transformations without effect on values

@ext('jax.jit', 'jax.checkpoint', 'jax.remat', 'jax.named_call', lift=False)
def x_jit(I, a, k):
    if not a:
        return ModelV('partial', (ExtV('jax.jit'), (), tuple(k.items())))
    return ModelV('jit', (a[0], tuple(sorted(k.items(), key=lambda kv: kv[0]))))


@kind('jit')
def k_jit(I, f, a, k):
    I.event('jit', f=f.data[0], opts=f.data[1])
    if not any(n.startswith('static_') for n, _ in f.data[1]):
        # the arguments are traced inside
        a, k = traced_leaves(I, tuple(a)), {n: traced_leaves(I, v) for n, v in k.items()}
    return I.call(f.data[0], a, k)


def traced_leaves(I, x):
    try:
        leaves, tree = flatten(I, x)
    except Unknown:
        return x
    return unflatten(I, tree, [v.but(stage='jx') if isinstance(v, Arr) else v for v in leaves])


@ext('jax.ensure_compile_time_eval', lift=False)
def x_cte(I, a, k):
    return ModelV('cte', ())


@ext('jax.default_device', lift=False)
def x_dd(I, a, k):
    return ModelV('nullctx', a)


@ext('jax.devices', lift=False)
def x_devices(I, a, k):
    return (Obj('device', {}),)


@ext('jax.lax.stop_gradient')
def x_sg(I, a, k):
    return EXT['lax.stop_gradient'](I, a, k)


# =================================================================== scan

@ext('lax.scan', lift=False)
def x_scan(I, a, k):
    names = ['f', 'init', 'xs', 'length', 'reverse', 'unroll']
    d = dict(zip(names, a))
    d.update(k)
    h = I.ext_hooks.get('#scan')
    if h is not None:
        return h(I, d)
    return I.models.lifted(I, lambda args, kw: scan(I, d['f'], args[0], args[1], args[2], d.get('reverse', False) is True), (d['init'], d.get('xs'), d.get('length')), {})


def unrolled(I, f, init, xs, length, reverse=False):
    """A loop over few known steps, step by step; None if the steps are not known one by one."""
    ls, t = flatten(I, xs)
    ls = [simp_arr(I, arr(I, x)) for x in ls if not isinstance(x, (Top, AbsList))]
    if any(x.rank is None or x.rank < 1 or any(n != ONE for _, n in x.axes[0]) for x in ls):
        return None
    ns = {len(x.axes[0]) for x in ls}
    m = None if length is None else topoly(length)
    if m is not None:
        m = m.as_const()
        if m is None:
            return None
        ns.add(int(m))
    if len(ns) > 1:
        T.raise_(I, 'ValueError', f'scan over axes of different length {sorted(ns)}')
    if not ns or max(ns) > 16:
        return None
    n = ns.pop()
    carry, ys = init, [None] * n
    for i in (range(n)[::-1] if reverse else range(n)):
        x = unflatten(I, t, [T.drop_axis(x, 0, i) for x in ls])
        r = I.rdeep(I.call(f, (carry, x), {}))
        it = None if isinstance(r, (Top, Phi)) else I.iterate(r)
        if it is None or isinstance(it, (Top, AbsList)):
            raise Unknown('scan body')
        if len(it) != 2:
            T.raise_(I, 'TypeError', 'scan body must return (carry, y)')
        carry, ys[i] = it
    if any(isinstance(I.rdeep(y), Phi) for y in ys):
        raise Unknown('scan results')
    return (carry, vmap_stack(I, [I.rdeep(y) for y in ys], 0, ((None, ONE),) * n) if n else None)


def scan(I, f, init, xs, length, reverse=False):
    if flatten(I, init)[0]:
        r = unrolled(I, f, init, xs, length, reverse)
        if r is None:
            raise Unknown('scan with a carry')
        return r
    ls = flatten(I, xs)[0]
    if not ls:
        raise Unknown('scan without inputs')
    for x in ls:
        x = arr(I, x)
        if length is not None and x.shape()[0] != norm(topoly(length)):
            T.raise_(I, 'ValueError', f'scan got length {length} but leading axis {x.shape()[0]}')
    g = ModelV('scanbody', (f, init))
    r = I.call(ModelV('vmap', (g, 0, 0)), (xs,), {})
    return I.lift(lambda r: (init, r) if not isinstance(r, Top) else r, r)


@kind('scanbody')
def k_scanbody(I, f, a, k):
    st = I.models.steplevels
    st.append(len(I.models.vlevels) - 1)
    try:
        r = I.call(f.data[0], (f.data[1], a[0]), {})
    finally:
        st.pop()

    def g(r):
        it = I.iterate(r)
        if isinstance(it, (Top, AbsList)):
            return I.top('scan body')
        if len(it) != 2:
            T.raise_(I, 'TypeError', 'scan body must return (carry, y)')
        return it[1]
    return I.lift(g, r)


@ext('lax.map', lift=False)
def x_lmap(I, a, k):
    if set(k) - {'xs', 'f'} or len(a) + len(k) > 2:
        raise Unknown('lax.map in batches')
    d = dict(zip(('f', 'xs'), a))
    d.update(k)
    return I.call(ModelV('vmap', (ModelV('mapbody', (d['f'],)), 0, 0)), (d['xs'],), {})


@kind('mapbody')
def k_mapbody(I, f, a, k):
    st = I.models.steplevels
    st.append(len(I.models.vlevels) - 1)
    try:
        return I.call(f.data[0], a, k)
    finally:
        st.pop()


# =================================================================== opaque functions

PWL = {'max', 'min', 'absr', 'reduce_max', 'reduce_min', 'relu', 'cummax', 'cummin', 'clamp', 'floor', 'sort', 'ind'}
NODERIV = {'sign', 'floor', 'ceil', 'round', 'stop_gradient', 'is_finite', 'argmax', 'argmin', 'ind', 'eq', 'lt', 'le', 'gt', 'ge', 'ne'}


def deriv_zero(I, name, e):
    """Is the partial derivative of multi-order e of `name` identically zero?"""
    s = sum(e)
    if s == 0:
        return False
    if name in NODERIV:
        return True
    if name in PWL and s >= 2:
        return True
    facts = I.models.linear_facts.get(name)
    if facts is not None:
        return facts(e)
    return False


def labels_of(arrs):
    out = set()
    for a in arrs:
        for ax in a.axes:
            for l, n in ax:
                if n != ONE and l is not None:
                    out |= T.comps(l)
    return frozenset(out)


def split_mono(I, m, c, consumed):
    """(scalar Poly, inner Poly) of a monomial with respect to the consumed labels."""
    sc, inn = [], []
    for a, e in m:
        if a[0] == 'eps' or a[0] == 'i' or not any(T.atom_depends(I, a, l) for l in consumed):
            sc.append((a, e))
        else:
            inn.append((a, e))
    return Poly({tuple(sc): c}), Poly({tuple(inn): Fraction(1)})


def opaque_poly(I, name, ps, consumed, produced, kind_):
    """Value of an opaque function of several arrays' contents; kind_ lin / pwl / gen."""
    for p in ps:
        if not isinstance(p, Poly):
            return None
        if p.bad():
            return T.bad(p.bad())
    par = ('op', consumed, produced)
    if kind_ == 'lin':
        out = ZERO
        for i, p in enumerate(ps):
            for m, c in p.t.items():
                s, inner = split_mono(I, m, c, consumed)
                nm = name if len(ps) == 1 else f'{name}#{i}'
                out = out + s * Poly.atom(('app', nm, (inner,), (0,), inner.is_real(), par))
        return out
    base, nil = zip(*[p.split_eps() for p in ps])
    real = all(p.is_real() for p in ps)
    out = Poly.atom(('app', name, tuple(base), ('D',), real, par))
    terms = []
    for i, n in enumerate(nil):
        for m, c in n.t.items():
            s, inner = split_mono(I, m, c, consumed)
            terms.append((s, i, inner))
    layer = [(ONE, ())]
    fact = 1
    for order in range(1, 5):
        if kind_ == 'pwl' and order > 1 or kind_ == 'none':
            break
        nxt = []
        fact *= order
        for s, slots in layer:
            for s2, i, inner in terms:
                q = s * s2
                if not q.is_zero():
                    nxt.append((q, slots + ((i, inner),)))
        for s, slots in nxt:
            sl = sorted(slots, key=lambda z: (z[0], str(z[1])))
            r = real and all(z[1].is_real() for z in sl)
            at = ('app', name, tuple(base) + tuple(z[1] for z in sl), ('D',) + tuple(z[0] for z in sl), r, par)
            out = out + s.scale(Fraction(1, fact)) * Poly.atom(at)
        layer = nxt
        if not nxt:
            break
    return out


def opaque_fn(I, name, arrs, out_axes, kind_, dt=None, masks=True):
    """Opaque function of arrays (all axes consumed) with result axes out_axes (list of (label, size))."""
    for a in arrs:
        if len(a.blocks) != 1:
            raise Unknown(f'{name} of segmented arrays')
    cs = [next(iter(a.blocks.values())) for a in arrs]
    consumed = labels_of(arrs)
    axes = tuple(((l, n),) if n != ONE else T.ONESEG for l, n in out_axes)
    produced = frozenset().union(*[T.comps(l) for l, n in out_axes if n != ONE] or [frozenset()])
    if any(isinstance(c, tuple) for c in cs):
        c = ('F', name, tuple(c if isinstance(c, tuple) else c for c in cs))
    elif any(c is None for c in cs):
        c = None
    else:
        c = opaque_poly(I, name, cs, consumed, produced, kind_)
    d = dt or promote(*[a.dt for a in arrs])
    return Arr(axes, {tuple(0 for _ in axes): c}, d, op_stage(I, arrs) if op_stage(I, arrs) != 'np' else jst(I, arrs[0]))


def opaque_reduce(I, name, a, dims, keepdims=False):
    a = simp_arr(I, a)
    dims = sorted({d % a.rank for d in dims}) if a.rank else []
    if not dims:
        return a
    key = f'{name}'
    cons = set()
    for d in dims:
        for l, n in a.axes[d]:
            cons |= T.comps(l) if n != ONE else set()
    for d in dims:
        if len(a.axes[d]) > 1:
            raise Unknown(f'{name} over a segmented axis')
    if all(axis_size(a.axes[d]) == ONE for d in dims):
        r = a
        for d in reversed(dims):
            r = T.drop_axis(r, d, 0)
    else:
        blocks = {}
        kind_ = 'pwl' if name in PWL else 'gen'
        if name == 'reduce_prod':
            pass
        for k, c in a.blocks.items():
            kk = tuple(x for i, x in enumerate(k) if i not in dims)
            if isinstance(c, tuple):
                blocks[kk] = ('F', key, (c,))
            else:
                blocks[kk] = None if c is None else opaque_poly(I, key, [c], frozenset(cons), frozenset(), kind_)
        r = Arr(tuple(x for i, x in enumerate(a.axes) if i not in dims), blocks, a.dt, a.stage if a.stage in ('jx', 'ct') else jst(I, a))
    if keepdims:
        for d in dims:
            r = T.expand(I, r, d)
    return r


def ind(p):
    return Poly.atom(('app', 'ind', (p,), (0,), True, 'ew'))


def sel_poly(I, p, s, q):
    """p ? q : s"""
    if q == s:
        return q
    w = ind(p.split_eps()[0])
    return s + (q - s) * w


# =================================================================== lax primitives

def ptuple(I, v):
    if v is None:
        return ()
    if isinstance(v, int):
        return (v,)
    if isinstance(v, Arr):
        c = cv(I, v)
        if c is None:
            raise Unknown('array as a parameter')
        return c if isinstance(c, tuple) else (c,)
    it = I.iterate(v)
    if isinstance(it, (Top, AbsList)):
        raise Unknown('parameter')
    return tuple(norm(x) if isinstance(x, Poly) else x for x in it)


def fullsize(a):
    return [norm(axis_size(x)) for x in a.axes]


def getp(a, k, i, n, default=UNSET):
    if len(a) > i:
        return a[i]
    if n in k:
        return k[n]
    if default is UNSET:
        raise Unknown(f'missing parameter {n}')
    return default


LAX = {}


def lax(*names):
    def deco(f):
        for n in names:
            LAX[n] = f
            OPAQUE_LAX.add(n)
        return f
    return deco


def out_stage(I, r, *xs):
    return r.but(stage='jx' if any(x.stage == 'jx' for x in xs) else jst(I, xs[0]), cval=None)


def chk(I, v):
    return simp_arr(I, arr(I, v))


@lax('reshape')
def l_reshape(I, a, k):
    v = chk(I, a[0])
    sh = ptuple(I, getp(a, k, 1, 'new_sizes'))
    dims = getp(a, k, 2, 'dimensions', None)
    if dims is not None:
        v = T.transpose(I, v, ptuple(I, dims))
    if any(isinstance(s, int) and s < 0 for s in sh):
        T.raise_(I, 'TypeError', 'reshape: negative size')
    return out_stage(I, do_reshape(I, v, list(sh)), v)


@lax('broadcast_in_dim')
def l_bid(I, a, k):
    v = chk(I, a[0])
    sh = ptuple(I, getp(a, k, 1, 'shape'))
    bd = ptuple(I, getp(a, k, 2, 'broadcast_dimensions'))
    if len(bd) != v.rank:
        T.raise_(I, 'TypeError', f'broadcast_in_dim: {len(bd)} broadcast_dimensions for rank {v.rank}')
    if sorted(bd) != list(bd):
        T.raise_(I, 'TypeError', 'broadcast_dimensions must be increasing')
    for d in range(len(sh)):
        if d not in bd:
            v = T.expand(I, v, d)
    return out_stage(I, T.broadcast_to(I, v, sh), v)


@lax('broadcast')
def l_bc(I, a, k):
    v = chk(I, a[0])
    return out_stage(I, T.broadcast_to(I, v, list(ptuple(I, a[1])) + fullsize(v)), v)


@lax('slice')
def l_slice(I, a, k):
    v = chk(I, a[0])
    lo, hi = ptuple(I, getp(a, k, 1, 'start_indices')), ptuple(I, getp(a, k, 2, 'limit_indices'))
    st = getp(a, k, 3, 'strides', None)
    st = ptuple(I, st) if st is not None else (None,) * v.rank
    if not len(lo) == len(hi) == v.rank:
        T.raise_(I, 'TypeError', 'slice: number of indices')
    return out_stage(I, arr_getitem(I, v, tuple(SliceV(x, y, None if s in (1, None) else s) for x, y, s in zip(lo, hi, st))), v)


@lax('squeeze')
def l_squeeze(I, a, k):
    v = chk(I, a[0])
    return out_stage(I, T.squeeze(I, v, ptuple(I, getp(a, k, 1, 'dimensions'))), v)


@lax('rev')
def l_rev(I, a, k):
    v = chk(I, a[0])
    for d in ptuple(I, getp(a, k, 1, 'dimensions')):
        v = rev_axis(I, v, d % v.rank)
    return out_stage(I, v, v)


@lax('select_n')
def l_select_n(I, a, k):
    w, cs = chk(I, a[0]), [chk(I, x) for x in a[1:]]
    if not cs:
        T.raise_(I, 'TypeError', 'select_n requires cases')
    sh = cs[0].shape()
    for c in cs:
        if c.shape() != sh:
            T.raise_(I, 'TypeError', 'select_n: cases must have the same shape')
    if w.shape() != sh and w.rank != 0:
        T.raise_(I, 'TypeError', 'select_n: which must be scalar or have the shape of the cases')

    def g(p, *c):
        if p is None or any(x is None for x in c):
            return None
        if isinstance(p, Poly) and p.as_const() is not None:
            return c[int(p.as_const())]
        if isinstance(p, Poly) and all(isinstance(x, Poly) for x in c):
            b = p.split_eps()[0]
            if len(c) == 2:
                return sel_poly(I, b, c[0], c[1])
            out = ZERO
            for i, x in enumerate(c):
                out = out + x * Poly.atom(('app', f'ind{i}', (b,), (0,), True, 'ew'))
            return out
        if any(isinstance(x, tuple) for x in c):
            return ('F', 'select', (p,) + tuple(c))
        return None
    return T.pointwise(I, [w] + cs, g, promote(*[c.dt for c in cs]), 'jx' if any(x.stage == 'jx' for x in [w] + cs) else jst(I, w))


@lax('dynamic_slice')
def l_dslice(I, a, k):
    v = chk(I, a[0])
    sz = k.get('slice_sizes')
    idx = a[1:]
    if sz is None:
        idx, sz = I.iterate(a[1]), a[2]
    sz = ptuple(I, sz)
    idx = [chk(I, x) for x in idx]
    if len(idx) != v.rank or len(sz) != v.rank:
        T.raise_(I, 'TypeError', 'dynamic_slice: number of start indices')
    # contiguous window; opaque position
    return index_like(I, 'dynamic_slice', v, idx, sz)


def index_like(I, name, v, idx, sz):
    iv = [next(iter(x.blocks.values())) for x in idx]
    sig = ','.join(str(x) for x in iv)
    nm = f'{name}[{sig}]'
    out = [((('win', name, d, sig), topoly(s)) if topoly(s) != ONE else (None, ONE)) for d, s in enumerate(sz)]
    r = opaque_fn(I, nm, [v], out, 'lin', v.dt)
    return r.but(stage='jx' if any(x.stage == 'jx' for x in [v] + idx) else jst(I, v))


@lax('gather')
def l_gather(I, a, k):
    v, ix = chk(I, a[0]), chk(I, a[1])
    sh = I.models.gather_shape
    if sh is None:
        raise Unknown('gather')
    return index_like(I, 'gather', v, [ix], sh)


@lax('scatter', 'scatter_add', 'scatter_mul', 'scatter_max', 'scatter_min')
def l_scatter(I, a, k):
    raise Unknown('scatter')


def mk_scatter(name, kind_):
    def f(I, a, k):
        op, ix, up = chk(I, a[0]), chk(I, a[1]), chk(I, a[2])
        out = []
        for d, ax in enumerate(op.axes):
            if len(ax) != 1:
                raise Unknown('scatter into a segmented array')
            out.append(ax[0])
        ic = next(iter(ix.blocks.values()))
        nm = f'{name}[{ic}]'
        r = opaque_fn(I, nm, [op, up], out, kind_, promote(op.dt, up.dt))
        return r.but(stage='jx' if any(x.stage == 'jx' for x in (op, ix, up)) else jst(I, op))
    return f


LAX['scatter'] = mk_scatter('scatter', 'lin')
LAX['scatter_add'] = mk_scatter('scatter_add', 'lin')
LAX['scatter_max'] = mk_scatter('scatter_max', 'pwl')
LAX['scatter_min'] = mk_scatter('scatter_min', 'pwl')
LAX['scatter_mul'] = mk_scatter('scatter_mul', 'gen')


@lax('concatenate')
def l_concat(I, a, k):
    if len(a) > 1 and 'dimension' in k or not isinstance(a[0], (tuple, Ref)):
        ops, dim = a, k['dimension']
    else:
        ops, dim = I.iterate(a[0]), getp(a, k, 1, 'dimension')
    return EXT['jnp.concatenate'](I, (tuple(ops),), {'axis': dim})


def cum(name, kind_):
    def f(I, a, k):
        v = chk(I, a[0])
        ax = getp(a, k, 1, 'axis', 0)
        if not 0 <= ax < v.rank:
            T.raise_(I, 'ValueError', f'axis {ax} out of range')
        rv = getp(a, k, 2, 'reverse', False)
        nm = f'{name}{"r" if rv else ""}'
        if len(v.axes[ax]) != 1:
            raise Unknown('cumulative operation over a segmented axis')
        l, n = v.axes[ax][0]
        if n == ONE:
            return v
        nl = ('op', nm, l)
        blocks = {}
        for kk, c in v.blocks.items():
            if isinstance(c, tuple):
                blocks[kk] = ('F', nm, (c,))
            else:
                blocks[kk] = None if c is None else opaque_poly(I, nm, [c], T.comps(l), frozenset([nl]), kind_)
        axes = v.axes[:ax] + (((nl, n),),) + v.axes[ax + 1:]
        return Arr(axes, blocks, v.dt, v.stage if v.stage in ('jx', 'ct') else jst(I, v))
    return f


for _n, _k in (('cumsum', 'lin'), ('cumprod', 'gen'), ('cummax', 'pwl'), ('cummin', 'pwl'), ('cumlogsumexp', 'gen')):
    LAX[_n] = cum(_n, _k)
    OPAQUE_LAX.add(_n)


def axes_of(I, a, k):
    return ptuple(I, getp(a, k, 1, 'axes'))


@lax('reduce_sum')
def l_rsum(I, a, k):
    v = chk(I, a[0])
    return out_stage(I, T.reduce_sum(I, v, axes_of(I, a, k)), v)


def mk_red(name):
    def f(I, a, k):
        v = chk(I, a[0])
        return opaque_reduce(I, name, v, axes_of(I, a, k))
    return f


for _n in ('reduce_max', 'reduce_min', 'reduce_prod'):
    LAX[_n] = mk_red(_n)
    OPAQUE_LAX.add(_n)


@lax('dot_general')
def l_dot_general(I, a, k):
    dn = getp(a, k, 2, 'dimension_numbers')
    x, y = chk(I, a[0]), chk(I, a[1])
    (lc, rc), (lb, rb) = [(ptuple(I, p[0]), ptuple(I, p[1])) for p in I.iterate(dn)]
    L = [None] * x.rank
    R = [None] * y.rank
    let = iter('abcdefghijklmnopqrstuvwxyz')
    out = []
    for i, j in zip(lb, rb):
        c = next(let)
        L[i], R[j] = c, c
        out.append(c)
    for i, j in zip(lc, rc):
        L[i] = R[j] = next(let)
    for i in range(x.rank):
        if L[i] is None:
            L[i] = next(let)
            out.append(L[i])
    for j in range(y.rank):
        if R[j] is None:
            R[j] = next(let)
            out.append(R[j])
    r = T.einsum(I, f'{"".join(L)},{"".join(R)}->{"".join(out)}', [x, y], promote(x.dt, y.dt), op_stage(I, [x, y]))
    return out_stage(I, r, x, y)


@lax('copy', 'copy_p', 'optimization_barrier')
def l_id(I, a, k):
    return a[0]


@lax('opaque_op')
def l_opaque_op(I, a, k):
    """Stand-in for a primitive folx has no rule for."""
    vs = [chk(I, x) for x in a]
    return opaque_fn(I, 'opaque_op', vs, [(('A', 'oo'), Poly.atom(('n', 'noo')))], 'gen')


def lax_call(I, name, a, k):
    n = name[4:]
    if n.endswith('.bind'):
        n = n[:-5]
        n = n[:-2] if n.endswith('_p') else n
    n = {'xor': 'bitwise_xor', 'and': 'bitwise_and', 'or': 'bitwise_or', 'not': 'bitwise_not'}.get(n, n)
    k = {q: v for q, v in k.items() if q not in ('precision', 'preferred_element_type', 'sharding', 'out_sharding')}
    h = LAX.get(n)
    if h is None:
        h = EXT.get('lax.' + n)
        if h is None:
            raise Unknown(f'lax.{n}')
    return h(I, a, k)


@ext('jnp.linalg.inv')
def x_inv(I, a, k):
    v = chk(I, a[0])
    if v.rank < 2:
        T.raise_(I, 'ValueError', 'inv of a vector')
    blocks = {}
    (l1, n1), (l2, n2) = v.axes[-2][0], v.axes[-1][0]
    if len(v.blocks) != 1:
        raise Unknown('inv of a segmented array')
    kk, c = next(iter(v.blocks.items()))
    if not isinstance(c, Poly):
        raise Unknown('inv')
    if c.bad():
        r = c
    else:
        b, nil = c.split_eps()
        nm = ('inv', show_p(b))
        if not nil.is_zero():
            raise Unknown('derivative of inv')
        I.models.deps.setdefault(nm, frozenset(T.comps(l1) | T.comps(l2) | dep_labels(I, b, v)))
        r = Poly.atom(('v', nm, b.is_real()))
    axes = v.axes[:-2] + (((l2, n2),), ((l1, n1),))
    return Arr(axes, {kk: r}, v.dt, v.stage if v.stage in ('jx', 'ct') else jst(I, v))


def show_p(p):
    return str(p)


def dep_labels(I, p, v):
    out = set()
    for ax in v.axes:
        for l, _ in ax:
            if l is not None and T.depends(I, p, l):
                out |= T.comps(l)
    return out


@ext('jnp.linalg.slogdet', lift=True)
def x_slogdet(I, a, k):
    v = chk(I, a[0])
    if len(v.blocks) != 1:
        raise Unknown('slogdet')
    kk, c = next(iter(v.blocks.items()))
    if not isinstance(c, Poly):
        raise Unknown('slogdet')
    cons = set()
    for d in (-2, -1):
        cons |= T.comps(v.axes[d][0][0])
    out = []
    for nm in ('sgndet', 'logabsdet'):
        b, nil = c.split_eps()
        if not nil.is_zero():
            raise Unknown('derivative of slogdet')
        r = c if c.bad() else Poly.atom(('app', nm, (b,), ('D',), nm == 'logabsdet' or b.is_real(), ('op', frozenset(cons), frozenset())))
        d = v.dt if nm == 'sgndet' else Dt('f', v.dt.key)
        out.append(Arr(v.axes[:-2], {kk[:-2]: r}, d, v.stage if v.stage in ('jx', 'ct') else jst(I, v)))
    return tuple(out)


# =================================================================== segment sums

@ext('jax.ops.segment_sum')
def x_segment_sum(I, a, k):
    names = ['data', 'segment_ids', 'num_segments']
    d = dict(zip(names, a))
    d.update(k)
    return segment_sum(I, chk(I, d['data']), chk(I, d['segment_ids']), d.get('num_segments'))


def segment_sum(I, x, ids, num):
    if ids.rank != 1:
        T.raise_(I, 'ValueError', f'segment_sum: ids of rank {ids.rank}') if ids.rank > x.rank else None
        raise Unknown('segment_sum with multi-dimensional ids')
    if axis_size(x.axes[0]) != axis_size(ids.axes[0]):
        T.raise_(I, 'TypeError', f'segment_sum: {norm(axis_size(x.axes[0]))} entries but {norm(axis_size(ids.axes[0]))} segment ids')
    st = 'jx' if 'jx' in (x.stage, ids.stage) else jst(I, x)
    if num is None:
        return seg_hot(I, x, ids, st)
    num = topoly(num)
    axis, (mx, mi), ok = T.unify_axes(I, [x.axes[0], ids.axes[0]])
    kx = T.nk(x.axes)
    out, olab, osz = {}, None, None
    for k in T.keys((axis,) + x.axes[1:]):
        c, t = x.blocks[(mx[k[0]],) + k[1:]], ids.blocks[(mi[k[0]],)]
        kk = (0,) + k[1:]
        l, n = axis[k[0]]
        r = seg_content(I, c, t, num, l, n, kx) if ok else ('poly', T.bad('segment ids of different axes'), None)
        if r is None:
            out[kk] = None
            continue
        _, p, ol = r
        if ol is not None:
            if olab is None:
                olab = ol
            elif olab != ol:
                p = T.bad('entries are summed into different index sets')
        if kk in out:
            out[kk] = None if out[kk] is None or p is None else out[kk] + p
        else:
            out[kk] = p
    ax0 = ((olab, num),) if num != ONE or olab is not None else T.ONESEG
    return Arr((ax0,) + x.axes[1:], out, x.dt, st)


def seg_content(I, c, t, num, l, n, kx):
    """Content after summing entries into slots given by the index term t: (tag, Poly, output label)."""
    if c is None or t is None:
        return None
    if isinstance(c, tuple):
        return None
    if not isinstance(t, tuple):
        cc = t.as_const() if isinstance(t, Poly) else None
        return None
    tgt = None
    if t[0] in ('pos', 'argeq'):
        src, tgt = t[1], t[2]
        if t[0] == 'argeq' and not subset_ok(src, tgt):
            return ('poly', T.bad('entries of absent inputs are added to the first slot'), None)
    elif t[0] in ('M', 'R', 'U'):
        src = t
        if num == Poly.atom(('n', ('max', t))) + ONE or num == Poly.atom(('n', ('maxof', frozenset([('max', t)])))) + ONE:
            tgt = ('full', num)
        elif I.models.bounds(num - (Poly.atom(('n', ('max', t))) + ONE))[0]:
            tgt = ('full', num)
        else:
            return ('poly', T.bad('stored entries are scattered by input index into too few slots'), None)
    else:
        return None
    if tgt[0] == 'full':
        ol = ('J',)
    else:
        ol = ('O', tgt)
    out = ZERO
    if c.bad():
        return ('poly', c, ol)
    for m, k in c.t.items():
        js = T.jdeg(I, m)
        one = Poly({m: k})
        if not js:
            out = out + T.bad('values without Jacobian entries are summed by input index')
            continue
        if len(js) != 1:
            out = out + T.bad('products of Jacobian entries are summed by input index')
            continue
        nm, kd, tt = js[0]
        if kd != 'S' or tt != src:
            out = out + T.bad('Jacobian entries are summed with the index pattern of something else')
            continue
        def f(a, nm=nm, tt=tt):
            if a[0] == 'S' and a[1] == nm and a[2] == tt:
                if tgt[0] == 'full':
                    return Poly.atom(('v', nm, a[3]))
                return Poly.atom(('S', nm, tgt, a[3]))
            return None
        q = one.subst(f)
        out = out + q
    return ('poly', out, ol)


def subset_ok(src, tgt):
    if tgt[0] in ('U', 'R') and src[0] == 'M':
        return src[1] in tgt[1]
    if tgt[0] in ('U', 'R') and src[0] in ('U', 'R', 'I'):
        return src[1] <= tgt[1]
    if tgt[0] == 'full':
        return True
    return src == tgt


def seg_hot(I, x, ids, st):
    raise Unknown('segment_sum without num_segments')


@ext('lax.fori_loop', lift=False)
def x_fori(I, a, k):
    d = dict(zip(('lower', 'upper', 'body_fun', 'init_val'), a))
    d.update(k)
    lo, hi = topoly(d['lower']), topoly(d['upper'])
    lo, hi = (lo and lo.as_const() if lo != ZERO else 0), hi and hi.as_const()
    if lo is None or hi is None or hi - lo > 16:
        return I.top('fori_loop is not modelled')
    v = d['init_val']
    for i in range(int(lo), int(hi)):
        v = I.call(d['body_fun'], (i, v), {})
    return v


@ext('lax.cond', 'lax.while_loop', 'lax.switch')
def x_ctrl(I, a, k):
    raise Unknown('control flow')
