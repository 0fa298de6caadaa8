"""Ownership: arrays handed in by the caller carry their name; views keep it, copies and results of array functions do not.
In-place updates of storage that carries a name are recorded as 'mutate' events."""
from .values import *
from . import oracle as O
from .world import World

# results share (or may share) the storage of the first argument
VIEWS = {f'np.{n}' for n in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'expand_dims', 'broadcast_to',
                             'broadcast_arrays', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'diagonal', 'split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'flip', 'fliplr', 'flipud', 'rot90', 'real', 'imag',
                             'require', 'matrix_transpose', 'unstack', 'permute_dims', 'asarray_chkfinite', 'frombuffer', 'nditer')}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view', 'diagonal', '__getitem__', '__array__', 'getfield', 'newbyteorder'}
VIEW_ATTRS = {'T', 'mT', 'real', 'imag', 'flat', 'base'}
IN_PLACE = {'np.copyto', 'np.put', 'np.place', 'np.putmask', 'np.fill_diagonal', 'np.random.shuffle', 'np.put_along_axis'}
PASS = {'np.ndarray.__new__'}
ARRAY_KINDS = {'vmap', 'vectorize', 'jit', 'vjpfn', 'linfn', 'grad', 'jacrev', 'jacfwd', 'unravel'}


def clean(I, v):
    return tag(I, v, frozenset())


def fresh(I, v):
    """The result of an operator is an array of its own."""
    if isinstance(v, Phi):
        return I.mkphi(v.g, fresh(I, v.a), fresh(I, v.b))
    return v.but(own=frozenset()) if isinstance(v, Arr) and v.own else v


def tag(I, v, own):
    v = I.rdeep(v) if isinstance(v, Phi) else v
    if isinstance(v, Arr):
        return v if v.own == own else v.but(own=own)
    if isinstance(v, tuple):
        return tuple(tag(I, x, own) for x in v)
    if isinstance(v, NT):
        return NT(v.cls, [tag(I, x, own) for x in v.items])
    if isinstance(v, Phi):
        return I.mkphi(v.g, tag(I, v.a, own), tag(I, v.b, own))
    if isinstance(v, Ref):
        o = I.deref(v)
        if isinstance(o, ListObj):
            I.st.set(v.addr, ListObj([tag(I, x, own) for x in o.items], o.own))
        elif isinstance(o, DictObj):
            I.st.set(v.addr, DictObj([(k, tag(I, x, own)) for k, x in o.items], o.own, o.factory))
    return v


def owners(I, v):
    v = I.rdeep(v) if isinstance(v, (Phi, Ref)) else v
    if isinstance(v, Arr):
        return v.own
    if isinstance(v, (tuple,)):
        return frozenset().union(*[owners(I, x) for x in v])
    if isinstance(v, NT):
        return owners(I, tuple(v.items))
    if isinstance(v, Phi):
        return owners(I, v.a) | owners(I, v.b)
    if isinstance(v, Ref):
        o = I.deref(v)
        if isinstance(o, ListObj):
            return owners(I, tuple(o.items))
    return frozenset()


def before(I, f, a, k):
    """In-place updates made by library functions."""
    if isinstance(f, ExtV) and f.name.startswith('np.'):
        if f.name in IN_PLACE or f.name.endswith('.at'):
            I.touched(a[0] if a else k.get('dst', k.get('a', k.get('arr'))), f.name)
        out = k.get('out')
        if out is not None:
            for x in out if isinstance(out, tuple) else (out,):
                I.touched(x, f'{f.name}(out=...)')
        elif f.name in UFUNC2 and len(a) > 2:
            I.touched(a[2], f'{f.name}(..., out)')
        elif f.name in UFUNC1 and len(a) > 1:
            I.touched(a[1], f'{f.name}(..., out)')
    if isinstance(f, MethV) and isinstance(I.rdeep(f.obj), (Arr, Phi)):
        if f.name in ('fill', 'sort', 'put', 'resize', 'itemset', 'partition', 'setflags', '__setitem__', '__iadd__', '__isub__', '__imul__', '__itruediv__', '__ifloordiv__', 'byteswap', 'setfield'):
            I.touched(f.obj, f'.{f.name}()')
        if k.get('out') is not None:
            I.touched(k['out'], f'.{f.name}(out=...)')
    if isinstance(f, ExtV) and f.name in ('operator.iadd', 'operator.isub', 'operator.imul', 'operator.itruediv', 'operator.setitem', 'operator.iand', 'operator.ior') and a:
        I.touched(a[0], f.name)


UFUNC2 = {f'np.{n}' for n in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'maximum', 'minimum', 'power', 'mod', 'remainder', 'logical_and', 'logical_or', 'equal', 'greater', 'less', 'bitwise_and', 'bitwise_or')}
UFUNC1 = {f'np.{n}' for n in ('negative', 'absolute', 'abs', 'exp', 'log', 'sqrt', 'square', 'sign', 'logical_not', 'conj', 'conjugate')}


def after(I, f, a, k, r):
    if isinstance(f, ExtV):
        n = f.name
        if n.startswith('np.'):
            own = frozenset()
            c = k.get('copy')
            if n in VIEWS and c is not True or n == 'np.array' and c is False or n == 'np.nan_to_num' and c is False:
                own = owners(I, a[0]) if a else frozenset()
                if n == 'np.broadcast_arrays':
                    own = owners(I, tuple(a))
            return tag(I, r, own) if not isinstance(r, Ref) or n in VIEWS else r
        if n.startswith(('jnp.', 'lax.')) and n not in ('lax.scan', 'lax.cond', 'lax.while_loop', 'lax.fori_loop', 'lax.map', 'lax.switch', 'jnp.vectorize', 'jnp.dtype', 'jnp.shape'):
            return clean(I, r)
        return r
    if isinstance(f, MethV) and isinstance(f.obj, Arr):
        if f.name in VIEW_METHODS or f.name == 'astype' and k.get('copy', True) is not True:
            return tag(I, r, f.obj.own)
        return clean(I, r) if not isinstance(r, Ref) else r
    if isinstance(f, ModelV) and f.kind in ARRAY_KINDS and not isinstance(r, (ModelV, Obj)):
        return clean(I, r)
    return r


def indexed(I, v, i, r):
    """Basic indexing gives a view; indexing with arrays or masks a copy; a single entry a number."""
    if not v.own:
        return r

    def basic(x):
        return x is None or isinstance(x, SliceV) or x is Ellipsis or isinstance(x, ExtV) or isinstance(x, (int, Poly)) and not isinstance(x, bool)
    parts = i if isinstance(i, tuple) else (i,)
    ok = all(basic(I.rdeep(x)) for x in parts)
    if ok and isinstance(r, Arr) and r.rank == 0 and all(isinstance(I.rdeep(x), (int, Poly)) for x in parts):
        ok = False
    return tag(I, r, v.own if ok else frozenset())


# ------------------------------------------------------------------ units
def start(W):
    W.I.owning = True


def watched(run, *a):
    """Runs an analysis unit with caller-owned operands and reports in-place updates of them."""
    ws = []

    def on(W):
        W.I.owning = True
        ws.append(W)
    World.on_start = on
    try:
        o = run(*a)
    finally:
        World.on_start = None
    out = O.Outcome()
    out.reach = set()
    inner = o[0] if isinstance(o, tuple) else o
    for W in ws:
        I = W.I
        out.n += I.stores
        out.ok += I.stores
        seen = set()
        for e in I.events:
            if e['kind'] != 'mutate' or not e['fn'].startswith('folx'):
                continue
            own = e['own']
            who = own if isinstance(own, str) else ', '.join(sorted(own))
            t = (who, e['fn'], e['line'])
            if t in seen:
                continue
            seen.add(t)
            what = {'userfn': 'a function given by the caller'}.get(who, f'an array of the caller ({who})' if not isinstance(own, str) else f'a container of {who}' if isinstance(e['obj'], (ListObj, DictObj)) else f'an object ({who}) of the caller')
            cond = tuple((g, v) for g, v in e['assume'].items())
            out.ok -= 1
            out.add('und' if O.uncertain(cond) else 'bad', 'mutate', f'{what} is updated in place at {e["mod"]}:{e["line"]} in {e["fn"]}' + (f' ({e["how"]})' if e.get('how') else ''), cond)
        out.reach |= set(I.reach)
    out.n += 1
    if not out.bad:
        if inner.und and not inner.ok:
            out.add('und', 'unknown', inner.und[0].msg)
        else:
            out.ok += 1
    return out
