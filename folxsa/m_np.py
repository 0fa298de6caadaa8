"""NumPy / jax.numpy arrays: attributes, indexing, construction, index-set operations."""
import ast
from fractions import Fraction
from functools import reduce as freduce

from .poly import Poly, ZERO, ONE, I as IMAG
from .values import *
from .interp import AbsRaise, Unknown
from .models import ext, kind, meth, CONSTS, EXT, METH
from . import tensor as T
from .m_py import seq, minmax, tracer_error

# ------------------------------------------------------------------ dtypes
for _n, _k, _key in (('float32', 'f', '32'), ('float64', 'f', '64'), ('float16', 'f', '16'), ('bfloat16', 'f', 'b16'),
                     ('complex64', 'c', '32'), ('complex128', 'c', '64'), ('int32', 'i', '32'), ('int64', 'i', '64'),
                     ('int8', 'i', '8'), ('uint8', 'i', 'u8'), ('uint32', 'i', 'u32'), ('bool_', 'b', 'b'), ('int16', 'i', '16'),
                     ('uint16', 'i', 'u16'), ('uint64', 'i', 'u64')):
    CONSTS['np.' + _n] = CONSTS['jnp.' + _n] = Dt(_k, _key)

PYDT = {'builtins.int': Dt('i', 'def'), 'builtins.float': Dt('f', 'def'), 'builtins.bool': Dt('b', 'b'),
        'builtins.complex': Dt('c', 'def')}
STRDT = {'float32': Dt('f', '32'), 'float64': Dt('f', '64'), 'int32': Dt('i', '32'), 'int64': Dt('i', '64'),
         'bool': Dt('b', 'b'), 'complex64': Dt('c', '32'), 'complex128': Dt('c', '64'), 'float': Dt('f', 'def'), 'int': Dt('i', 'def'),
         'float16': Dt('f', '16'), 'bfloat16': Dt('f', 'b16'), 'int8': Dt('i', '8'), 'int16': Dt('i', '16'), 'uint8': Dt('i', 'u8'), 'uint16': Dt('i', 'u16'), 'uint32': Dt('i', 'u32'),
         'uint64': Dt('i', 'u64'), 'complex': Dt('c', 'def'), 'single': Dt('f', '32'), 'double': Dt('f', '64'), 'half': Dt('f', '16')}
DTNAME = {v: k for k, v in STRDT.items() if k[-1].isdigit() or k == 'bool'}
KORD = 'bifc'


def to_dt(v):
    if isinstance(v, Dt):
        return v
    if isinstance(v, ExtV):
        return PYDT.get(v.name)
    if isinstance(v, str):
        return STRDT.get(v)
    return None


def want_dt(I, v, default):
    if v is None:
        return default
    d = to_dt(v)
    if d is None:
        raise Unknown('dtype')
    return d


def promote(*ds):
    ds = [d for d in ds if d is not None]
    k = max((d.kind for d in ds), key=KORD.index)
    strong = [d for d in ds if d.key != 'weak']
    fl = [d for d in strong if d.kind in 'fc']
    if k in 'fc':
        keys = {d.key for d in fl}
    else:
        keys = {d.key for d in strong if d.kind == k}
    if not keys:
        return Dt(k, 'weak' if not strong or k in 'fc' and not fl else 'def')
    if len(keys) == 1:
        return Dt(k, next(iter(keys)))
    if '64' in keys:
        return Dt(k, '64')
    if 'p' in keys and keys <= {'p', 'def', '32'}:
        return Dt(k, 'p' if keys == {'p', '32'} else 'mix')
    return Dt(k, sorted(keys)[0])


# ------------------------------------------------------------------ stages
def stage(I, ns, arrs, what=None):
    ss = {a.stage for a in arrs}
    if 'jx' in ss:
        if ns == 'np':
            tracer_error(I, None, what or 'np function')
        return 'jx'
    if ns == 'np':
        return 'np'
    if I.compile_time or not I.models.jitted:
        return 'ct'
    return 'jx'


def lazy_stage(I, ns, arrs):
    """NumPy functions that defer to the method of a jax array."""
    ss = {a.stage for a in arrs}
    if ns == 'np' and ss & {'jx', 'ct'}:
        return 'jx' if 'jx' in ss else 'ct'
    return stage(I, ns, arrs)


# ------------------------------------------------------------------ concrete arrays
def cv(I, v):
    """Nested tuples of known entries (numbers / symbolic sizes), or None."""
    if isinstance(v, Arr):
        if v.cval is not None:
            return v.cval
        if v.rank == 0:
            c = v.blocks.get(())
            if isinstance(c, Poly) and (c.as_const() is not None or all(a[0] == 'n' for a in c.atoms())) and v.dt.kind in 'ib':
                return norm(c)
        return None
    if isinstance(v, bool) or is_num(v):
        return v
    if isinstance(v, FlagV):
        return v.val
    if isinstance(v, (tuple, NT, Ref)) or isinstance(v, ModelV) and v.kind in ('gen', 'range'):
        it = I.iterate(v)
        if isinstance(it, (Top, AbsList)):
            return None
        out = []
        for x in it:
            x = I.rdeep(x)
            if x is None:
                return None
            y = cv(I, x)
            if y is None:
                return None
            out.append(y)
        return tuple(out)
    return None


def cshape(n):
    s = ()
    while isinstance(n, tuple):
        s += (len(n),)
        if not n:
            break
        n = n[0]
    return s


def cflat(n):
    if isinstance(n, tuple):
        return [y for x in n for y in cflat(x)]
    return [n]


def cunflat(flat, shape):
    if not shape:
        return flat[0]
    if len(shape) == 1:
        return tuple(flat)
    m = 1
    for s in shape[1:]:
        m *= s
    return tuple(cunflat(flat[i * m:(i + 1) * m], shape[1:]) for i in range(shape[0]))


def mkc(n, dt=None, stg='np', shape=None):
    shape = shape if shape is not None else cshape(n)
    fl = cflat(n)
    if dt is None:
        dt = Dt('b', 'b') if fl and all(isinstance(x, bool) for x in fl) else \
            (Dt('f', 'def') if any(isinstance(x, float) for x in fl) or not fl else Dt('i', 'def'))
    axes = tuple(((None, Poly.const(s)),) for s in shape)
    p = [topoly(x) for x in fl]
    c = p[0] if p and all(x == p[0] for x in p) else (ZERO if not p else None)
    return Arr(axes, {tuple(0 for _ in axes): c}, dt, stg, cval=n)


def cmap(f, *ns):
    """Broadcasting element-wise map on nested tuples."""
    shapes = [cshape(n) for n in ns]
    r = max(len(s) for s in shapes)
    if r == 0:
        return f(*ns)
    out = []
    dims = [s[0] for s in shapes if len(s) == r]
    m = max(dims)
    if 0 in dims:
        m = 0
    for i in range(m):
        xs = []
        for n, s in zip(ns, shapes):
            if len(s) < r:
                xs.append(n)
            else:
                xs.append(n[0] if s[0] == 1 else n[i])
        out.append(cmap(f, *xs))
    return tuple(out)


def ints(n):
    return all(isinstance(x, int) for x in cflat(n))


# ------------------------------------------------------------------ conversion
def arr(I, v, what='array'):
    if isinstance(v, Arr):
        return v
    if is_num(v):
        return T.lift_scalar(v)
    if isinstance(v, (tuple, NT)) or isinstance(v, Ref) and isinstance(I.deref(v), (ListObj,)) or isinstance(v, AbsList) or isinstance(v, ModelV) and v.kind in ('range',):
        c = cv(I, v)
        if c is not None:
            return mkc(c)
        return stack(I, v, 0)
    if isinstance(v, Top):
        raise Unknown(f'{what}: {v.why}')
    if v is None or isinstance(v, (NT, FuncV, ClassV, str)) or isinstance(v, ModelV) and v.kind in ('gen', 'set'):
        T.raise_(I, 'TypeError', f'{type(v).__name__} is not a valid array')
    raise Unknown(f'{what} from {type(v).__name__}')


def is_py(a):
    return a.stage == 'py'


def stack(I, v, axis, dt=None):
    if isinstance(v, AbsList):
        e = arr(I, v.elem) if not isinstance(v.elem, AbsList) else stack(I, v.elem, 0)
        ax = v.axis if v.axis is not None else ((None, topoly(v.size)),)
        n = e.rank + 1
        p = axis % n
        axes = e.axes[:p] + (ax,) + e.axes[p:]
        blocks = {}
        for k in T.keys(axes):
            blocks[k] = e.blocks[k[:p] + k[p + 1:]]
        return Arr(axes, blocks, e.dt, e.stage)
    items = [arr(I, x) if not isinstance(x, AbsList) else stack(I, x, 0) for x in seq(I, v, 'stack')]
    if not items:
        return mkc(())
    r = items[0].rank
    for x in items:
        if x.rank != r:
            T.raise_(I, 'ValueError', 'stacking arrays of different rank')
    p = axis % (r + 1)
    axes = []
    maps = []
    allok = True
    for d in range(r):
        szs = {axis_size(x.axes[d]) for x in items}
        if len(szs) > 1:
            T.raise_(I, 'ValueError', f'stack: shapes differ in dimension {d}')
        ax, m, ok = T.unify_axes(I, [x.axes[d] for x in items])
        axes.append(ax if next(iter(szs)) != ONE else T.ONESEG)
        maps.append(m)
        allok = allok and ok
    same = all(x.blocks == items[0].blocks for x in items)
    seg = ((None, Poly.const(len(items))),) if same else tuple((None, ONE) for _ in items)
    out_axes = tuple(axes[:p]) + (seg,) + tuple(axes[p:])
    blocks = {}
    for k in T.keys(out_axes):
        j = k[p]
        kk = k[:p] + k[p + 1:]
        x = items[j]
        src = tuple(maps[d][j][kk[d]] for d in range(r))
        c = x.blocks[src]
        if not allok and not isinstance(c, tuple) and not (isinstance(c, Poly) and c.as_const() is not None):
            c = T.bad('stacked values have different axis order')
        blocks[k] = c
    sts = {x.stage for x in items} - {'py'}
    st = 'jx' if 'jx' in sts else ('ct' if 'ct' in sts else 'np')
    return Arr(out_axes, blocks, dt or promote(*[x.dt for x in items]), st)


def scalar_of(I, a):
    """Python/NumPy number for a rank-0 constant array."""
    if a.rank != 0:
        if all(axis_size(x) == ONE for x in a.axes):
            a = T.squeeze(I, a, range(a.rank))
        else:
            T.raise_(I, 'TypeError', 'only length-1 arrays can be converted to scalars')
    c = a.blocks[()]
    if isinstance(c, Poly):
        return norm(c)
    if isinstance(c, tuple):
        return Poly.atom(('n', c))
    raise Unknown('unknown scalar')


def npnum(I, a):
    """NumPy integer results of rank 0 become numbers; everything else stays an array."""
    if isinstance(a, Arr) and a.rank == 0 and a.stage == 'np' and a.dt.kind in 'ib':
        c = a.blocks[()]
        if a.dt.kind == 'b':
            if isinstance(c, Poly) and c.as_const() is not None:
                return bool(c.as_const())
            return a
        if c is not None:
            return scalar_of(I, a)
    return a


def axes_arg(I, ax, rank):
    """axis argument -> sorted tuple of non-negative ints, or None for all."""
    if ax is None:
        return None
    c = cv(I, ax)
    if c is None:
        raise Unknown('axis argument')
    if not isinstance(c, tuple):
        c = (c,)
    out = []
    for x in c:
        if not isinstance(x, int):
            raise Unknown('symbolic axis')
        if not -rank <= x < max(rank, 1):
            T.raise_(I, 'ValueError', f'axis {x} is out of bounds for array of dimension {rank}')
        out.append(x % rank)
    if len(set(out)) != len(out):
        T.raise_(I, 'ValueError', 'duplicate axis')
    return tuple(out)


# ------------------------------------------------------------------ simplification of index terms
def simp(I, t):
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return t
    if t[0] == 'first' and I.st.assume.get(('rep', t[1], t[2])):
        return simp(I, t[2])
    if t[0] in ('M', 'U', 'I', 'R', 'full', 'K', 'J', 'O', 'A'):
        if t[0] == 'M':
            r = canon_mask(I, t[1])
            return t if r == t[1] else ('M', r)
        if t[0] in ('U', 'I', 'R') and isinstance(t[1], frozenset):
            n = frozenset(canon_mask(I, m) for m in t[1])
            return t if n == t[1] else (t[0], n)
        return t
    return tuple(simp(I, x) if isinstance(x, tuple) else x for x in t)


def canon_mask(I, m):
    """Representative of masks assumed equal on the current path."""
    best = m
    for g, v in I.st.assume.items():
        if v and isinstance(g, tuple) and g[0] == 'same' and m in g[1]:
            for x in g[1]:
                if str(x) < str(best):
                    best = x
    return best


def simp_arr(I, a):
    if a.stage == 'py':
        return a
    ch = {}
    for k, c in a.blocks.items():
        if isinstance(c, tuple):
            n = simp(I, c)
            if n is not c:
                ch[k] = n
    if not ch:
        return a
    b = dict(a.blocks)
    b.update(ch)
    return a.but(blocks=b)


# ------------------------------------------------------------------ element-wise operations
def c_add(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a + b
    if a is None or b is None:
        return None
    if isinstance(a, Poly) and a.is_zero():
        return b
    if isinstance(b, Poly) and b.is_zero():
        return a
    return ('add', a, b)


def app_poly(I, name, ps, real, par='ew'):
    """Opaque differentiable function of polynomials, expanded in the perturbations.

    Second derivatives vanish for piecewise-linear functions; `par` 'lin' marks linear ones."""
    from .m_jax import deriv_zero
    for p in ps:
        b = p.bad()
        if b is not None:
            return T.bad(b)
    bases, nils = [], []
    for p in ps:
        b, n = p.split_eps()
        bases.append(b)
        nils.append(n)
    n = len(ps)
    out = Poly.atom(('app', name, tuple(bases), (0,) * n, real, par))
    # multi-index expansion
    layer = {(0,) * n: ONE}
    fact = {(0,) * n: 1}
    seen = {(0,) * n}
    front = [(0,) * n]
    while front:
        nxt = []
        for d in front:
            for i in range(n):
                if nils[i].is_zero():
                    continue
                e = d[:i] + (d[i] + 1,) + d[i + 1:]
                if e in seen:
                    continue
                seen.add(e)
                q = ONE
                f = 1
                for j in range(n):
                    for z in range(e[j]):
                        q = q * nils[j]
                        f *= z + 1
                if q.is_zero():
                    continue
                nxt.append(e)
                if deriv_zero(I, name, e):
                    continue
                out = out + Poly.atom(('app', name, tuple(bases), e, real, par)) * q.scale(Fraction(1, f))
        front = nxt
    return out


def ew(I, ns, fn, args, dt=None, what=None):
    """Element-wise function on contents; fn(Poly...) -> Poly."""
    arrs = [simp_arr(I, arr(I, x)) for x in args]
    cvs = [a.cval if a.cval is not None else (norm(a.blocks[()]) if a.rank == 0 and isinstance(a.blocks[()], Poly) else None) for a in arrs]
    st = stage(I, ns, arrs, what) if ns else op_stage(I, arrs)
    d = dt or promote(*[a.dt for a in arrs])
    if st == 'np' and all(c is not None for c in cvs) and any(a.cval is not None for a in arrs):
        r = cmap(lambda *x: norm(fn(*[topoly(y) for y in x])), *cvs)
        if isinstance(r, tuple) or r is not None:
            return mkc(r, d, st)
    return T.pointwise(I, arrs, fn, d, st)


def op_stage(I, arrs):
    """Stage of an operator (array methods decide)."""
    ss = {a.stage for a in arrs}
    if 'jx' in ss:
        return 'jx'
    if 'ct' in ss:
        return 'ct' if I.compile_time or not I.models.jitted else 'jx'
    return 'np'


def ns_of(k, ns):
    return None if k.get('#op') else ns


def poison_guard(fn):
    return fn


@ext('lax.add', 'jnp.add', 'np.add')
def n_add(I, a, k):
    return npnum(I, ew(I, None, c_add, a[:2]))


@ext('lax.sub', 'jnp.subtract', 'np.subtract')
def n_sub(I, a, k):
    return npnum(I, ew(I, None, lambda x, y: x - y if isinstance(x, Poly) and isinstance(y, Poly) else (None if x is None or y is None else (y.is_zero() and x if isinstance(y, Poly) and y.is_zero() else ('sub', x, y))), a[:2]))


@ext('lax.mul', 'jnp.multiply', 'np.multiply')
def n_mul(I, a, k):
    return npnum(I, ew(I, None, T.mul_c, a[:2]))


def c_div(I, x, y):
    if not isinstance(x, Poly) or not isinstance(y, Poly):
        return None if x is None or y is None else ('div', x, y)
    if y.is_zero():
        return T.bad('division by zero')
    b, nil = y.split_eps()
    if len(b.t) == 1:
        r = y.pow(-1)
        if r is not None:
            return x * r
    return x * app_poly(I, 'recip', (y,), y.is_real())


@ext('lax.div', 'jnp.true_divide', 'np.divide', 'np.true_divide')
def n_div(I, a, k):
    r = ew(I, None, lambda x, y: c_div(I, x, y), a[:2])
    if r.dt.kind in 'ib' and isinstance(r, Arr):
        r = r.but(dt=Dt('f', 'def'))
    return r


@ext('lax.neg', 'jnp.negative', 'np.negative')
def n_neg(I, a, k):
    return npnum(I, ew(I, None, lambda x: -x if isinstance(x, Poly) else (None if x is None else ('neg', x)), a[:1]))


def c_pow(I, x, y):
    if isinstance(x, Poly) and isinstance(y, Poly):
        c = y.as_const()
        if c is not None:
            r = x.pow(c)
            if r is not None:
                return r
        return app_poly(I, 'pow', (x, y), x.is_real() and y.is_real())
    return None


@ext('jnp.power', 'np.power', 'lax.pow', 'jnp.float_power')
def n_pow(I, a, k):
    if is_num(a[0]) and is_num(a[1]):
        return I.models.num_binop(I, 'Pow', a[0], a[1])
    return npnum(I, ew(I, None, lambda x, y: c_pow(I, x, y), a[:2]))


@ext('lax.integer_pow')
def n_ipow(I, a, k):
    y = a[1] if len(a) > 1 else k.get('y')
    if isinstance(y, int):
        return ew(I, None, lambda x: (x.pow(y) if x.pow(y) is not None else app_poly(I, 'pow', (x, Poly.const(y)), x.is_real())), a[:1])
    if isinstance(y, Poly):
        return ew(I, None, lambda x: app_poly(I, 'pow', (x, y), x.is_real()), a[:1])
    raise Unknown('integer_pow exponent')


@ext('lax.square', 'jnp.square', 'np.square')
def n_square(I, a, k):
    return ew(I, None, lambda x: x * x, a[:1])


@ext('lax.sqrt', 'jnp.sqrt', 'np.sqrt')
def n_sqrt(I, a, k):
    return ew(I, None, lambda x: app_or_pow(I, x, Fraction(1, 2), 'sqrt'), a[:1])


@ext('lax.rsqrt')
def n_rsqrt(I, a, k):
    return ew(I, None, lambda x: app_or_pow(I, x, Fraction(-1, 2), 'rsqrt'), a[:1])


def app_or_pow(I, x, e, name):
    r = x.pow(e)
    return r if r is not None else app_poly(I, name, (x,), x.is_real())


@ext('jnp.mod', 'np.mod', 'jnp.remainder', 'jnp.floor_divide', 'np.floor_divide')
def n_mod(I, a, k):
    c = [cv(I, x) for x in a[:2]]
    raise Unknown('integer division of arrays')


def mk_ew(name):
    def f(I, a, k):
        return ew(I, None, lambda *x: app_poly(I, name, x, all(y.is_real() for y in x)) if all(isinstance(y, Poly) for y in x) else None, a)
    return f


for _n in ('log', 'log1p', 'exp', 'expm1', 'tanh', 'logistic', 'acos', 'asin', 'atan', 'cos', 'sin', 'tan', 'atan2', 'erf', 'cosh', 'sinh', 'acosh', 'asinh', 'atanh', 'erfc', 'erf_inv', 'lgamma', 'digamma', 'cbrt', 'nextafter', 'exp2', 'igamma', 'igammac'):
    EXT['lax.' + _n] = mk_ew(_n)
for _n, _m in (('log', 'log'), ('exp', 'exp'), ('log1p', 'log1p'), ('expm1', 'expm1'), ('tanh', 'tanh'), ('cos', 'cos'), ('sin', 'sin'), ('tan', 'tan'), ('arctan', 'atan'),
               ('arcsin', 'asin'), ('arccos', 'acos'), ('arctan2', 'atan2'), ('logaddexp', 'logaddexp'), ('cosh', 'cosh'), ('sinh', 'sinh')):
    EXT['jnp.' + _m] = EXT['jnp.' + _n] = EXT['np.' + _n] = mk_ew(_m)
for _n in ('sigmoid', 'softplus', 'silu', 'gelu', 'elu', 'swish', 'soft_sign', 'log_sigmoid', 'selu', 'celu'):
    EXT['jax.nn.' + _n] = mk_ew({'swish': 'silu'}.get(_n, _n))
EXT['jax.nn.relu'] = mk_ew('relu')
EXT['lax.max'] = EXT['jnp.maximum'] = mk_ew('max')
EXT['lax.min'] = EXT['jnp.minimum'] = mk_ew('min')


def mk_const_ew(name, kind_='f'):
    """Derivative-free functions (sign, floor, comparisons)."""
    def f(I, a, k):
        def g(*x):
            if not all(isinstance(y, Poly) for y in x):
                return None if any(y is None for y in x) else (name,) + tuple(x)
            x = [y.split_eps()[0] for y in x]
            return Poly.atom(('app', name, tuple(x), (0,) * len(x), all(y.is_real() for y in x) or kind_ == 'b', 'ew'))
        return ew(I, None, g, a, dt=Dt('b', 'b') if kind_ == 'b' else None)
    return f


for _n in ('sign', 'floor', 'ceil', 'round', 'stop_gradient'):
    EXT['lax.' + _n] = mk_const_ew(_n)
    EXT['jnp.' + _n] = EXT['lax.' + _n]
    EXT['np.' + _n] = EXT['lax.' + _n]
for _n in ('is_finite', 'bitwise_not', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'isnan'):
    EXT['lax.' + _n] = mk_const_ew(_n, 'b')
EXT['jnp.isfinite'] = EXT['lax.is_finite']
EXT['jnp.isnan'] = EXT['np.isnan'] = EXT['lax.isnan']


def c_abs(I, x):
    if x.bad():
        return T.bad(x.bad())
    b, nil = x.split_eps()
    if b.is_real() and nil.is_real():
        return app_poly(I, 'absr', (x,), True)
    base = Poly.atom(('app', 'abs', (b,), (0,), True, 'ew'))
    if nil.is_zero():
        return base
    # |b+n|^2 = |b|^2 + m with m = 2 Re(conj(b) n) + |n|^2;  sqrt expansion
    m = b * nil.conj() + b.conj() * nil + nil * nil.conj()
    inv = Poly.atom(('app', 'abs', (b,), (0,), True, 'ew'), -1)
    out, coef, term, k = base, Fraction(1), ONE, 0
    while True:
        k += 1
        term = term * m
        if term.is_zero() or k > 6:
            return out
        coef = coef * (Fraction(1, 2) - (k - 1)) / k
        p = base
        for _ in range(2 * k):
            p = p * inv
        out = out + p * term.scale(coef)


@ext('jnp.abs', 'lax.abs', 'np.abs')
def n_abs(I, a, k):
    r = ew(I, None, lambda x: c_abs(I, x) if isinstance(x, Poly) else (None if x is None else ('abs', x)), a[:1])
    return r.but(dt=Dt('f', r.dt.key)) if r.dt.kind == 'c' else r


@ext('jnp.real', 'lax.real', 'np.real')
def n_real(I, a, k):
    r = ew(I, None, lambda x: x.re() if isinstance(x, Poly) else x, a[:1])
    return r.but(dt=Dt('f', r.dt.key)) if r.dt.kind == 'c' else r


@ext('jnp.imag', 'lax.imag', 'np.imag')
def n_imag(I, a, k):
    r = ew(I, None, lambda x: x.im() if isinstance(x, Poly) else ZERO, a[:1])
    return r.but(dt=Dt('f', r.dt.key)) if r.dt.kind == 'c' else r


@ext('jnp.conj', 'lax.conj', 'np.conj')
def n_conj(I, a, k):
    return ew(I, None, lambda x: x.conj() if isinstance(x, Poly) else x, a[:1])


@ext('lax.complex')
def n_complex(I, a, k):
    r = ew(I, None, lambda x, y: x + y * Poly.atom(IMAG), a[:2])
    return r.but(dt=Dt('c', r.dt.key))


# ------------------------------------------------------------------ comparisons / logic
CMP = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}


def compare_arr(I, o, a, b):
    a, b = simp_arr(I, arr(I, a)), simp_arr(I, arr(I, b))
    name = CMP[o]
    st = op_stage(I, [a, b])
    ca, cb = cv(I, a), cv(I, b)
    if ca is not None and cb is not None and st == 'np':
        def f(x, y):
            t = I.models.compare(I, getattr(ast, o)(), x, y)
            if not isinstance(t, bool):
                raise Unknown('element comparison')
            return t
        r = cmap(f, ca, cb)
        return mkc(r, Dt('b', 'b')) if isinstance(r, tuple) else r

    def g(x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            if x.as_const() is not None and y.as_const() is not None:
                p, q = x.as_const(), y.as_const()
                return Poly.const(int({'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[name]))
            x, y = x.split_eps()[0], y.split_eps()[0]
            return Poly.atom(('app', name, (x, y), (0, 0), True, 'ew'))
        if x is None or y is None:
            return None
        if x == y:
            return ONE if name in ('eq', 'le', 'ge') else ZERO
        return (name, x, y)
    if a.rank and b.rank:
        # arrays whose extents differ (and are not 1) do not compare element-wise in NumPy
        for d in range(1, min(a.rank, b.rank) + 1):
            p, q = axis_size(a.axes[-d]), axis_size(b.axes[-d])
            if p != q and p != ONE and q != ONE:
                T.raise_(I, 'ValueError', f'comparison of arrays with different extents {norm(p)} and {norm(q)}')
    return T.pointwise(I, [a, b], g, Dt('b', 'b'), st)


for _n, _o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE')):
    EXT['lax.' + _n] = (lambda o: lambda I, a, k: compare_arr(I, o, a[0], a[1]))(_o)
for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE')):
    EXT['np.' + _n] = EXT['jnp.' + _n] = (lambda o: lambda I, a, k: compare_arr(I, o, a[0], a[1]))(_o)


def logic1(I, name, a):
    c = cv(I, a)
    if c is not None and a.dt.kind == 'b':
        r = cmap(lambda x: not x, c)
        return mkc(r, Dt('b', 'b'))
    return T.pointwise(I, [a], lambda x: (ONE - x if isinstance(x, Poly) and x.as_const() is not None else (None if x is None else (name, x))), a.dt, op_stage(I, [a]))


def logic2(I, o, a, b):
    a, b = arr(I, a), arr(I, b)
    ca, cb = cv(I, a), cv(I, b)
    if ca is not None and cb is not None:
        r = cmap(lambda x, y: (x & y) if o == 'BitAnd' else ((x | y) if o == 'BitOr' else x ^ y), ca, cb)
        return mkc(r, a.dt)

    def g(x, y):
        if x is None or y is None:
            return None
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Poly) and p.as_const() is not None:
                if o == 'BitAnd':
                    return q if p == ONE else ZERO
                if o == 'BitOr':
                    return ONE if p == ONE else q
        return (o, frozenset([x, y]))
    return T.pointwise(I, [a, b], g, Dt('b', 'b'), op_stage(I, [a, b]))


@ext('np.logical_and', 'jnp.logical_and')
def n_land(I, a, k):
    return logic2(I, 'BitAnd', a[0], a[1])


@ext('np.logical_or', 'jnp.logical_or')
def n_lor(I, a, k):
    return logic2(I, 'BitOr', a[0], a[1])


@ext('np.logical_not', 'jnp.logical_not')
def n_lnot(I, a, k):
    return logic1(I, 'not', arr(I, a[0]))


def arr_truth(I, v):
    v = simp_arr(I, v)
    if v.rank is None:
        return Top('truth')
    if v.rank and not all(axis_size(x) == ONE for x in v.axes):
        c = cv(I, v)
        T.raise_(I, 'ValueError', 'truth value of an array with more than one element is ambiguous')
    if v.stage == 'jx':
        tracer_error(I, v, 'truth value')
    c = v.blocks[next(iter(v.blocks))]
    if isinstance(c, Poly) and c.as_const() is not None:
        return bool(c.as_const())
    if c is None:
        return Top('truth of an unknown array')
    return term_truth(I, c)


def term_truth(I, c):
    if isinstance(c, Poly):
        if v_int(c):
            return I.models.poly_cmp(I, '!=', c, ZERO)
        g = I.guard(('t', c))
    else:
        neg = False
        while c[0] == 'not':
            c = c[1]
            neg = not neg
        r = None
        if c[0] in ('all', 'any') and isinstance(c[1], frozenset):
            ts = [(bool(x.as_const()) if isinstance(x, Poly) and x.as_const() is not None else
                   bool(x) if isinstance(x, (int, bool)) else term_truth(I, x)) for x in sorted(c[1], key=repr)]
            stop = c[0] == 'any'
            if stop in ts:
                r = stop
            else:
                ts = [x for x in ts if x is not (not stop)]
                if not ts:
                    r = not stop
                elif len(ts) == 1:
                    r = ts[0]
            if r is not None and neg:
                r = I.lift(lambda b: not b, r) if isinstance(r, Phi) else not r
            if r is not None:
                return r
        if c[0] == 'all' and isinstance(c[1], tuple) and c[1][0] == 'eq':
            p, q = c[1][1], c[1][2]
            for x, y in ((p, q), (q, p)):
                if isinstance(x, tuple) and x[0] == 'first' and x[2] == y:
                    r = False      # generic pattern (constant patterns are separate cases)
            if r is None and isinstance(p, tuple) and isinstance(q, tuple) and p[0] == 'M' == q[0]:
                r = p == q     # different names: different patterns
        if c[0] == 'any' and isinstance(c[1], tuple) and c[1][0] == 'ne':
            inner = ('all', ('eq', c[1][1], c[1][2]))
            t = term_truth(I, inner)
            r = I.lift(lambda b: not b, t)
        if r is None:
            import os
            if os.environ.get('FOLXSA_DEBUG'): print('GUARD',I.where(),c)
            r = Phi(I.guard(('t', c)), True, False)
        if isinstance(r, Phi):
            x = I.st.assume.get(r.g)
            if x is not None:
                r = r.a if x else r.b
        if neg:
            r = I.lift(lambda b: not b, r) if isinstance(r, Phi) else not r
        return r
    x = I.st.assume.get(g)
    return x if x is not None else Phi(g, True, False)


def v_int(c):
    return all(a[0] == 'n' for a in c.atoms())


@ext('np.array_equal', 'jnp.array_equal')
def n_array_equal(I, a, k):
    if a[0] is None or a[1] is None:
        return a[0] is a[1]
    x, y = arr(I, a[0]), arr(I, a[1])
    if x.rank != y.rank:
        return False
    for p, q in zip(x.axes, y.axes):
        if axis_size(p) != axis_size(q):
            return False
    e = compare_arr(I, 'Eq', x, y)
    if isinstance(e, bool):
        return e
    return EXT['np.all'](I, (e,), {})


def arr_iter(I, v):
    c = cv(I, v)
    if c is not None and v.stage == 'np':
        return tuple(mkc(x, v.dt) if isinstance(x, tuple) else x for x in c)
    if not v.rank:
        T.raise_(I, 'TypeError', 'iteration over a 0-d array')
    ax = v.axes[0]
    n = axis_size(ax).as_const()
    if n is not None and len(ax) == n or n is not None and n <= 8:
        return tuple(npnum(I, T.at_axis(I, v, 0, Poly.const(i))) for i in range(int(n)))
    if len(ax) > 1:
        raise Unknown('iteration over a segmented axis')
    return AbsList(T.drop_axis(v, 0, 0), axis_size(ax), ax)


def arr_setitem(I, a, idx, v):
    """In-place store on a concrete NumPy array; the new value."""
    c = cv(I, a)
    i = cv(I, idx) if not isinstance(idx, (SliceV, tuple)) or isinstance(idx, tuple) else None
    w = cv(I, v)
    if c is not None and i is not None and w is not None and isinstance(c, tuple):
        if isinstance(i, tuple) and cflat(i) and all(isinstance(x, bool) for x in cflat(i)) and cshape(i) == cshape(c):
            fl, m = cflat(c), cflat(i)
            n = sum(m)
            vals = cflat(w) if isinstance(w, tuple) else [w] * n
            it = iter(vals)
            return mkc(cunflat([next(it) if b else x for x, b in zip(fl, m)], cshape(c)), a.dt)
        if isinstance(i, tuple) and not cflat(i):
            return a
        if isinstance(i, int) and not isinstance(i, bool) and not isinstance(w, tuple):
            l = list(c)
            l[i] = w
            return mkc(tuple(l), a.dt)
    raise Unknown('in-place array store')


# ------------------------------------------------------------------ indexing
def arr_getitem(I, a, i):
    a = simp_arr(I, a)
    idx = i if isinstance(i, tuple) else (i,)
    # concrete array, concrete index
    c = cv(I, a)
    if c is not None and a.stage == 'np' and isinstance(c, tuple):
        r = c_index(I, c, idx, cshape(c))
        if r is not NotImplemented:
            return mkc(r, a.dt) if isinstance(r, tuple) else r
    # boolean mask over the whole array: filter
    flat = []
    for x in idx:
        if isinstance(x, Ref) or isinstance(x, AbsList):
            x = arr(I, x)
        flat.append(x)
    idx = tuple(flat)
    nmask = sum(x.rank if isinstance(x, Arr) and x.dt.kind == 'b' else 1 for x in idx if x is not None and x is not Ellipsis)
    if sum(1 for x in idx if x is Ellipsis) > 1:
        T.raise_(I, 'IndexError', 'more than one ellipsis')
    if nmask > a.rank:
        T.raise_(I, 'IndexError', f'too many indices: {nmask} for rank {a.rank}')
    if Ellipsis in [x for x in idx if not isinstance(x, Arr)]:
        j = [n for n, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:j] + (SliceV(None, None, None),) * (a.rank - nmask) + idx[j + 1:]
    else:
        idx = idx + (SliceV(None, None, None),) * (a.rank - nmask)
    adv = [(n, x) for n, x in enumerate(idx) if isinstance(x, Arr) and x.rank and not (x.cval is not None and not isinstance(x.cval, tuple))]
    if adv:
        return adv_index(I, a, idx, adv)
    d = 0
    for x in idx:
        if x is None:
            a = T.expand(I, a, d)
            d += 1
        elif isinstance(x, SliceV):
            if x.step not in (None, 1):
                if x.lo is None and x.hi is None and x.step == -1:
                    a = rev_axis(I, a, d)
                    d += 1
                    continue
                raise Unknown('strided slice')
            if x.lo is not None or x.hi is not None:
                a = T.slice_axis(I, a, d, x.lo, x.hi)
            d += 1
        elif is_num(x) or isinstance(x, Arr):
            if isinstance(x, Arr):
                if x.dt.kind not in 'i':
                    raise Unknown('non-integer index')
                if not (isinstance(x.blocks[()], Poly) and x.blocks[()].as_const() is not None):
                    a = dyn_at(I, a, d, x)
                    continue
                x = scalar_of(I, x)
            if isinstance(x, bool):
                raise Unknown('boolean scalar index')
            if isinstance(x, (float, Fraction, complex)):
                T.raise_(I, 'TypeError', 'non-integer index')
            a = T.at_axis(I, a, d, x)
        elif isinstance(x, (Top, Phi)):
            raise Unknown('unknown index')
        else:
            T.raise_(I, 'TypeError', f'index of type {type(x).__name__}')
    return npnum(I, a)


def rev_axis(I, a, d):
    ax = a.axes[d]
    if len(ax) == 1 and ax[0][0] is None:
        return a
    ax2 = tuple(((('rev', l) if l is not None else None), n) for l, n in reversed(ax))
    m = len(ax)
    blocks = {}
    for k, c in a.blocks.items():
        kk = list(k)
        kk[d] = m - 1 - k[d]
        blocks[tuple(kk)] = c
    return a.but(axes=a.axes[:d] + (ax2,) + a.axes[d + 1:], blocks=blocks, cval=None)


def dyn_at(I, a, d, x):
    if len(a.axes[d]) == 1 and a.axes[d][0][0] is None:
        return T.drop_axis(a, d, 0)
    raise Unknown('dynamic integer index')


def c_index(I, c, idx, shape):
    """Index nested tuples; NotImplemented if the index is not concrete."""
    if len(idx) == 1:
        i = idx[0]
        if isinstance(i, Arr) or isinstance(i, Ref):
            k = cv(I, i)
            if k is None:
                return NotImplemented
            fl = cflat(k)
            if isinstance(k, tuple) and fl and all(isinstance(x, bool) for x in fl):
                if cshape(k) != shape[:len(cshape(k))]:
                    T.raise_(I, 'IndexError', 'boolean index did not match')
                if len(shape) == 1:
                    return tuple(x for x, b in zip(c, k) if b)
                return NotImplemented
            if isinstance(k, tuple):
                if not ints(k):
                    return NotImplemented
                for x in fl:
                    if not -shape[0] <= x < shape[0]:
                        T.raise_(I, 'IndexError', f'index {x} out of bounds')
                return cmap(lambda x: c[x], k) if fl else ()
            i = k
        if isinstance(i, bool):
            return NotImplemented
        if isinstance(i, int):
            if not -shape[0] <= i < shape[0]:
                T.raise_(I, 'IndexError', f'index {i} out of bounds')
            return c[i]
        if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
            return c[slice(i.lo, i.hi, i.step)]
        if i is None:
            return (c,)
        if i is Ellipsis:
            return c
        return NotImplemented
    if idx[0] is Ellipsis and all(x is None for x in idx[1:]):
        r = c
        def deep(n, d):
            if d == 0:
                y = n
                for _ in idx[1:]:
                    y = (y,)
                return y
            return tuple(deep(x, d - 1) for x in n)
        return deep(c, len(shape))
    if len(idx) == 2 and all(isinstance(x, int) for x in idx):
        return c[idx[0]][idx[1]]
    if len(idx) == 2 and idx[1] is None and isinstance(idx[0], SliceV) and len(shape) == 1:
        return tuple((x,) for x in c[slice(idx[0].lo, idx[0].hi, idx[0].step)])
    return NotImplemented


def masks_in(t):
    """Index patterns named in a term."""
    out = set()
    if isinstance(t, tuple) and t:
        if t[0] == 'M':
            out.add(t[1])
        elif t[0] in ('U', 'I', 'R'):
            out |= t[1]
        else:
            for x in t[1:]:
                out |= masks_in(x)
    elif isinstance(t, frozenset):
        for x in t:
            out |= masks_in(x)
    return out


def osize(I, t):
    return getattr(I, 'osizes', {}).get(t)


def set_osize(I, t, n):
    if not hasattr(I, 'osizes'):
        I.osizes = {}
    I.osizes.setdefault(t, n)


def adv_index(I, a, idx, adv):
    # x[x != -1], x[x >= 0]: drop the fill of an index set
    if len(adv) == 1 and len(idx) == 1 and adv[0][1].dt.kind == 'b':
        m = adv[0][1]
        c = m.blocks[next(iter(m.blocks))]
        if a.rank == 1 and m.rank == 1 and isinstance(c, tuple) and c[0] in ('ne', 'ge', 'gt') and len(a.blocks) == 1:
            t = a.blocks[(0,)]
            if c[1] == t and isinstance(c[2], Poly):
                v = c[2].as_const()
                keep = (c[0] == 'ne' and v == -1) or (c[0] == 'ge' and v == 0) or (c[0] == 'gt' and v == -1)
                if keep:
                    return Arr((((a.axes[0][0][0]), Poly.atom(('n', ('cnt', t)))),) and (((a.axes[0][0][0], Poly.atom(('n', ('cnt', t)))),),), {(0,): t}, a.dt, a.stage)
                if c[0] == 'gt' and v == 0 or c[0] == 'ne' and v == 0 or c[0] == 'ge' and v == 1:
                    return Arr((((a.axes[0][0][0], Poly.atom(('n', ('cnt', ('drop0', t)))),),),), {(0,): ('drop0', t)}, a.dt, a.stage)
        raise Unknown('boolean indexing')
    pos = [n for n, _ in adv]
    # positions of the non-empty entries (np.where of a mask) used for the trailing axes
    if all(isinstance(x.blocks.get((0,) * x.rank), tuple) and x.blocks[(0,) * x.rank][0] == 'nz' for _, x in adv):
        return nz_index(I, a, idx, adv)
    if len(adv) == 1:
        n, x = adv[0]
        d = 0
        pre = [y for y in idx[:n] if y is not None]
        if any(not isinstance(y, SliceV) or y.lo is not None or y.hi is not None for j, y in enumerate(idx) if j != n):
            rest = tuple(SliceV(None, None, None) if j == n else y for j, y in enumerate(idx))
            nn = sum(1 for y in idx[:n] if y is None or isinstance(y, SliceV))
            a = arr_getitem(I, a, rest)
            return take_axis(I, a, x, nn)
        return take_axis(I, a, x, n)
    raise Unknown('advanced indexing with several arrays')


def take_axis(I, a, x, d):
    """a.take(x, axis=d)"""
    c = cv(I, x)
    if c is not None:
        if isinstance(c, tuple) and len(cshape(c)) == 1:
            if c == (0,):
                r = T.at_axis(I, a, d, 0)
                return T.expand(I, r, d)
            parts = [T.expand(I, T.at_axis(I, a, d, i), d) for i in c]
            return T.concat(I, parts, d, a.dt, a.stage) if parts else a
        if isinstance(c, int):
            return T.at_axis(I, a, d, c)
    padded = any(l == T.PAD for l, _ in x.axes[0]) if x.rank == 1 else False
    x = T.absorb(x)
    t = x.blocks.get((0,) * x.rank)
    if x.rank == 1 and isinstance(t, tuple) and len(a.axes[d]) == 1 and len(x.axes[0]) == 1:
        l, n = a.axes[d][0]
        st = 'jx' if 'jx' in (a.stage, x.stage) else a.stage
        axes = a.axes[:d] + (x.axes[0],) + a.axes[d + 1:]
        if l == ('J',) and t[0] in ('U', 'I', 'M', 'R', 'full'):
            # rows of a dense Jacobian for the inputs in t
            def f(at):
                if at[0] == 'v' and at[1] in I.models.jnames:
                    if padded and t[0] in ('U', 'R') and '*' not in t[1]:
                        return T.bad('dense Jacobian rows are read at the padding index -1 of an index union')
                    return Poly.atom(('S', at[1], t, at[2]))
                return None
            blocks = {k: (None if p is None else (p.subst(f) if isinstance(p, Poly) else p)) for k, p in a.blocks.items()}
            return a.but(axes=axes, blocks=blocks, cval=None, stage=st)
        if l is None:
            return a.but(axes=axes, cval=None, stage=st)
    raise Unknown(f'gather {a!r:.150} by {x!r:.200}' if 'x' in dir() else 'gather')


def nz_index(I, a, idx, adv):
    """data[(slice, *np.where(mask))]: keep the entries where the mask holds, along all mapped axes.
    Integers in the index tuple take part in the advanced indexing."""
    js = [n for n, _ in adv]
    nums = [j for j, y in enumerate(idx) if is_num(y)]
    allp = sorted(js + nums)
    if allp != list(range(allp[0], allp[0] + len(allp))):
        raise Unknown('separated index arrays')
    for j, y in enumerate(idx):
        if j not in allp and not (isinstance(y, SliceV) and y.lo is None and y.hi is None):
            raise Unknown('mixed mask index')
    for j in sorted(nums, reverse=True):
        a = T.at_axis(I, a, j, idx[j])
    adv = [(n - sum(1 for j in nums if j < n), x) for n, x in adv]
    js = [n for n, _ in adv]
    adopt = {}
    for n, x in adv:
        t = x.blocks[(0,) * x.rank]
        ax = a.axes[n]
        if len(ax) != 1 or axis_size(ax) != t[3]:
            T.raise_(I, 'IndexError', 'index array from a mask of another shape')
        if t[4][t[2]] is None:
            adopt[t[2]] = ax[0][0]          # the mask does not vary along this axis
        elif ax[0][0] is not None and ax[0][0] != t[4][t[2]]:
            return a.but(axes=a.axes[:js[0]] + adv[0][1].axes + a.axes[js[-1] + 1:], cval=None,
                         blocks={k[:js[0]] + (0,) + k[js[-1] + 1:]: T.bad('axes of different meaning are indexed together') for k in a.blocks})
    (lab, n), = adv[0][1].axes[0]
    if adopt and lab is not None and lab[0] == 'nz':
        lab = ('nz', lab[1], tuple((adopt.get(i, l), s) for i, (l, s) in enumerate(lab[2])))
    axes = a.axes[:js[0]] + (((lab, n),),) + a.axes[js[-1] + 1:]
    blocks = {}
    for k, c in a.blocks.items():
        blocks[k[:js[0]] + (0,) + k[js[-1] + 1:]] = c
    return a.but(axes=axes, blocks=blocks, cval=None)


# ------------------------------------------------------------------ attributes / methods
def arr_attr(I, v, name):
    if v.rank is None:
        if name in ('dtype',):
            return v.dt
        if name in ('shape', 'ndim', 'size'):
            return Top('rank unknown')
        return MethV(v, name)
    if name == 'shape':
        return v.shape()
    if name == 'ndim':
        return v.rank
    if name == 'size':
        return norm(T.size_of(v))
    if name == 'dtype':
        return v.dt
    if name == 'T' or name == 'mT':
        if name == 'T':
            return T.transpose(I, v, list(range(v.rank))[::-1])
        return T.transpose(I, v, list(range(v.rank - 2)) + [v.rank - 1, v.rank - 2])
    if name == 'real':
        return n_real(I, (v,), {})
    if name == 'imag':
        return n_imag(I, (v,), {})
    if name == 'at':
        if v.stage == 'np':
            T.raise_(I, 'AttributeError', "numpy.ndarray has no attribute 'at'")
        return MethV(v, 'at')
    if name == 'aval':
        return Obj('aval', {'shape': v.shape(), 'dtype': v.dt, 'weak_type': v.dt.key == 'weak'})
    if name == 'weak_type':
        return v.dt.key == 'weak'
    if name == 'val' or name == 'jacobian' or name == 'x' or name == 'laplacian' or name == 'x0_idx':
        T.raise_(I, 'AttributeError', f'array has no attribute {name}')
    if name == 'nbytes':
        from .models import itemsize
        b = itemsize(v.dt)
        return Top('nbytes') if b is None else norm(T.size_of(v) * topoly(b))
    if name == 'devices' or name == 'sharding' or name == 'device':
        return Top('device')
    if name == 'flat':
        return MethV(v, name)
    return MethV(v, name)


def shape_args(I, a):
    """reshape(*shape) or reshape(shape)"""
    if len(a) == 1 and not is_num(a[0]):
        x = a[0]
        c = cv(I, x)
        if c is None:
            raise Unknown('shape argument')
        return list(c) if isinstance(c, tuple) else [c]
    out = []
    for x in a:
        c = cv(I, x)
        if c is None or isinstance(c, tuple):
            raise Unknown('shape argument')
        out.append(c)
    return out


def do_reshape(I, v, shape):
    c = cv(I, v)
    if c is not None and v.stage == 'np' and all(isinstance(s, int) for s in shape) and isinstance(c, tuple) and v.rank == 1 and len(shape) == 1:
        return v
    if c is not None and isinstance(c, tuple) and all(isinstance(s, int) for s in shape) and v.stage == 'np':
        fl = cflat(c)
        sh = list(shape)
        if sh.count(-1) == 1:
            p = 1
            for s in sh:
                p *= s if s != -1 else 1
            if p:
                sh[sh.index(-1)] = len(fl) // p
        p = 1
        for s in sh:
            p *= s
        if p == len(fl):
            return mkc(cunflat(fl, tuple(sh)), v.dt, shape=tuple(sh))
    return T.reshape(I, simp_arr(I, v), shape)


@meth('arr', 'reshape')
def a_reshape(I, o, a, k):
    return do_reshape(I, o, shape_args(I, a if a else (k['shape'],)))


@ext('jnp.reshape', 'np.reshape')
def n_reshape(I, a, k):
    s = a[1] if len(a) > 1 else k.get('shape', k.get('newshape'))
    v = arr(I, a[0])
    st = lazy_stage(I, 'np', [v]) if v.stage in ('np', 'py') else v.stage
    return do_reshape(I, v, shape_args(I, (s,)))


@meth('arr', 'ravel', 'flatten')
def a_ravel(I, o, a, k):
    return do_reshape(I, o, [-1])


@ext('jnp.ravel', 'np.ravel')
def n_ravel(I, a, k):
    return do_reshape(I, arr(I, a[0]), [-1])


@meth('arr', 'transpose')
def a_transpose(I, o, a, k):
    if not a or a == (None,):
        return T.transpose(I, o, list(range(o.rank))[::-1])
    p = shape_args(I, a)
    return do_transpose(I, o, p)


def do_transpose(I, o, p):
    if not all(isinstance(x, int) for x in p):
        raise Unknown('symbolic permutation')
    if len(p) != o.rank:
        T.raise_(I, 'ValueError', f"axes don't match array: {p} for rank {o.rank}")
    return T.transpose(I, o, p)


@ext('jnp.transpose', 'np.transpose', 'lax.transpose', 'jnp.permute_dims')
def n_transpose(I, a, k):
    v = arr(I, a[0])
    p = a[1] if len(a) > 1 else k.get('axes', k.get('permutation'))
    if p is None:
        return T.transpose(I, v, list(range(v.rank))[::-1])
    return restage(I, do_transpose(I, v, shape_args(I, (p,))), v)


def restage(I, r, v):
    return r


@ext('jnp.moveaxis', 'np.moveaxis')
def n_moveaxis(I, a, k):
    v = arr(I, a[0])
    s = a[1] if len(a) > 1 else k['source']
    d = a[2] if len(a) > 2 else k['destination']
    s, d = axes_arg(I, s, v.rank), axes_arg(I, d, v.rank)
    if len(s) != len(d):
        T.raise_(I, 'ValueError', 'moveaxis')
    return T.moveaxis(I, v, s, d)


@ext('jnp.swapaxes', 'np.swapaxes')
def n_swapaxes(I, a, k):
    v = arr(I, a[0])
    p = list(range(v.rank))
    i, j = axes_arg(I, a[1], v.rank)[0], axes_arg(I, a[2], v.rank)[0]
    p[i], p[j] = p[j], p[i]
    return T.transpose(I, v, p)


@ext('jnp.matrix_transpose')
def n_mt(I, a, k):
    v = arr(I, a[0])
    return T.transpose(I, v, list(range(v.rank - 2)) + [v.rank - 1, v.rank - 2])


@ext('jnp.expand_dims', 'np.expand_dims', 'lax.expand_dims')
def n_expand(I, a, k):
    v = arr(I, a[0])
    ax = a[1] if len(a) > 1 else k.get('axis', k.get('dimensions'))
    c = cv(I, ax)
    c = c if isinstance(c, tuple) else (c,)
    n = v.rank + len(c)
    for x in sorted(y % n for y in c):
        v = T.expand(I, v, x)
    return jstage(I, v)


def jstage(I, v):
    if v.stage in ('np', 'py') and not I.compile_time and I.models.jitted:
        return v
    return v


@ext('jnp.squeeze', 'np.squeeze')
def n_squeeze(I, a, k):
    v = arr(I, a[0])
    ax = a[1] if len(a) > 1 else k.get('axis')
    if ax is None:
        dims = [d for d in range(v.rank) if axis_size(v.axes[d]) == ONE]
    else:
        dims = axes_arg(I, ax, v.rank)
    return T.squeeze(I, v, dims)


@ext('jnp.broadcast_to', 'np.broadcast_to')
def n_bcast(I, a, k):
    v = arr(I, a[0])
    s = a[1] if len(a) > 1 else k['shape']
    return T.broadcast_to(I, simp_arr(I, v), shape_args(I, (s,)))


@ext('np.broadcast_arrays', 'jnp.broadcast_arrays')
def n_bcasta(I, a, k):
    vs = [arr(I, x) for x in a]
    sh = bshapes(I, [v.shape() for v in vs])
    return I.new_list(tuple(T.broadcast_to(I, v, list(sh)) for v in vs))


def bshapes(I, shapes):
    r = max((len(s) for s in shapes), default=0)
    out = []
    for d in range(r):
        cur = 1
        for s in shapes:
            k = d - (r - len(s))
            if k < 0:
                continue
            x = s[k]
            if x == 1 and isinstance(x, int):
                continue
            if cur == 1 and isinstance(cur, int):
                cur = x
            elif cur != x:
                if I.models.poly_cmp(I, '==', cur, x) is False:
                    T.raise_(I, 'ValueError', f'Incompatible shapes for broadcasting: {shapes}')
                raise Unknown('broadcast of shapes that may differ')
        out.append(cur)
    return tuple(out)


@ext('np.broadcast_shapes', 'jnp.broadcast_shapes', 'lax.broadcast_shapes')
def n_bshapes(I, a, k):
    return bshapes(I, [tuple(cv(I, x)) if isinstance(cv(I, x), tuple) else (cv(I, x),) for x in a])


@ext('jnp.concatenate', 'np.concatenate', 'lax.concatenate')
def n_concat(I, a, k):
    ax = a[1] if len(a) > 1 else k.get('axis', k.get('dimension', 0))
    xs = a[0]
    it = I.iterate(xs)
    if isinstance(it, (Top, AbsList)):
        raise Unknown('concatenate an unknown sequence')
    vs = [simp_arr(I, arr(I, x)) for x in it]
    if not vs:
        T.raise_(I, 'ValueError', 'need at least one array to concatenate')
    d = promote(*[v.dt for v in vs])
    cs = [cv(I, v) for v in vs]
    st = cat_stage(I, vs, k)
    if st == 'np' and all(c is not None for c in cs) and all(v.rank == 1 for v in vs) and any(c for c in cs):
        return mkc(tuple(y for c in cs for y in c), d)
    if not isinstance(ax, int):
        raise Unknown('axis')
    for v in vs:
        if not -v.rank <= ax < v.rank:
            T.raise_(I, 'ValueError', 'axis out of bounds')
    return T.concat(I, vs, ax, d, st)


def cat_stage(I, vs, k=None):
    ss = {v.stage for v in vs}
    if 'jx' in ss:
        return 'jx'
    if 'ct' in ss:
        return 'ct'
    return 'np'


@ext('jnp.pad', 'np.pad')
def n_pad(I, a, k):
    d = dict(zip(('array', 'pad_width', 'mode'), a))
    d.update(k)
    if d.get('mode', 'constant') != 'constant' or d.get('constant_values', 0) != 0 or set(d) - {'array', 'pad_width', 'mode', 'constant_values'}:
        raise Unknown('pad')
    v = simp_arr(I, arr(I, d['array']))

    def seq_(x):
        if isinstance(x, Arr):
            raise Unknown('pad widths')
        it = I.iterate(x) if isinstance(x, (Ref, tuple)) else None
        return None if it is None else [I.rdeep(y) for y in it]
    w = seq_(I.rdeep(d['pad_width']))
    if w is None:
        w = [(I.rdeep(d['pad_width']),) * 2] * v.rank
    else:
        rows = [seq_(x) for x in w]
        if all(r is None for r in rows):
            if len(w) != 2:
                raise Unknown('pad widths')
            w = [tuple(w)] * v.rank
        else:
            w = [tuple(r) if len(r) == 2 else tuple(r) * 2 for r in rows]
            w = w * v.rank if len(w) == 1 else w
    if len(w) != v.rank:
        T.raise_(I, 'ValueError', 'pad widths do not match the rank')
    for ax, pr in enumerate(w):
        ps = [topoly(x) for x in pr]
        if any(x is None for x in ps):
            raise Unknown('pad widths')
        for x in ps:
            if x.as_const() is not None and x.as_const() < 0:
                T.raise_(I, 'ValueError', "index can't contain negative values")
        parts = []
        for i, x in enumerate((ps[0], None, ps[1])):
            if x is None:
                parts.append(v)
            elif not x.is_zero():
                axes = v.axes[:ax] + (((None, x),),) + v.axes[ax + 1:]
                parts.append(v.but(axes=axes, blocks={kk: ZERO for kk in T.keys(axes)}, cval=None))
        if len(parts) > 1:
            v = T.concat(I, parts, ax, v.dt, v.stage)
    return v


@ext('jnp.stack', 'np.stack')
def n_stack(I, a, k):
    ax = a[1] if len(a) > 1 else k.get('axis', 0)
    return stack(I, a[0], ax)


@ext('jnp.hstack', 'np.hstack')
def n_hstack(I, a, k):
    vs = [arr(I, x) for x in seq(I, a[0])]
    return T.concat(I, vs, 0 if vs[0].rank <= 1 else 1, promote(*[v.dt for v in vs]), cat_stage(I, vs))


@ext('jnp.atleast_1d', 'np.atleast_1d')
def n_at1(I, a, k):
    v = arr(I, a[0])
    return T.expand(I, v, 0) if v.rank == 0 else v


@ext('np.asarray', 'np.array', 'np.ascontiguousarray')
def np_asarray(I, a, k):
    v = a[0]
    d = a[1] if len(a) > 1 else k.get('dtype')
    if isinstance(v, Arr) and v.stage == 'jx' or isinstance(v, (Ref, tuple)) and any(isinstance(x, Arr) and x.stage == 'jx' for x in (I.iterate(v) if not isinstance(I.iterate(v), (Top, AbsList)) else ())):
        raise AbsRaise(ModelV('excinst', ('jax.errors.TracerArrayConversionError', 'np.asarray of a traced array')), I.where(), True)
    if v is None:
        return Arr((), {(): None}, Dt('o', 'obj'), 'np')
    x = arr(I, v)
    x = x.but(stage='np', cval=x.cval)
    if x.rank and x.cval is None and len(x.blocks) == 0:
        raise Unknown('asarray')
    dt = want_dt(I, d, None)
    if dt is None:
        dt = Dt(x.dt.kind, 'def') if x.dt.key == 'weak' else x.dt
    x = cast(x, dt)
    if k.get('copy') is True or True:
        pass
    return npnum0(I, x)


def npnum0(I, x):
    return x


def cast(x, dt):
    if dt.kind in 'ib' and x.dt.kind in 'fc':
        return x.but(dt=dt, blocks={k: (p.split_eps()[0] if isinstance(p, Poly) else p) for k, p in x.blocks.items()})
    if x.dt.kind == 'c' and dt.kind == 'f':
        return x.but(dt=dt, blocks={k: (p.re() if isinstance(p, Poly) else p) for k, p in x.blocks.items()}, cval=None)
    return x.but(dt=dt, cval=x.cval)


@ext('jnp.asarray', 'jnp.array')
def jnp_asarray(I, a, k):
    v = a[0]
    d = a[1] if len(a) > 1 else k.get('dtype')
    x = arr(I, v)
    st = 'jx' if x.stage == 'jx' else ('ct' if I.compile_time or not I.models.jitted else ('ct' if x.stage == 'ct' else 'jx'))
    x = x.but(stage=st, cval=x.cval if st == 'ct' else None)
    dt = want_dt(I, d, x.dt if not (x.dt.key == 'weak' and d is None) else x.dt)
    return cast(x, dt)


@meth('arr', 'astype')
def a_astype(I, o, a, k):
    dt = want_dt(I, a[0] if a else k.get('dtype'), None)
    if dt is None:
        raise Unknown('astype')
    return cast(o, dt)


@ext('lax.convert_element_type')
def l_cet(I, a, k):
    return cast(arr(I, a[0]), want_dt(I, a[1] if len(a) > 1 else k.get('new_dtype'), None) or Dt('f', '?'))


def filled(I, shape, val, dt, ns):
    shape = [topoly(s) for s in shape]
    v = arr(I, val)
    st = 'np' if ns == 'np' else ('ct' if I.compile_time or not I.models.jitted else 'jx')
    if v.stage == 'jx':
        st = 'jx'
    axes = tuple(((None, s),) for s in shape)
    for s in shape:
        sg = I.models.sign(I, s)
        if sg is not None and sg < 0:
            T.raise_(I, 'ValueError', 'negative dimensions are not allowed')
    if v.rank == 0:
        c = v.blocks[()]
    else:
        b = T.broadcast_to(I, v, shape)
        return b.but(dt=dt or b.dt, stage=st)
    cval = None
    if all(s.as_const() is not None for s in shape) and isinstance(c, Poly) and c.as_const() is not None and st == 'np':
        dims = [int(s.as_const()) for s in shape]
        n = 1
        for s in dims:
            n *= s
        if n <= 64:
            cval = cunflat([norm(c)] * n, tuple(dims)) if dims else norm(c)
            if isinstance(cval, tuple):
                return mkc(cval, dt or v.dt, st, tuple(dims))
    return Arr(axes, {tuple(0 for _ in axes): c}, dt or v.dt, st)


def nsdef(d, ns, default='f'):
    return d


def reg_fill(name, val):
    def mk(ns):
        def f(I, a, k):
            s = shape_args(I, (a[0],)) if a else shape_args(I, (k['shape'],))
            d = want_dt(I, a[1] if len(a) > 1 else k.get('dtype'), Dt('f', 'def'))
            return filled(I, s, val, d, ns)
        return f
    for ns in ('np', 'jnp'):
        EXT[f'{ns}.{name}'] = mk(ns)


reg_fill('zeros', 0)
reg_fill('ones', 1)
reg_fill('empty', 0)


def mk_full(ns):
    def f(I, a, k):
        s = shape_args(I, (a[0] if a else k['shape'],))
        v = a[1] if len(a) > 1 else k['fill_value']
        d = a[2] if len(a) > 2 else k.get('dtype')
        x = arr(I, v)
        dt = want_dt(I, d, x.dt if x.dt.key != 'weak' else Dt(x.dt.kind, 'def'))
        return filled(I, s, x, dt, ns)
    return f


def mk_like(ns, val):
    def f(I, a, k):
        x = arr(I, a[0])
        v = val if val is not None else (a[1] if len(a) > 1 else k['fill_value'])
        d = want_dt(I, k.get('dtype', a[2] if len(a) > 2 and val is None else None), x.dt)
        s = k.get('shape')
        r = filled(I, list(x.shape()) if s is None else shape_args(I, (s,)), v, d, ns)
        return r
    return f


for _ns in ('np', 'jnp'):
    EXT[f'{_ns}.full'] = mk_full(_ns)
    EXT[f'{_ns}.full_like'] = mk_like(_ns, None)
    EXT[f'{_ns}.zeros_like'] = mk_like(_ns, 0)
    EXT[f'{_ns}.ones_like'] = mk_like(_ns, 1)


def mk_arange(ns):
    def f(I, a, k):
        st = 'np' if ns == 'np' else ('ct' if I.compile_time or not I.models.jitted else 'jx')
        a = tuple(norm(x) if isinstance(x, Poly) else (scalar_of(I, x) if isinstance(x, Arr) else x) for x in a)
        dt = want_dt(I, k.get('dtype'), Dt('i', 'def'))
        if all(isinstance(x, int) for x in a):
            r = tuple(range(*a))
            if len(r) <= 64:
                return mkc(r, dt, st, (len(r),))
        if len(a) == 2 and a[0] == 0:
            a = a[1:]
        if len(a) == 1:
            n = topoly(a[0])
            t = ('full', n)
            lab = ('J',) if is_nin(I, n) else ('O', t)
            return Arr((((lab, n),),), {(0,): t}, dt, st)
        raise Unknown('arange')
    return f


def is_nin(I, n):
    return n == getattr(I, 'N', None)


EXT['np.arange'] = mk_arange('np')
EXT['jnp.arange'] = mk_arange('jnp')


# ------------------------------------------------------------------ reductions
def red_args(I, a, k, names=('axis',)):
    v = simp_arr(I, arr(I, a[0]))
    ax = a[1] if len(a) > 1 else k.get('axis', k.get('axes'))
    dims = axes_arg(I, ax, v.rank)
    return v, dims, bool(k.get('keepdims', False))


def mk_sum(ns):
    def f(I, a, k):
        c = cv(I, a[0]) if not isinstance(a[0], Arr) or a[0].cval is not None else None
        if c is not None and ns == 'np' and (len(a) == 1 and k.get('axis') is None):
            p = ZERO
            for x in cflat(c):
                p = p + topoly(x)
            return norm(p)
        if isinstance(a[0], AbsList):
            raise Unknown('sum over a sequence of unknown length')
        v, dims, kd = red_args(I, a, k)
        if v.rank == 0:
            dims = ()
        dims = tuple(range(v.rank)) if dims is None else dims
        if any(isinstance(c, tuple) for c in v.blocks.values()) or v.dt.kind == 'b':
            r = T.reduce_sum(I, v, dims, kd)
            r = r.but(dt=Dt('i', 'def'))
        else:
            r = T.reduce_sum(I, v, dims, kd)
        if v.dt.kind == 'b':
            r = r.but(dt=Dt('i', 'def'))
        d = k.get('dtype')
        if d is not None:
            r = r.but(dt=want_dt(I, d, r.dt))
        if I.trace is not None and ns == 'jnp' and not kd and d is None and isinstance(a[0], Arr):
            from .jaxprs import after
            r = r.but()
            after(I, 'sum', a[0], tuple(sorted(x % v.rank for x in dims)), r)
        return npnum(I, r)
    return f


EXT['np.sum'] = mk_sum('np')
EXT['jnp.sum'] = mk_sum('jnp')


@meth('arr', 'sum')
def a_sum(I, o, a, k):
    return EXT['np.sum' if o.stage == 'np' else 'jnp.sum'](I, (o,) + tuple(a), k)


@ext('jnp.mean', 'np.mean')
def n_mean(I, a, k):
    v, dims, kd = red_args(I, a, k)
    dims = tuple(range(v.rank)) if dims is None else dims
    n = ONE
    for d in dims:
        n = n * axis_size(v.axes[d])
    r = T.reduce_sum(I, v, dims, kd)
    return n_div(I, (r, norm(n)), {})


@ext('np.prod', 'jnp.prod')
def n_prod(I, a, k):
    c = cv(I, a[0])
    if c is not None and (len(a) == 1) and k.get('axis') is None:
        p = ONE
        for x in cflat(c):
            p = p * topoly(x)
        return norm(p)
    raise Unknown('prod')


def mk_minmax(ns, op):
    def f(I, a, k):
        if not isinstance(a[0], Arr):
            it = I.iterate(a[0])
            if isinstance(it, AbsList):
                from .m_py import mm_seq
                return mm_seq(I, a[0], {})[0]
            if not isinstance(it, Top) and all(is_num(x) for x in it):
                vals = list(dict.fromkeys(it))
                if len(vals) > 1 and any(isinstance(x, Poly) for x in vals) and op == 'max':
                    at = [topoly(x) for x in vals]
                    if all(len(x.atoms()) == 1 and next(iter(x.atoms()))[0] == 'n' and isinstance(next(iter(x.atoms()))[1], tuple) for x in at if x.as_const() is None):
                        ts = frozenset(next(iter(x.atoms()))[1] for x in at if x.as_const() is None)
                        return Poly.atom(('n', ('maxof', ts)))
                return minmax(I, vals, op)
        c = cv(I, a[0])
        if c is not None and len(a) == 1 and k.get('axis') is None:
            fl = cflat(c)
            if fl or 'initial' not in k:
                return minmax(I, fl, op)
        v, dims, kd = red_args(I, a, k)
        dims = tuple(range(v.rank)) if dims is None else dims
        if v.stage in ('jx', 'ct') and all(isinstance(c, Poly) for c in v.blocks.values()) and v.dt.kind in 'fc':
            from .m_jax import opaque_reduce
            return opaque_reduce(I, 'reduce_' + op, v, dims, kd)
        r = T.reduce_term(I, v, dims, op)
        if kd:
            for d in sorted(dims):
                r = T.expand(I, r, d)
        if r.dt.kind == 'b':
            r = r.but(dt=Dt('b', 'b'))
        if len({str(x) for x in r.blocks.values()}) > 1 and r.rank == 0:
            raise Unknown('max over several patterns')
        return npnum(I, r)
    return f


for _ns in ('np', 'jnp'):
    for _o in ('max', 'min'):
        EXT[f'{_ns}.{_o}'] = mk_minmax(_ns, _o)


@meth('arr', 'max')
def a_max(I, o, a, k):
    return EXT['np.max' if o.stage == 'np' else 'jnp.max'](I, (o,) + tuple(a), k)


@meth('arr', 'min')
def a_min(I, o, a, k):
    return EXT['np.min' if o.stage == 'np' else 'jnp.min'](I, (o,) + tuple(a), k)


def mk_anyall(ns, op):
    def f(I, a, k):
        if isinstance(a[0], (bool,)):
            return a[0]
        c = cv(I, a[0])
        if c is not None and len(a) == 1 and k.get('axis') is None:
            fl = [bool(x) if not isinstance(x, Poly) else None for x in cflat(c)]
            if None not in fl:
                return any(fl) if op == 'any' else all(fl)
        if isinstance(a[0], ModelV) and a[0].kind == 'gen':
            return True       # a generator object is a truthy 0-d object array
        v, dims, kd = red_args(I, a, k)
        dims = tuple(range(v.rank)) if dims is None else dims
        r = T.reduce_term(I, v, dims, op)
        if v.rank == 0:
            r = v
            cc = r.blocks[()]
        else:
            # conjunction over segments
            pass
        return npnum(I, r.but(dt=Dt('b', 'b')))
    return f


for _ns in ('np', 'jnp'):
    for _o in ('any', 'all'):
        EXT[f'{_ns}.{_o}'] = mk_anyall(_ns, _o)


@meth('arr', 'any')
def a_any(I, o, a, k):
    return EXT['np.any'](I, (o,) + tuple(a), k)


@meth('arr', 'all')
def a_all(I, o, a, k):
    return EXT['np.all'](I, (o,) + tuple(a), k)


def mk_arg(op):
    def f(I, a, k):
        c = cv(I, a[0])
        if c is not None and isinstance(c, tuple) and ints(c) and len(cshape(c)) == 1:
            return (c.index(max(c)) if op == 'argmax' else c.index(min(c)))
        v, dims, kd = red_args(I, a, k)
        if dims is None:
            raise Unknown('argmax over all axes')
        r = T.reduce_term(I, v, dims, op)
        return npnum(I, r.but(dt=Dt('i', 'def')))
    return f


for _ns in ('np', 'jnp', 'lax'):
    for _o in ('argmax', 'argmin'):
        EXT[f'{_ns}.{_o}'] = mk_arg(_o)


@ext('np.argsort', 'jnp.argsort')
def n_argsort(I, a, k):
    c = cv(I, a[0])
    if c is not None and isinstance(c, tuple) and ints(c):
        return mkc(tuple(sorted(range(len(c)), key=lambda i: c[i])), shape=(len(c),), dt=Dt('i', 'def'))
    raise Unknown('argsort')


@ext('np.sort', 'jnp.sort')
def n_sort(I, a, k):
    c = cv(I, a[0])
    if c is not None and isinstance(c, tuple) and ints(c) and len(cshape(c)) == 1:
        return mkc(tuple(sorted(c)), shape=(len(c),), dt=Dt('i', 'def'))
    v = arr(I, a[0])
    ax = a[1] if len(a) > 1 else k.get('axis', -1)
    d = axes_arg(I, ax, v.rank)[0]
    if all(isinstance(x, tuple) for x in v.blocks.values()):
        l = tuple(x[0] for x in v.axes[d])
        return v.but(blocks={kk: ('srt', t, l) for kk, t in v.blocks.items()}, cval=None)
    raise Unknown('sort')


@ext('np.diff', 'jnp.diff')
def n_diff(I, a, k):
    v = arr(I, a[0])
    ax = k.get('axis', a[2] if len(a) > 2 else -1)
    d = axes_arg(I, ax, v.rank)[0]
    if all(isinstance(x, tuple) for x in v.blocks.values()) and len(v.axes[d]) == 1:
        l, n = v.axes[d][0]
        axes = v.axes[:d] + (((l, n - ONE),),) + v.axes[d + 1:]
        return v.but(axes=axes, blocks={kk: ('diff', t) for kk, t in v.blocks.items()}, cval=None)
    raise Unknown('diff')


@ext('np.cumsum', 'jnp.cumsum')
def n_cumsum(I, a, k):
    c = cv(I, a[0])
    if c is not None and isinstance(c, tuple) and len(cshape(c)) == 1:
        out, p = [], ZERO
        for x in c:
            p = p + topoly(x)
            out.append(norm(p))
        return mkc(tuple(out), Dt('i', 'def'), shape=(len(out),))
    v = arr(I, a[0])
    ax = k.get('axis', a[1] if len(a) > 1 else None)
    if ax is None:
        raise Unknown('cumsum')
    from .m_jax import lax_call
    return lax_call(I, 'lax.cumsum', (v,), {'axis': ax})


@ext('np.split', 'np.array_split', 'jnp.split')
def n_split(I, a, k):
    v = arr(I, a[0])
    s = cv(I, a[1])
    ax = k.get('axis', a[2] if len(a) > 2 else 0)
    if isinstance(s, tuple):
        out, lo = [], None
        for x in list(s) + [None]:
            out.append(T.slice_axis(I, v, ax, lo, x))
            lo = x
        return I.new_list(out)
    raise Unknown('split')


@ext('np.setdiff1d')
def n_setdiff(I, a, k):
    c, d = cv(I, a[0]), cv(I, a[1])
    if c is None or d is None:
        raise Unknown('setdiff1d')
    d = cflat(d)
    r = tuple(sorted({x for x in cflat(c) if x not in d}))
    return mkc(r, Dt('i', 'def'), shape=(len(r),))


@ext('np.intersect1d')
def n_inter(I, a, k):
    return set_op(I, a, 'I')


@ext('np.union1d')
def n_union(I, a, k):
    return set_op(I, a, 'U')


def set_op(I, a, op):
    cs = [cv(I, x) for x in a[:2]]
    if all(c is not None for c in cs):
        x, y = set(cflat(cs[0])), set(cflat(cs[1]))
        r = tuple(sorted(x & y if op == 'I' else x | y))
        return mkc(r, Dt('i', 'def'), shape=(len(r),))
    x, y = [arr(I, v) for v in a[:2]]
    if x.stage == 'jx' or y.stage == 'jx':
        tracer_error(I, None, 'np set operation')
    ts = []
    for v in (x, y):
        s = set(v.blocks.values())
        if len(s) != 1:
            raise Unknown('set operation over several patterns')
        t = next(iter(s))
        if isinstance(t, tuple) and t[0] == 'srt':
            t = t[1]
        if isinstance(t, tuple) and t[0] == 'M':
            t = ('U', frozenset([t[1]]))
        if not isinstance(t, tuple) or t[0] not in ('U', 'I'):
            raise Unknown('set operation')
        ts.append(t)
    t = merge_sets(op, ts[0], ts[1])
    n = Poly.atom(('n', ('cnt', t)))
    return Arr((((('O', t), n),),), {(0,): t}, Dt('i', 'def'), 'np')


def merge_sets(op, s, t):
    if s == t:
        return s
    if op == 'U':
        if s[0] == 'U' and t[0] == 'U':
            return ('U', s[1] | t[1])
        raise Unknown('union with an intersection')
    a = s[1] if s[0] == 'I' or len(s[1]) == 1 else None
    b = t[1] if t[0] == 'I' or len(t[1]) == 1 else None
    if a is None or b is None:
        raise Unknown('intersection of unions')
    return ('I', frozenset(a | b))


def uset(I, ts):
    s = set()
    flag = None
    for t in ts:
        while isinstance(t, tuple) and t[0] in ('srt', 'first', 'at'):
            t = t[1] if t[0] == 'srt' else t[-1]
        if not isinstance(t, tuple):
            if isinstance(t, Poly) and t == Poly.const(-1):
                continue
            raise Unknown('unique values')
        if t[0] == 'M':
            s.add(t[1])
        elif t[0] == 'U':
            s |= t[1]
        elif t[0] == 'R':
            s |= t[1]
        elif t[0] == 'F':
            s.add(t)
        elif t[0] == 'full':
            s.add('*')
        elif t[0] == 'cntpos':
            s |= masks_in(t)
        else:
            raise Unknown(f'unique of {t[0]}')
    return ('U', frozenset(s))


def size_ok(I, n, ts, fill):
    """Is the requested number of unique values certainly enough / certainly too small?"""
    n = topoly(n)
    c = n.t.get((), Fraction(0))
    rest = n - Poly.const(c)
    at = list(rest.atoms())
    if len(at) == 1 and rest == Poly.atom(at[0]) and at[0][0] == 'n' and isinstance(at[0][1], tuple):
        t = at[0][1]
        k = count_kind(t)
        if k in ('changes', 'positive'):
            return c >= 1
        if k in ('unsorted', 'fewer'):
            return False
        if k == 'distinct':
            return c >= 0
    return None


def count_kind(t):
    """What a symbolic count measures: 'changes' (value changes in a sorted row, one less than the number of values),
    'positive' (distinct non-fill indices), 'distinct', 'unsorted' (changes of an unsorted row), 'fewer' (a number that does not
    bound the number of values of a row: a minimum over rows, the rows that have some property, ...)"""
    if t[0] == 'max':
        return count_kind(t[1])
    if t[0] == 'min':
        return 'fewer' if count_kind(t[1]) is not None else None
    if t[0] == 'maxof':
        ks = {count_kind(x) for x in t[1]}
        return ks.pop() if len(ks) == 1 else None
    if t[0] in ('any', 'all') and len(t) == 3:
        return 'fewer' if count_kind(('sum', t[1], t[2])) is not None else None
    if t[0] == 'sum':
        u = t[1]
        if u[0] in ('gt', 'ne') and isinstance(u[1], tuple) and u[1][0] == 'diff' and isinstance(u[2], Poly) and u[2].is_zero():
            s = u[1][1]
            if s[0] != 'srt':
                return 'unsorted'
            if t[2] is not None and not any(T.comps(x) & T.comps(t[2]) for x in s[2] if x is not None):
                return 'fewer'
            return 'changes'
        if u[0] == 'ge' and isinstance(u[1], tuple) and u[1][0] in ('U', 'full') and isinstance(u[2], Poly) and u[2].is_zero():
            return 'positive'
        if u[0] == 'ne' and isinstance(u[1], tuple) and u[1][0] == 'U' and isinstance(u[2], Poly) and u[2] == Poly.const(-1):
            return 'positive'
        if u[0] == 'bool':
            return 'distinct'
        if u[0] in ('gt',) and isinstance(u[1], tuple) and u[1][0] == 'U':
            return 'fewer'
        if u[0] in ('sum', 'max', 'min'):
            return count_kind(u)
        if u[0] in ('any', 'all') and len(u) == 3:
            if u[2] is not None and not T.klike(u[2]) and t[2] is not None:
                k = count_kind(('sum', u[1], t[2]))
                return k if u[0] == 'any' else ('fewer' if k else None)
            return 'fewer' if count_kind(('sum', u[1], u[2])) is not None else None
    if t[0] in ('cnt', 'uniq'):
        return 'distinct'
    return None


def mk_unique(ns):
    def f(I, a, k):
        c = cv(I, a[0])
        if c is not None and ints(c) and not any(x in k for x in ('axis', 'size')):
            r = tuple(sorted(set(cflat(c))))
            return mkc(r, Dt('i', 'def'), shape=(len(r),))
        v = simp_arr(I, arr(I, a[0]))
        st = stage(I, ns, [v], f'{ns}.unique')
        if st == 'jx' and 'size' not in k and 'jx' in {v.stage}:
            tracer_error(I, v, 'unique without size')
        ax = k.get('axis', a[1] if len(a) > 1 and isinstance(a[1], int) else None)
        inv = k.get('return_inverse', False)
        size = k.get('size')
        if ax is not None and v.rank > 1 or ax is not None and inv:
            d = axes_arg(I, ax, v.rank)[0]
            if size is not None:
                raise Unknown('sized unique rows')
            segs = v.axes[d]
            ms = set()
            for kk, t in v.blocks.items():
                if isinstance(t, Poly) and t == Poly.const(-1):
                    continue
                if not isinstance(t, tuple) or t[0] not in ('M', 'R'):
                    raise Unknown('unique rows of derived patterns')
                ms |= masks_in(t)
            R = ('R', frozenset(ms))
            n = Poly.atom(('n', ('uniq', R)))
            axes = v.axes[:d] + (((('O', R), n),),) + v.axes[d + 1:]
            out = Arr(axes, {kk: R for kk in T.keys(axes)}, v.dt, st)
            set_osize(I, R, n)
            if not inv:
                return out
            ib = {}
            for j in range(len(segs)):
                ts = {t for kk, t in v.blocks.items() if kk[d] == j}
                if len(ts) != 1:
                    raise Unknown('unique rows')
                t = next(iter(ts))
                ib[(j,)] = ('pos', t, R) if isinstance(t, tuple) else ('pos', ('M', None), R)
            return (out, Arr((segs,), ib, Dt('i', 'def'), st))
        ts = list(v.blocks.values())
        U = uset(I, ts)
        if size is not None:
            n = topoly(size if not isinstance(size, Arr) else scalar_of(I, size))
            fv = k.get('fill_value')
            fv = topoly(fv) if fv is not None and is_num(fv) else None
            ok = size_ok(I, n, ts, fv)
            t = U
            if fv is None or fv != Poly.const(-1):
                t = ('badfill', U)
            elif ok is False:
                t = ('trunc', U)
            set_osize(I, t, n)
            r = Arr((((('O', t), n),),), {(0,): t}, v.dt, st)
        else:
            n = Poly.atom(('n', ('uniq', U)))
            set_osize(I, U, n)
            r = Arr((((('O', U), n),),), {(0,): U}, v.dt, st)
        if inv:
            if v.rank == 1:
                ib = {kk: ('pos', t, U) for kk, t in v.blocks.items()}
                return (r, Arr(v.axes, ib, Dt('i', 'def'), st))
            raise Unknown('inverse of flattened unique')
        if k.get('return_counts') or k.get('return_index'):
            raise Unknown('unique counts')
        return r
    return f


EXT['np.unique'] = mk_unique('np')
EXT['jnp.unique'] = mk_unique('jnp')


@ext('np.take', 'jnp.take')
def n_take(I, a, k):
    v = simp_arr(I, arr(I, a[0]))
    i = a[1] if len(a) > 1 else k['indices']
    ax = a[2] if len(a) > 2 else k.get('axis')
    if ax is None:
        c, j = cv(I, v), cv(I, i)
        if c is not None and isinstance(j, int):
            return cflat(c)[j]
        v, ax = (I.call(ExtV('jnp.ravel'), (v,), {}) if v.rank != 1 else v), 0
        v = simp_arr(I, arr(I, v))
    d = axes_arg(I, ax, v.rank)[0]
    if is_num(i):
        return npnum(I, T.at_axis(I, v, d, i))
    x = arr(I, i)
    c = cv(I, v)
    return take_axis(I, v, x, d)


@ext('np.repeat', 'jnp.repeat')
def n_repeat(I, a, k):
    c = cv(I, a[0])
    r = a[1] if len(a) > 1 else k['repeats']
    ax = a[2] if len(a) > 2 else k.get('axis')
    if c is not None and isinstance(r, int) and ax == 0 and isinstance(c, tuple):
        out = tuple(x for x in c for _ in range(r))
        return mkc(out, arr(I, a[0]).dt)
    if c is not None and isinstance(r, int) and isinstance(c, tuple) and len(cshape(c)) == 1:
        return mkc(tuple(x for x in c for _ in range(r)), arr(I, a[0]).dt)
    v = arr(I, a[0])
    if isinstance(ax, int) and (isinstance(r, int) or isinstance(r, Poly)) and axis_size(v.axes[ax % v.rank]) == ONE:
        sh = list(v.shape())
        sh[ax % v.rank] = r
        return T.broadcast_to(I, v, sh)
    raise Unknown('repeat')


@ext('np.tile', 'jnp.tile')
def n_tile(I, a, k):
    raise Unknown('tile')


@ext('np.where', 'jnp.where')
def n_where(I, a, k):
    if len(a) == 1:
        m = a[0]
        c = cv(I, m)
        if c is not None and isinstance(c, tuple) and len(cshape(c)) == 1:
            r = tuple(i for i, x in enumerate(c) if x)
            return (mkc(r, Dt('i', 'def'), shape=(len(r),)),)
        v = arr(I, m)
        if v.stage == 'jx':
            tracer_error(I, v, 'where with one argument')
        t = v.blocks[next(iter(v.blocks))]
        n = Poly.atom(('n', ('nz', t)))
        I.models.lb.setdefault(('n', ('nz', t)), 1)      # empty patterns take another path
        if any(len(ax) != 1 for ax in v.axes):
            raise Unknown('positions in a segmented array')
        # label of the kept entries: the product of all axes of the mask, restricted by it
        labs = tuple(ax[0][0] for ax in v.axes)
        pairs = tuple((ax[0][0], ax[0][1]) for ax in v.axes)
        lab = ('nz', t, pairs)
        return tuple(Arr((((lab, n),),), {(0,): ('nz', t, i, axis_size(ax), labs)}, Dt('i', 'def'), 'np') for i, ax in enumerate(v.axes))
    c, x, y = [simp_arr(I, arr(I, z)) for z in a[:3]]
    st = op_stage(I, [c, x, y])
    cs = [cv(I, z) for z in (c, x, y)]
    if all(z is not None for z in cs) and st == 'np':
        r = cmap(lambda p, q, s: q if p else s, *cs)
        return mkc(r, promote(x.dt, y.dt)) if isinstance(r, tuple) else r

    def g(p, q, s):
        if p is None or q is None or s is None:
            return None
        if isinstance(p, Poly) and p.as_const() is not None:
            return q if p.as_const() else s
        if isinstance(p, tuple) and p[0] == 'anyeq' and isinstance(q, tuple) and q[0] == 'argeq' and p[1:] == q[1:]:
            if isinstance(s, Poly) and s == Poly.const(-1):
                return ('pos', p[1], p[2])
            return ('argeq', p[1], p[2])
        if isinstance(p, tuple) and p[0] == 'gt' and isinstance(p[2], Poly) and p[2].is_zero() and isinstance(q, tuple):
            return ('whr', p, q, s)
        if isinstance(p, tuple) and p[0] == 'eq' and isinstance(q, Poly) and q == Poly.const(-1):
            return s
        if isinstance(q, Poly) and isinstance(s, Poly) and isinstance(p, Poly):
            if q == s:
                return q
            from .m_jax import sel_poly
            return sel_poly(I, p, s, q)
        return ('where', p, q, s)
    return npnum(I, T.pointwise(I, [c, x, y], g, promote(x.dt, y.dt), st))


@ext('np.nonzero', 'np.flatnonzero', 'np.argwhere')
def n_nonzero(I, a, k):
    return n_where(I, a[:1], {})


@ext('np.iinfo', 'jnp.iinfo', 'np.finfo', 'jnp.finfo')
def n_iinfo(I, a, k):
    return Obj('iinfo', {'max': Poly.atom(('v', 'INTMAX', True)), 'min': Poly.atom(('v', 'INTMIN', True)), 'eps': Poly.atom(('v', 'EPS', True)), 'tiny': Poly.atom(('v', 'TINY', True))})


@ext('np.ndim', 'jnp.ndim')
def n_ndim(I, a, k):
    return arr(I, a[0]).rank


@ext('np.shape', 'jnp.shape')
def n_shape(I, a, k):
    return arr(I, a[0]).shape()


@ext('np.size', 'jnp.size')
def n_size(I, a, k):
    return norm(T.size_of(arr(I, a[0])))


def np_kind(d):
    """NumPy's kind letter; the extension types of ml_dtypes are no NumPy floats."""
    return 'V' if d.key == 'b16' else 'u' if d.key.startswith('u') else d.kind


@ext('np.issubdtype')
def np_issub(I, a, k):
    d = to_dt(a[0])
    if d is not None and d.key == 'b16' and to_dt(a[1]) is None:
        return isinstance(a[1], ExtV) and a[1].name.split('.')[-1] == 'generic'
    return n_issub(I, a, k)


@ext('jnp.issubdtype', 'jax.dtypes.issubdtype')
def n_issub(I, a, k):
    d = to_dt(a[0])
    c = a[1]
    if d is None:
        raise Unknown('issubdtype')
    if isinstance(c, ExtV) and c.name.endswith('.signedinteger'):
        return np_kind(d) == 'i'
    if isinstance(c, ExtV) and c.name.endswith('.unsignedinteger'):
        return np_kind(d) == 'u'
    if isinstance(c, ExtV):
        n = c.name.split('.')[-1]
        r = {'floating': 'f', 'complexfloating': 'c', 'integer': 'i', 'signedinteger': 'i', 'inexact': 'fc', 'number': 'ifc', 'bool_': 'b', 'generic': 'bifc'}.get(n)
        if r is not None:
            return d.kind in r
    e = to_dt(c)
    if e is not None:
        return d.kind == e.kind
    raise Unknown('issubdtype')


@ext('jnp.iscomplexobj', 'np.iscomplexobj', 'jnp.iscomplex')
def n_iscomplex(I, a, k):
    v = a[0]
    if isinstance(v, complex):
        return True
    if is_num(v):
        return False
    if isinstance(v, NT):
        dt = I.getattr(v, 'dtype')
        return isinstance(dt, Dt) and dt.kind == 'c'
    return arr(I, v).dt.kind == 'c'


@ext('jnp.isrealobj', 'np.isrealobj')
def n_isreal(I, a, k):
    return not n_iscomplex(I, a, k)


@ext('jnp.result_type', 'np.result_type', 'jnp.promote_types', 'np.promote_types', 'jax.dtypes.result_type', 'jax.numpy.result_type')
def n_result_type(I, a, k):
    ds = []
    for x in a:
        d = to_dt(x)
        ds.append(d if d is not None else arr(I, x).dt)
    return promote(*ds)


@ext('np.dtype', 'jnp.dtype')
def n_dtype(I, a, k):
    d = to_dt(a[0])
    if d is None:
        raise Unknown('dtype')
    return d


@ext('jnp.einsum', 'np.einsum')
def n_einsum(I, a, k):
    if not isinstance(a[0], str):
        raise Unknown('einsum operands')
    vs = [arr(I, x) for x in a[1:]]
    return T.einsum(I, a[0], vs, promote(*[v.dt for v in vs]), op_stage(I, vs))


@ext('jnp.matmul', 'np.matmul', 'jnp.dot', 'np.dot', 'lax.dot')
def n_matmul(I, a, k):
    x, y = arr(I, a[0]), arr(I, a[1])
    d, st = promote(x.dt, y.dt), op_stage(I, [x, y])
    if x.rank == 0 or y.rank == 0:
        return n_mul(I, a, k)
    if x.rank == 1 and y.rank == 1:
        return T.einsum(I, 'i,i->', [x, y], d, st)
    if x.rank == 1:
        return T.einsum(I, 'i,...ij->...j', [x, y], d, st)
    if y.rank == 1:
        return T.einsum(I, '...ij,j->...i', [x, y], d, st)
    return T.einsum(I, '...ij,...jk->...ik', [x, y], d, st)


@ext('jnp.vdot', 'np.vdot')
def n_vdot(I, a, k):
    x, y = arr(I, a[0]), arr(I, a[1])
    x, y = do_reshape(I, n_conj(I, (x,), {}), [-1]), do_reshape(I, y, [-1])
    return T.einsum(I, 'i,i->', [x, y], promote(x.dt, y.dt), op_stage(I, [x, y]))


@ext('jnp.inner', 'np.inner')
def n_inner(I, a, k):
    x, y = arr(I, a[0]), arr(I, a[1])
    if x.rank == 1 and y.rank == 1:
        return T.einsum(I, 'i,i->', [x, y], promote(x.dt, y.dt), op_stage(I, [x, y]))
    raise Unknown('inner')


@ext('jnp.outer', 'np.outer')
def n_outer(I, a, k):
    x, y = arr(I, a[0]), arr(I, a[1])
    return T.einsum(I, 'i,j->ij', [x, y], promote(x.dt, y.dt), op_stage(I, [x, y]))


@ext('jnp.tensordot')
def n_tensordot(I, a, k):
    raise Unknown('tensordot')


@ext('jnp.trace', 'np.trace')
def n_trace(I, a, k):
    v = arr(I, a[0])
    off = k.get('offset', a[1] if len(a) > 1 else 0)
    p, q = k.get('axis1', a[2] if len(a) > 2 else 0), k.get('axis2', a[3] if len(a) > 3 else 1)
    if off != 0:
        return Arr(tuple(x for i, x in enumerate(v.axes) if i not in (p % v.rank, q % v.rank)), {}, v.dt, v.stage) if False else _badtrace(I, v, p, q)
    p, q = p % v.rank, q % v.rank
    d = T.diagonal(I, v, p, q)
    return T.reduce_sum(I, d, [d.rank - 1])


def _badtrace(I, v, p, q):
    raise Unknown('trace with an offset')


@ext('jnp.diagonal', 'np.diagonal')
def n_diagonal(I, a, k):
    v = arr(I, a[0])
    off = k.get('offset', a[1] if len(a) > 1 else 0)
    p, q = k.get('axis1', a[2] if len(a) > 2 else 0), k.get('axis2', a[3] if len(a) > 3 else 1)
    if off != 0:
        raise Unknown('offset diagonal')
    return T.diagonal(I, v, p % v.rank, q % v.rank)


@ext('jnp.diag', 'np.diag')
def n_diag(I, a, k):
    v = arr(I, a[0])
    if v.rank == 2:
        return n_diagonal(I, (v,), {})
    ax = v.axes[0]
    blocks = {}
    for i in range(len(ax)):
        for j in range(len(ax)):
            c = v.blocks[(i,)]
            if i != j:
                blocks[(i, j)] = ZERO
            else:
                l, n = ax[i]
                blocks[(i, j)] = c if n == ONE else (None if c is None else T.mul_c(c, Poly.atom(('delta', l))))
    lab = I.segmap.get(norm(axis_size(ax)))
    return v.but(axes=(ax, ax), blocks=blocks, cval=None)


@ext('jnp.eye', 'np.eye', 'jnp.identity', 'np.identity')
def n_eye(I, a, k):
    n = topoly(a[0])
    if n is None:
        raise Unknown('eye')
    d = want_dt(I, k.get('dtype'), Dt('f', 'def'))
    segs = I.segmap.get(n)
    if n == ONE:
        segs = T.ONESEG
    if segs is None:
        segs = ((('eye', n), n),)
    st = 'ct' if I.compile_time or not I.models.jitted else 'jx'
    blocks = {}
    for i, (l, s) in enumerate(segs):
        for j in range(len(segs)):
            if i != j:
                blocks[(i, j)] = ZERO
            else:
                blocks[(i, j)] = ONE if s == ONE else Poly.atom(('delta', l))
    return Arr((segs, segs), blocks, d, st)


@ext('jax.nn.one_hot')
def n_one_hot(I, a, k):
    v = arr(I, a[0])
    n = topoly(a[1] if len(a) > 1 else k['num_classes'])
    t = v.blocks[next(iter(v.blocks))]
    axes = v.axes + (((('hot', n), n),),)
    st = 'jx' if v.stage == 'jx' else ('ct' if I.compile_time else 'jx')
    return Arr(axes, {kk + (0,): ('hot', x, n) for kk, x in v.blocks.items()}, want_dt(I, k.get('dtype'), Dt('f', 'def')), st)


@ext('jnp.linalg.norm')
def n_norm(I, a, k):
    raise Unknown('norm')


@ext('jnp.cross', 'jnp.kron', 'jnp.flip', 'jnp.roll')
def n_unk(I, a, k):
    raise Unknown('array function')


@ext('jnp.clip', 'np.clip')
def n_clip(I, a, k):
    raise Unknown('clip')


@ext('np.may_share_memory')
def n_msm(I, a, k):
    return Top('memory')


@meth('arr', 'item', 'tolist')
def a_item(I, o, a, k):
    if o.stage == 'jx':
        tracer_error(I, o, 'item()')
    c = cv(I, o)
    if isinstance(c, tuple):
        return I.new_list(c)
    return scalar_of(I, o)


@meth('arr', 'copy', 'block_until_ready')
def a_copy(I, o, a, k):
    return o.but(own=frozenset())


@meth('arr', 'at')
def a_at(I, o, a, k):
    raise Unknown('at()')


@meth('arr', 'fill', 'sort', 'put', 'resize', 'itemset', 'partition')
def a_inplace(I, o, a, k):
    if o.own:
        I.event('mutate', own=o.own, obj=o)
    raise Unknown('in-place array method')


@meth('num', 'astype')
def num_astype(I, o, a, k):
    return o


@meth('num', 'item')
def num_item(I, o, a, k):
    return o


for _m in ('conj', 'conjugate'):
    meth('arr', _m)(lambda I, o, a, k: n_conj(I, (o,), {}))
meth('arr', 'squeeze')(lambda I, o, a, k: n_squeeze(I, (o,) + tuple(a), k))
meth('arr', 'dot')(lambda I, o, a, k: n_matmul(I, (o,) + tuple(a), k))
meth('arr', 'mean')(lambda I, o, a, k: n_mean(I, (o,) + tuple(a), k))
meth('arr', 'swapaxes')(lambda I, o, a, k: n_swapaxes(I, (o,) + tuple(a), k))
meth('arr', 'argmax')(lambda I, o, a, k: EXT['np.argmax'](I, (o,) + tuple(a), k))
meth('arr', 'repeat')(lambda I, o, a, k: n_repeat(I, (o,) + tuple(a), k))
meth('arr', 'take')(lambda I, o, a, k: n_take(I, (o,) + tuple(a), k))
meth('arr', 'diagonal')(lambda I, o, a, k: n_diagonal(I, (o,) + tuple(a), k))
meth('arr', 'trace')(lambda I, o, a, k: n_trace(I, (o,) + tuple(a), k))


@meth('at', 'set')
def at_set(I, o, a, k):
    v, idx = o.arr, o.idx
    val = arr(I, a[0])
    # zeros.at[mask].set(r): put back the entries that were kept by np.where(mask)
    if isinstance(idx, Arr) and idx.dt.kind == 'b' and val.rank == 1 and len(val.axes[0]) == 1:
        t = idx.blocks[next(iter(idx.blocks))]
        l = val.axes[0][0][0]
        if l is not None and l[0] == 'nz' and l[1] == t:
            c = val.blocks[(0,)]
            base = v.blocks[next(iter(v.blocks))]
            want = l[2]
            have = [ax[0][0] for ax in v.axes]
            if len(want) == len(have):
                axes = tuple(((w[0], ax[0][1]),) for w, ax in zip(want, v.axes))
                if is_cross(I, c, t) and T.is_zero_c(base):
                    return Arr(axes, {(0,) * v.rank: c}, v.dt, 'jx')
                return Arr(axes, {(0,) * v.rank: T.bad('entries outside the kept index set do not vanish')}, v.dt, 'jx')
    ci = cv(I, idx)
    raise Unknown('at[].set')


def is_cross(I, c, t):
    """The content vanishes wherever the patterns do not meet: every term pairs two different Jacobians."""
    ms = masks_in(t)
    if not isinstance(c, Poly):
        return False
    def anyof(t):
        """Patterns P with t = (some entry of P is not padding)."""
        if not isinstance(t, tuple) or not t or t[0] != 'any':
            return set()
        out = set()
        for x in t[1:]:
            for y in (x if isinstance(x, frozenset) else (x,)):
                if isinstance(y, tuple) and y and y[0] == 'ne' and isinstance(y[1], tuple):
                    out.add(y[1][0])
                else:
                    out |= anyof(y)
        return out
    kinds = anyof(t)
    if not kinds & {'I', 'U', 'R', 'M'}:
        return False
    inter = 'I' in kinds
    for m in c.t:
        js = T.jdeg(I, m)
        if len(js) != 2:
            return False
        if inter and js[0][0] == js[1][0]:
            return False
    return True


@meth('at', 'add')
def at_add(I, o, a, k):
    raise Unknown('at[].add')


@meth('at', 'get', 'multiply', 'max', 'min')
def at_other(I, o, a, k):
    raise Unknown('at[]')


@ext('np.iinfo', 'jnp.iinfo')
def x_iinfo(I, a, k):
    d = want_dt(I, a[0], None)
    bits = {'8': 8, '16': 16, '32': 32, '64': 64}.get(getattr(d, 'key', None))
    if bits is None or d.kind != 'i':
        return n_iinfo(I, a, k)
    u = 'uint' in (a[0].name if isinstance(a[0], ExtV) else str(a[0]))
    return Obj('iinfo', {'max': 2 ** (bits - (0 if u else 1)) - 1, 'min': 0 if u else -2 ** (bits - 1), 'bits': bits})
