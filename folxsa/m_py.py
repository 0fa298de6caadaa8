"""Python built-ins, functools, itertools, containers."""
from fractions import Fraction

from .poly import Poly, ZERO, ONE
from .values import *
from .interp import AbsRaise, Unknown, dict_update
from .models import ext, kind, meth, CONSTS, EXT, KIND
from . import tensor as T


def seq(I, v, what='iteration'):
    it = I.iterate(v)
    if isinstance(it, (Top, AbsList)):
        raise Unknown(f'{what} over a sequence of unknown length')
    return tuple(it)


@ext('builtins.len')
def b_len(I, a, k):
    v = a[0]
    if isinstance(v, Arr):
        if not v.rank:
            T.raise_(I, 'TypeError', 'len of a 0-d array')
        return norm(axis_size(v.axes[0]))
    if isinstance(v, AbsList):
        return norm(topoly(v.size)) if v.size is not None else Top('length')
    if isinstance(v, Ref):
        o = I.deref(v)
        if isinstance(o, (ListObj, DictObj)):
            return len(o.items)
        if isinstance(o, InstObj):
            m = I.class_attr(o.cls, '__len__')
            if m is not None:
                return I.call(BoundM(v, m), (), {})
            if dict(o.attrs).get('#list') is not None:
                return len(dict(o.attrs)['#list'])
    if isinstance(v, NT):
        m = I.class_attr(v.cls, '__len__')
        if m is not None:
            return I.call(BoundM(v, m), (), {})
        return len(v.items)
    if isinstance(v, Top):
        return Top('length')
    if v is None or is_num(v):
        T.raise_(I, 'TypeError', f'object of type {type(v).__name__} has no len()')
    it = I.iterate(v)
    if isinstance(it, AbsList):
        return norm(topoly(it.size))
    if isinstance(it, Top):
        return Top('length')
    return len(it)


def isinst(I, v, c):
    if isinstance(c, tuple):
        r = False
        for x in c:
            e = isinst(I, v, x)
            if e is True:
                return True
            if e is not False:
                r = e
        return r
    if isinstance(c, ModelV) and c.kind == 'union':
        return isinst(I, v, c.data)
    if isinstance(v, Top):
        return Top('isinstance')
    if c is None:
        return v is None
    if isinstance(c, ClassV):
        cls = v.cls if isinstance(v, (NT, FlagV)) else None
        if isinstance(v, Ref):
            o = I.deref(v)
            cls = o.cls if isinstance(o, InstObj) else None
        todo = [cls] if cls is not None else []
        while todo:
            x = todo.pop()
            if x == c:
                return True
            todo += [b for b in x.bases if isinstance(b, ClassV)]
        return False
    if isinstance(c, ExtV):
        n = c.name
        if n in ('jaxArray', 'jax.Array', 'typing.Array'):
            return isinstance(v, Arr) and v.stage in ('jx', 'ct')
        if n == 'np.ndarray':
            return isinstance(v, Arr) and v.stage == 'np' and v.rank != 0 or isinstance(v, Arr) and v.stage == 'np'
        if n in ('core.Tracer',):
            return isinstance(v, Arr) and v.stage == 'jx'
        if n in ('jaxtyping.ArrayLike', 'jax.typing.ArrayLike'):
            return isinstance(v, Arr) or is_num(v)
        if n in ('core.Literal', 'core.Var', 'core.Primitive', 'core.DropVar', 'core.ClosedJaxpr', 'core.Jaxpr', 'core.JaxprEqn'):
            k = n[5:]
            if isinstance(v, Obj):
                return v.kind == k or (k == 'Var' and v.kind == 'DropVar')
            if isinstance(v, ExtV):
                return k == 'Primitive' and v.name.endswith('_p')
            return False
        if n == 'builtins.int':
            return isinstance(v, (bool, int)) or isinstance(v, Poly)
        if n == 'builtins.bool':
            return isinstance(v, bool)
        if n == 'builtins.float':
            return isinstance(v, (float, Fraction))
        if n == 'builtins.complex':
            return isinstance(v, complex)
        if n == 'builtins.str':
            return isinstance(v, str)
        if n == 'builtins.tuple':
            return isinstance(v, (tuple, NT))
        if n == 'builtins.list':
            return (isinstance(v, Ref) and (isinstance(I.deref(v), ListObj) or isinstance(I.deref(v), InstObj) and
                    dict(I.deref(v).attrs).get('#list') is not None)) or isinstance(v, AbsList)
        if n == 'builtins.dict':
            return isinstance(v, Ref) and isinstance(I.deref(v), DictObj)
        if n == 'builtins.slice':
            return isinstance(v, SliceV)
        if n in ('builtins.set', 'builtins.frozenset'):
            return isinstance(v, ModelV) and v.kind == 'set'
        if n in ('builtins.type',):
            return isinstance(v, ClassV)
        if n == 'typing.Sequence':
            return isinstance(v, (tuple, NT, str, AbsList)) or isinstance(v, Ref) and isinstance(I.deref(v), ListObj)
        if n in ('typing.Callable', 'collections.abc.Callable'):
            return isinstance(v, (FuncV, BoundM, ModelV, ClassV, ExtV, MethV))
        if n == 'functools.partial':
            return isinstance(v, ModelV) and v.kind == 'partial'
        if n in ('np.integer', 'numbers.Integral', 'numbers.Number', 'numbers.Real'):
            return is_num(v) and not isinstance(v, bool)
        if n == 'builtins.object':
            return True
        if n in ('builtins.Exception', 'builtins.BaseException'):
            return isinstance(v, ModelV) and v.kind in ('exc', 'excinst', 'anyexc')
        if isinstance(v, ModelV) and v.kind == 'excinst':
            return v.data[0] == n
        if isinstance(v, Obj):
            return v.kind == n.rpartition('.')[2]
        if isinstance(v, (Arr, int, float, str, tuple, NT, FuncV, type(None))):
            return False
        return Top(f'isinstance {n}')
    if isinstance(c, Ref):
        T.raise_(I, 'TypeError', 'isinstance() arg 2')
    if isinstance(c, Dt):
        return False
    return Top('isinstance')


@ext('builtins.isinstance', lift=False)
def b_isinstance(I, a, k):
    return I.lift(lambda v, c: isinst(I, v, c), a[0], a[1], deep=False)


@ext('builtins.issubclass')
def b_issubclass(I, a, k):
    v, c = a
    if isinstance(v, ClassV) and isinstance(c, (ClassV, tuple)):
        cs = c if isinstance(c, tuple) else (c,)
        todo = [v]
        while todo:
            x = todo.pop()
            if x in cs:
                return True
            todo += [b for b in x.bases if isinstance(b, ClassV)]
        return False
    raise Unknown('issubclass')


@ext('builtins.range')
def b_range(I, a, k):
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 64:
            raise Unknown('long range')
        return ModelV('range', tuple(r))
    if len(a) == 1 and isinstance(a[0], Poly):
        return AbsList(Poly.atom(('n', ('rangeidx', I.fresh()))), a[0])
    raise Unknown('range with symbolic bounds')


@ext('builtins.tuple', lift=False)
def b_tuple(I, a, k):
    if not a:
        return ()
    it = I.iterate(a[0])
    if isinstance(it, Phi):
        return it
    if isinstance(it, (Top, AbsList)):
        return it
    return tuple(it)


@ext('builtins.list', lift=False)
def b_list(I, a, k):
    if not a:
        return I.new_list(())
    v = I.rdeep(a[0])
    if isinstance(v, Phi):
        return I.lift(lambda x: b_list(I, (x,), k), v, deep=False)
    it = I.iterate(v)
    if isinstance(it, (Top, AbsList)):
        return it
    return I.new_list(tuple(it))


@ext('builtins.dict', lift=False)
def b_dict(I, a, k):
    items = ()
    if a:
        v = I.rdeep(a[0])
        if isinstance(v, Ref) and isinstance(I.deref(v), DictObj):
            items = I.deref(v).items
        else:
            items = tuple(seq(I, x) for x in seq(I, v))
    return I.new_dict(dict_update(items, list(k.items())))


@ext('builtins.set', 'builtins.frozenset')
def b_set(I, a, k):
    if not a:
        return ModelV('set', ())
    out = []
    for x in seq(I, a[0]):
        if not any(type(y) is type(x) and y == x for y in out):
            out.append(x)
    return ModelV('set', tuple(out))


@ext('builtins.zip', lift=False)
def b_zip(I, a, k):
    its = []
    for x in a:
        x = I.rdeep(x)
        if isinstance(x, Phi):
            g = I.find_phi(I.rdeep(a))
            return I.lift(lambda *y: b_zip(I, y, k), *a, deep=False)
        its.append(I.iterate(x))
    if any(isinstance(x, Top) for x in its):
        return I.top('zip of unknown')
    if any(isinstance(x, AbsList) for x in its):
        n = [x for x in its if isinstance(x, AbsList)][0].size
        if all(isinstance(x, AbsList) for x in its):
            return AbsList(tuple(x.elem for x in its), n)
        conc = [x for x in its if not isinstance(x, AbsList)]
        m = min(len(x) for x in conc)
        return ModelV('iterz', None) if False else ModelV('gen', tuple(
            tuple(x.elem if isinstance(x, AbsList) else x[i] for x in its) for i in range(m)))
    if k.get('strict') is True and len({len(x) for x in its}) > 1:
        T.raise_(I, 'ValueError', 'zip() arguments of different length')
    return ModelV('gen', tuple(zip(*its)))


@ext('builtins.enumerate', lift=False)
def b_enumerate(I, a, k):
    v = I.rdeep(a[0])
    if isinstance(v, Phi):
        return I.lift(lambda x: b_enumerate(I, (x,) + tuple(a[1:]), k), v, deep=False)
    s = a[1] if len(a) > 1 else k.get('start', 0)
    it = I.iterate(v)
    if isinstance(it, Top):
        return it
    if isinstance(it, AbsList):
        return AbsList((Poly.atom(('n', ('rangeidx', I.fresh()))), it.elem), it.size)
    return ModelV('gen', tuple((i + s, x) for i, x in enumerate(it)))


def same_length(I, args, what):
    its = [I.iterate(I.rdeep(x)) for x in args]
    if any(isinstance(x, (Top, AbsList, Phi)) for x in its):
        return
    if len({len(x) for x in its}) > 1:
        T.raise_(I, 'ValueError', f'{what}: arguments of lengths {[len(x) for x in its]}')


@ext('safe_map', lift=False)
def b_smap(I, a, k):
    return b_map(I, a, {'#safe': True})


@ext('builtins.map', lift=False)
def b_map(I, a, k):
    f = a[0]
    args = I.rdeep(tuple(a[1:]))
    for x in args:
        if isinstance(x, Phi):
            return I.lift(lambda *y: b_map(I, (f,) + y, k), *args, deep=False)
    if k.get('#safe'):
        same_length(I, args, 'safe_map')
    its = [I.iterate(x) for x in args]
    if any(isinstance(x, Top) for x in its):
        return I.top('map of unknown')
    if any(isinstance(x, AbsList) for x in its):
        n = [x for x in its if isinstance(x, AbsList)][0].size
        return AbsList(I.call(f, tuple(x.elem if isinstance(x, AbsList) else x[0] for x in its)), n)
    if len({len(x) for x in its}) > 1:
        m = min(len(x) for x in its)
        its = [x[:m] for x in its]
    return I.new_list(tuple(I.call(f, tuple(c)) for c in zip(*its)))


@ext('safe_zip', lift=False)
def b_szip(I, a, k):
    same_length(I, a, 'safe_zip')
    return b_zip(I, a, {})


@ext('builtins.filter', lift=False)
def b_filter(I, a, k):
    out = []
    for x in seq(I, a[1]):
        t = I.truth(x if a[0] is None else I.call(a[0], (x,)))
        if t is True:
            out.append(x)
        elif t is not False:
            raise Unknown('filter with undecided predicate')
    return ModelV('gen', tuple(out))


@ext('builtins.reversed')
def b_reversed(I, a, k):
    return ModelV('gen', tuple(reversed(seq(I, a[0]))))


@ext('builtins.sorted')
def b_sorted(I, a, k):
    s = list(seq(I, a[0]))
    f = k.get('key')
    ks = [I.call(f, (x,)) if f is not None else x for x in s]
    rev = k.get('reverse', False)
    if all(isinstance(x, (int, float, str)) or isinstance(x, tuple) and all(isinstance(y, (int, str)) for y in x) for x in ks) and isinstance(rev, bool):
        order = sorted(range(len(s)), key=lambda i: ks[i], reverse=rev)
        return I.new_list(tuple(s[i] for i in order))
    if len(s) <= 1:
        return I.new_list(tuple(s))
    raise Unknown('sort of symbolic values')


def quantify(I, a, stop):
    v = I.rdeep(a[0])
    it = I.iterate(v)
    if isinstance(it, Top):
        return Top('any/all')
    if isinstance(it, AbsList):
        t = I.truth(it.elem)
        return t if isinstance(t, bool) else Top('any/all')

    def go(items):
        if not items:
            return not stop
        t = I.truth(items[0])
        if isinstance(t, Top):
            return Top('any/all') if go(items[1:]) is not stop else stop
        if isinstance(t, bool):
            return stop if t is stop else go(items[1:])
        return I.lift(lambda x: stop if x is stop else go(items[1:]), t, deep=False)
    return go(it)


@ext('builtins.any', lift=False)
def b_any(I, a, k):
    v = I.rdeep(a[0])
    if isinstance(v, Phi):
        return I.lift(lambda x: b_any(I, (x,), k), v, deep=False)
    return quantify(I, a, True)


@ext('builtins.all', lift=False)
def b_all(I, a, k):
    v = I.rdeep(a[0])
    if isinstance(v, Phi):
        return I.lift(lambda x: b_all(I, (x,), k), v, deep=False)
    return quantify(I, a, False)


def minmax(I, vals, op):
    """max/min of numbers, possibly symbolic."""
    if not vals:
        T.raise_(I, 'ValueError', f'{op}() of an empty sequence')
    cur = vals[0]
    for x in vals[1:]:
        if isinstance(cur, Top) or isinstance(x, Top):
            return Top(op)
        if isinstance(cur, Arr) or isinstance(x, Arr):
            raise Unknown(f'{op} of arrays')
        t = I.models.poly_cmp(I, '>' if op == 'max' else '<', x, cur)
        cur = (x if t else cur) if isinstance(t, bool) else I.lift(lambda b, x=x, cur=cur: x if b else cur, t, deep=False)
        if isinstance(cur, Phi):
            rest = vals[vals.index(x) + 1:]
            return I.lift(lambda c: minmax(I, [c] + list(rest), op), cur, deep=False)
    return cur


@ext('builtins.max')
def b_max(I, a, k):
    vals = list(a) if len(a) > 1 else list(mm_seq(I, a[0], k))
    return mm(I, vals, 'max', k)


@ext('builtins.min')
def b_min(I, a, k):
    vals = list(a) if len(a) > 1 else list(mm_seq(I, a[0], k))
    return mm(I, vals, 'min', k)


def mm_seq(I, v, k):
    it = I.iterate(v)
    if isinstance(it, AbsList):
        e = it.elem
        if isinstance(e, Poly) or isinstance(e, int):
            p = topoly(e)
            at = list(p.atoms())
            if len(at) == 1 and at[0][0] == 'n' and isinstance(at[0][1], tuple) and p == Poly.atom(at[0]):
                t = at[0][1]
                return [Poly.atom(('n', ('max', T.strip_max(t))))]
            if not at:
                return [e]
        raise Unknown('max over a sequence of unknown length')
    if isinstance(it, Top):
        raise Unknown('max over an unknown sequence')
    if not it and 'default' in k:
        return [k['default']]
    return it


def mm(I, vals, op, k):
    if 'key' in k and k['key'] is not None:
        ks = [I.call(k['key'], (x,)) for x in vals]
        if all(isinstance(x, int) for x in ks):
            return vals[ks.index((max if op == 'max' else min)(ks))]
        if len(vals) == 1:
            return vals[0]
        raise Unknown(f'{op} with key')
    return minmax(I, vals, op)


@ext('builtins.sum')
def b_sum(I, a, k):
    s = a[1] if len(a) > 1 else k.get('start', 0)
    it = I.iterate(a[0])
    if isinstance(it, (AbsList, Top)):
        if isinstance(it, AbsList) and is_num(it.elem) and topoly(it.elem).as_const() is not None:
            return norm(topoly(it.elem) * topoly(it.size))
        raise Unknown('sum of unknown length')
    import ast
    for x in it:
        s = I.binop(ast.Add(), s, int(x) if isinstance(x, bool) else x)
    return s


@ext('builtins.abs')
def b_abs(I, a, k):
    if isinstance(a[0], Arr):
        return EXT['jnp.abs'](I, a, k)
    if isinstance(a[0], Poly):
        s = I.models.sign(I, a[0])
        if s is None:
            raise Unknown('abs')
        return a[0] if s >= 0 else norm(-a[0])
    return abs(a[0])


@ext('builtins.int')
def b_int(I, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
        return int(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Poly):
        return v if all(x[0] in ('n', 'sh') for x in v.atoms()) else Poly.atom(('app', 'int', (v,), (0,), True, 'ew'))
    if isinstance(v, Arr):
        from .m_np import scalar_of
        if v.stage == 'jx':
            tracer_error(I, v, 'int()')
        return scalar_of(I, v)
    if isinstance(v, str) and len(a) == 1:
        try:
            return int(v)
        except ValueError:
            if '<' in v:
                raise Unknown('int()')
            T.raise_(I, 'ValueError', f'invalid literal for int(): {v!r}')
    raise Unknown('int()')


def tracer_error(I, v, what):
    raise AbsRaise(ModelV('excinst', ('jax.errors.ConcretizationTypeError', f'{what} of a traced array')), I.where(), True)


@ext('builtins.float')
def b_float(I, a, k):
    v = a[0] if a else 0.0
    if isinstance(v, Arr):
        if v.stage == 'jx':
            tracer_error(I, v, 'float()')
        from .m_np import scalar_of
        return scalar_of(I, v)
    if isinstance(v, str):
        return Poly.atom(('v', v, True))
    return v if isinstance(v, (Poly, Fraction)) else float(v)


@ext('builtins.complex')
def b_complex(I, a, k):
    if all(isinstance(x, (int, float)) for x in a):
        return complex(*a)
    raise Unknown('complex()')


@ext('builtins.bool', lift=False)
def b_bool(I, a, k):
    return I.truth(a[0]) if a else False


@ext('builtins.str', 'builtins.repr', 'builtins.format', lift=False)
def b_str(I, a, k):
    return a[0] if a and isinstance(a[0], str) else '<str>'


@ext('builtins.callable', lift=False)
def b_callable(I, a, k):
    v = I.rdeep(a[0])
    if isinstance(v, (Top, Phi)):
        return Top('callable')
    if isinstance(v, Ref):
        o = I.deref(v)
        return isinstance(o, InstObj) and I.class_attr(o.cls, '__call__') is not None
    return isinstance(v, (FuncV, BoundM, ModelV, ClassV, ExtV, MethV, Dt)) or isinstance(v, Obj) and v.get('#call') is not None


@ext('builtins.type', lift=False)
def b_type(I, a, k):
    return I.lift(lambda v: type_of(I, v), a[0], deep=False)


def type_of(I, v):
    if isinstance(v, (NT, FlagV)):
        return v.cls
    if isinstance(v, Ref):
        o = I.deref(v)
        if isinstance(o, InstObj):
            return o.cls
        return ExtV('builtins.list' if isinstance(o, ListObj) else 'builtins.dict')
    if isinstance(v, Arr):
        return ExtV('np.ndarray' if v.stage == 'np' else 'jaxArray')
    if isinstance(v, tuple):
        return ExtV('builtins.tuple')
    if isinstance(v, (bool, int, float, str, complex)):
        return ExtV('builtins.' + type(v).__name__)
    if v is None:
        return ExtV('builtins.NoneType')
    return Top('type()')


@ext('builtins.getattr', lift=False)
def b_getattr(I, a, k):
    n = a[1]
    if not isinstance(n, str):
        raise Unknown('getattr with computed name')
    try:
        return I.getattr(a[0], n)
    except AbsRaise as e:
        if len(a) > 2 and I.exc_name(e.exc) == 'builtins.AttributeError':
            return a[2]
        raise


@ext('builtins.hasattr', lift=False)
def b_hasattr(I, a, k):
    try:
        v = I.getattr(a[0], a[1])
    except AbsRaise as e:
        if I.exc_name(e.exc) == 'builtins.AttributeError':
            return False
        raise
    if isinstance(v, Top) or isinstance(v, MethV) and not isinstance(v.obj, (Arr,)):
        return Top('hasattr')
    return True


@ext('builtins.setattr', lift=False)
def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])
    return None


@ext('builtins.delattr', lift=False)
def b_delattr(I, a, k):
    I.delattr(a[0], a[1])


@ext('builtins.iter', lift=False)
def b_iter(I, a, k):
    v = I.rdeep(a[0])
    if isinstance(v, Phi):
        return I.lift(lambda x: b_iter(I, (x,), k), v, deep=False)
    if isinstance(v, ModelV) and v.kind == 'iter':
        return v
    it = I.iterate(v)
    if isinstance(it, (Top, AbsList)):
        return it
    if isinstance(it, Phi):
        return I.lift(lambda x: b_iter(I, (x,), k), it, deep=False)
    i = I.fresh()
    I.st.set(('iter', i), (tuple(it), 0))
    return ModelV('iter', i)


@ext('builtins.next', lift=False)
def b_next(I, a, k):
    v = I.rdeep(a[0])
    if isinstance(v, Phi):
        return I.lift(lambda x: b_next(I, (x,) + tuple(a[1:]), k), v, deep=False)
    if isinstance(v, ModelV) and v.kind == 'iter':
        items, pos = step(I, v)
        if pos >= len(items):
            if len(a) > 1:
                return a[1]
            raise AbsRaise(ModelV('excinst', ('builtins.StopIteration', ())), I.where(), True)
        I.st.set(('iter', v.data), (items, pos + 1))
        return I.rdeep(items[pos])
    if isinstance(v, ModelV) and v.kind == 'counter':
        n = I.st.get(('iter', v.data))
        I.st.set(('iter', v.data), n + 1)
        return n
    if isinstance(v, ModelV) and v.kind in ('gen', 'set', 'range'):
        if v.data:
            return v.data[0]
        if len(a) > 1:
            return a[1]
        raise AbsRaise(ModelV('excinst', ('builtins.StopIteration', ())), I.where(), True)
    if isinstance(v, AbsList):
        return v.elem
    return I.top('next()')


def step(I, v):
    c = I.st.get(('iter', v.data))
    c = I.rdeep(c)
    if isinstance(c, Phi) or isinstance(c[0], Phi) or isinstance(c[1], Phi):
        raise Unknown('iterator position depends on a condition')
    return c


@ext('builtins.id', 'builtins.hash', 'builtins.object', lift=False)
def b_id(I, a, k):
    return Top('id')


@ext('builtins.slice')
def b_slice(I, a, k):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@ext('builtins.divmod')
def b_divmod(I, a, k):
    import ast
    return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))


@ext('builtins.round')
def b_round(I, a, k):
    if isinstance(a[0], (int, float)):
        return round(*a)
    raise Unknown('round')


@ext('builtins.pow')
def b_pow(I, a, k):
    import ast
    return I.binop(ast.Pow(), a[0], a[1])


@ext('builtins.globals', 'builtins.vars', lift=False)
def b_globals(I, a, k):
    return I.top('globals()')


# ------------------------------------------------------------------ functools and friends
@ext('functools.partial', lift=False)
def f_partial(I, a, k):
    f = a[0]
    if isinstance(f, ModelV) and f.kind == 'partial' and not I.st.has(('fa', f.id, '__name__')):
        d = dict(f.data[2])
        d.update(k)
        return ModelV('partial', (f.data[0], f.data[1] + tuple(a[1:]), tuple(d.items()), I.fresh()))
    return ModelV('partial', (f, tuple(a[1:]), tuple(k.items()), I.fresh()))


@kind('partial')
def k_partial(I, f, args, kwargs):
    g, a, kw = f.data[:3]
    d = dict(kw)
    d.update(kwargs)
    return I.call(g, a + tuple(args), d)


@ext('functools.reduce', lift=False)
def f_reduce(I, a, k):
    items = list(seq(I, a[1]))
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = I.call(a[0], (acc, x))
    return acc


@ext('functools.wraps', 'functools.update_wrapper', lift=False)
def f_wraps(I, a, k):
    return ModelV('wraps', a[0])


@kind('wraps')
def k_wraps(I, f, args, kwargs):
    g = args[0]
    if isinstance(g, (FuncV, ModelV)) and isinstance(f.data, (FuncV, ModelV)):
        try:
            I.setattr(g, '__name__', I.getattr(f.data, '__name__'))
        except AbsRaise:
            pass
    if isinstance(g, FuncV):
        I.st.set(('fa', g.id, '__wrapped__'), f.data)
    return g


@ext('functools.cache', 'functools.lru_cache', lift=False)
def f_cache(I, a, k):
    if a and isinstance(a[0], (FuncV, ModelV)):
        I.event('cache', fn_=a[0])
        I.cached.add(a[0].id)
        return a[0]
    return ModelV('cachedeco', I.fresh())


@kind('cachedeco')
def k_cachedeco(I, f, args, kwargs):
    I.event('cache', fn_=args[0])
    I.cached.add(getattr(args[0], 'id', None))
    return args[0]


@ext('itertools.count')
def i_count(I, a, k):
    i = I.fresh()
    I.st.set(('iter', i), a[0] if a else 0)
    return ModelV('counter', i)


@ext('itertools.chain')
def i_chain(I, a, k):
    return ModelV('gen', tuple(y for x in a for y in seq(I, x)))


@ext('itertools.chain.from_iterable')
def i_chainfi(I, a, k):
    return ModelV('gen', tuple(y for x in seq(I, a[0]) for y in seq(I, x)))


@ext('itertools.product')
def i_product(I, a, k):
    import itertools
    return ModelV('gen', tuple(itertools.product(*[seq(I, x) for x in a])))


@ext('itertools.zip_longest')
def i_zl(I, a, k):
    import itertools
    return ModelV('gen', tuple(itertools.zip_longest(*[seq(I, x) for x in a], fillvalue=k.get('fillvalue'))))


@ext('itertools.accumulate')
def i_acc(I, a, k):
    import ast
    out = []
    for x in seq(I, a[0]):
        out.append(x if not out else (I.call(a[1], (out[-1], x)) if len(a) > 1 else I.binop(ast.Add(), out[-1], x)))
    return ModelV('gen', tuple(out))


@ext('collections.defaultdict', lift=False)
def c_defaultdict(I, a, k):
    return I.new_dict((), factory=a[0] if a else None)


@ext('collections.Counter', lift=False)
def c_counter(I, a, k):
    return I.new_dict((), factory=ExtV('builtins.int'))


@ext('collections.OrderedDict', lift=False)
def c_od(I, a, k):
    return b_dict(I, a, k)


@ext('collections.deque', lift=False)
def c_deque(I, a, k):
    return b_list(I, a, {})


@ext('collections.namedtuple', lift=False)
def c_nt(I, a, k):
    f = a[1].replace(',', ' ').split() if isinstance(a[1], str) else list(seq(I, a[1]))
    fr = I.new_frame(None, I.callstack[-1].mod if I.callstack else None)
    return ClassV(a[0], f'<namedtuple>.{a[0]}', (), fr, None, 'nt', tuple(f), (), None)


@ext('math.prod')
def m_prod(I, a, k):
    p = topoly(k.get('start', 1))
    for x in seq(I, a[0]):
        q = topoly(x)
        if q is None:
            raise Unknown('math.prod')
        p = p * q
    return norm(p)


@ext('math.ceil', 'math.floor', 'math.sqrt', 'math.log', 'math.gcd')
def m_ceil(I, a, k):
    if all(isinstance(x, int) for x in a):
        return a[0] if len(a) == 1 else Top('math')
    return Top('math')


@ext('math.isclose')
def m_isclose(I, a, k):
    return Top('isclose')


@ext('operator.add')
def o_add(I, a, k):
    import ast
    return I.binop(ast.Add(), a[0], a[1])


@ext('operator.mul')
def o_mul(I, a, k):
    import ast
    return I.binop(ast.Mult(), a[0], a[1])


@ext('operator.sub')
def o_sub(I, a, k):
    import ast
    return I.binop(ast.Sub(), a[0], a[1])


@ext('operator.itemgetter', 'operator.attrgetter', lift=False)
def o_getter(I, a, k):
    return ModelV('itemgetter', a[0])


@kind('itemgetter')
def k_itemgetter(I, f, args, kwargs):
    return I.getattr(args[0], f.data) if isinstance(f.data, str) and not isinstance(args[0], Ref) else I.getitem(args[0], f.data)


for _n in ('typing.TypeVar', 'typing.ParamSpec', 'typing.NewType', 'typing.cast', 'typing.overload', 'typing.runtime_checkable', 'typing.final', 'typing.no_type_check'):
    EXT[_n] = (lambda I, a, k: (a[-1] if a and not isinstance(a[-1], str) else ExtV('typing.Any')))


@ext('warnings.catch_warnings', lift=False)
def w_catch(I, a, k):
    return ModelV('ctx', ('warnings', I.fresh()))


@ext('warnings.warn', 'warnings.warn_explicit', 'warnings.showwarning', lift=False)
def w_warn(I, a, k):
    I.event('log', name='warnings.warn', args=a)
    return None


WF = ('ea', ExtV('warnings'), 'filters')


@ext('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings', lift=False)
def w_simple(I, a, k):
    I.event('warnfilter', args=a)
    old = I.rdeep(I.st.get(WF)) if I.st.has(WF) else None
    new = (tuple(x if isinstance(x, str) else repr(x) for x in a), tuple(sorted((n, repr(v)) for n, v in k.items())))
    if isinstance(old, Ref):
        I.st.set(old.addr, ListObj((new,) + I.deref(old).items))
    else:
        I.st.set(WF, I.new_list((new, 'initial')))
    return None


@ext('contextlib.suppress', lift=False)
def cl_suppress(I, a, k):
    return ModelV('ctx', ('suppress', tuple(a)))


@ext('contextlib.nullcontext', lift=False)
def cl_null(I, a, k):
    return ModelV('ctx', ('null', I.fresh()) + tuple(a[:1] or k.values()))


@ext('contextlib.ExitStack', lift=False)
def cl_stack(I, a, k):
    raise Unknown('ExitStack')


@ext('contextlib.contextmanager', lift=False)
def cl_cm(I, a, k):
    return ModelV('cmfn', a[0])


@kind('cmfn')
def k_cmfn(I, f, args, kwargs):
    fn = f.data
    return ModelV('ctx', ('cm', fn, tuple(args), tuple(kwargs.items()))) if isinstance(fn, FuncV) else ModelV('ctx', ('null', I.fresh()))


@ext('copy.copy', 'copy.deepcopy')
def cp(I, a, k):
    v = a[0]
    if isinstance(v, Ref):
        o = I.deref(v)
        if isinstance(o, ListObj):
            return I.new_list(o.items)
        if isinstance(o, DictObj):
            return I.new_dict(o.items, factory=o.factory)
        if isinstance(o, InstObj):
            return I.alloc(InstObj(o.cls, o.attrs))
    if isinstance(v, Arr):
        return v.but(own=frozenset())
    return v


# ------------------------------------------------------------------ containers
@meth('list', 'append')
def l_append(I, o, a, k):
    x = I.deref(o)
    I.update_obj(o, ListObj(x.items + (a[0],), x.own))


@meth('list', 'extend')
def l_extend(I, o, a, k):
    x = I.deref(o)
    it = I.iterate(a[0])
    if isinstance(it, (Top, AbsList)):
        raise Unknown('extend by a sequence of unknown length')
    I.update_obj(o, ListObj(x.items + tuple(it), x.own))


@meth('list', 'insert')
def l_insert(I, o, a, k):
    x = I.deref(o)
    l = list(x.items)
    l.insert(a[0], a[1])
    I.update_obj(o, ListObj(l, x.own))


@meth('list', 'pop', 'popleft')
def l_pop(I, o, a, k):
    x = I.deref(o)
    l = list(x.items)
    if not l:
        T.raise_(I, 'IndexError', 'pop from empty list')
    i = a[0] if a else -1
    if not isinstance(i, int):
        raise Unknown('pop at a symbolic index')
    r = l.pop(i)
    I.update_obj(o, ListObj(l, x.own))
    return I.rdeep(r)


@meth('list', 'clear')
def l_clear(I, o, a, k):
    I.update_obj(o, ListObj((), I.deref(o).own))


@meth('list', 'copy')
def l_copy(I, o, a, k):
    return I.new_list(I.deref(o).items)


@meth('list', 'reverse')
def l_reverse(I, o, a, k):
    x = I.deref(o)
    I.update_obj(o, ListObj(tuple(reversed(x.items)), x.own))


@meth('list', 'remove')
def l_remove(I, o, a, k):
    x = I.deref(o)
    l = list(x.items)
    for i, y in enumerate(l):
        if I.models.compare(I, __import__('ast').Eq(), y, a[0]) is True:
            del l[i]
            I.update_obj(o, ListObj(l, x.own))
            return
    raise Unknown('list.remove')


@meth('list', 'sort')
def l_sort(I, o, a, k):
    x = I.deref(o)
    r = b_sorted(I, (o,), k)
    I.update_obj(o, ListObj(I.deref(r).items, x.own))


@meth('list', 'index')
def l_index(I, o, a, k):
    return t_index(I, tuple(I.rdeep(x) for x in I.deref(o).items), a, k)


@meth('list', 'count')
def l_count(I, o, a, k):
    return t_count(I, tuple(I.rdeep(x) for x in I.deref(o).items), a, k)


@meth('tuple', 'index')
def t_index(I, o, a, k):
    import ast
    for i, x in enumerate(o):
        e = I.models.compare(I, ast.Eq(), x, a[0])
        if e is True:
            return i
        if e is not False:
            raise Unknown('index()')
    T.raise_(I, 'ValueError', 'index(): not found')


@meth('tuple', 'count')
def t_count(I, o, a, k):
    import ast
    n = 0
    for x in o:
        e = I.models.compare(I, ast.Eq(), x, a[0])
        if e is True:
            n += 1
        elif e is not False:
            raise Unknown('count()')
    return n


@meth('nt', '_replace')
def nt_replace(I, o, a, k):
    items = list(o.items)
    for n, v in k.items():
        if n not in o.cls.fields:
            T.raise_(I, 'ValueError', f'_replace: {n}')
        items[o.cls.fields.index(n)] = v
    v = NT(o.cls, items)
    I.event('construct', cls=o.cls.name, value=v)
    return v


@meth('nt', '_asdict')
def nt_asdict(I, o, a, k):
    return I.new_dict(tuple(zip(o.cls.fields, o.items)))


@meth('class', '_make')
def cls_make(I, o, a, k):
    return I.call(o, seq(I, a[0]))


@meth('dict', 'get')
def d_get(I, o, a, k):
    import ast
    x = I.deref(o)
    for kk, v in x.items:
        if type(kk) is type(a[0]) and kk == a[0] or kk == a[0]:
            return I.rdeep(v)
    return a[1] if len(a) > 1 else None


@meth('dict', 'pop')
def d_pop(I, o, a, k):
    x = I.deref(o)
    for kk, v in x.items:
        if kk == a[0]:
            I.update_obj(o, DictObj([(p, q) for p, q in x.items if p != a[0]], x.own, x.factory))
            return I.rdeep(v)
    if len(a) > 1:
        return a[1]
    T.raise_(I, 'KeyError', repr(a[0]))


@meth('dict', 'setdefault')
def d_setdefault(I, o, a, k):
    x = I.deref(o)
    for kk, v in x.items:
        if kk == a[0]:
            return I.rdeep(v)
    v = a[1] if len(a) > 1 else None
    I.update_obj(o, DictObj(x.items + ((a[0], v),), x.own, x.factory))
    return v


@meth('dict', 'update')
def d_update(I, o, a, k):
    x = I.deref(o)
    new = list(k.items())
    if a:
        y = a[0]
        if isinstance(y, Ref) and isinstance(I.deref(y), DictObj):
            new = list(I.deref(y).items) + new
        else:
            new = [tuple(seq(I, p)) for p in seq(I, y)] + new
    I.update_obj(o, DictObj(dict_update(x.items, new), x.own, x.factory))


@meth('dict', 'keys')
def d_keys(I, o, a, k):
    return ModelV('gen', tuple(p for p, _ in I.deref(o).items))


@meth('dict', 'values')
def d_values(I, o, a, k):
    return ModelV('gen', tuple(I.rdeep(q) for _, q in I.deref(o).items))


@meth('dict', 'items')
def d_items(I, o, a, k):
    return ModelV('gen', tuple((p, I.rdeep(q)) for p, q in I.deref(o).items))


@meth('dict', 'copy')
def d_copy(I, o, a, k):
    x = I.deref(o)
    return I.new_dict(x.items, factory=x.factory)


@meth('dict', 'clear')
def d_clear(I, o, a, k):
    x = I.deref(o)
    I.update_obj(o, DictObj((), x.own, x.factory))


@meth('set', 'union')
def s_union(I, o, a, k):
    out = list(o.data)
    for x in a:
        out += [y for y in seq(I, x) if y not in out]
    return ModelV('set', tuple(out))


@meth('set', 'intersection')
def s_inter(I, o, a, k):
    return ModelV('set', tuple(x for x in o.data if all(x in seq(I, y) for y in a)))


@meth('set', 'difference')
def s_diff(I, o, a, k):
    return ModelV('set', tuple(x for x in o.data if not any(x in seq(I, y) for y in a)))


def set_store(I, o, items):
    I.st.set(('set', o.id), tuple(items))


@meth('set', 'add')
def set_add(I, o, a, k):
    v = I.rdeep(a[0])
    if isinstance(v, (Top, Phi)):
        raise Unknown('element of a set')
    if v not in o.data:
        set_store(I, o, o.data + (v,))


@meth('set', 'update')
def set_update(I, o, a, k):
    out = list(o.data)
    for x in a:
        for v in seq(I, x):
            if v not in out:
                out.append(v)
    set_store(I, o, out)


@meth('set', 'discard')
def set_discard(I, o, a, k):
    set_store(I, o, [x for x in o.data if x != a[0]])


@meth('set', 'remove')
def set_remove(I, o, a, k):
    if a[0] not in o.data:
        T.raise_(I, 'KeyError', 'set.remove')
    set_store(I, o, [x for x in o.data if x != a[0]])


@meth('set', 'clear')
def set_clear(I, o, a, k):
    set_store(I, o, ())


@meth('set', 'copy')
def set_copy(I, o, a, k):
    return ModelV('set', o.data)


@meth('set', 'issubset')
def s_sub(I, o, a, k):
    return all(x in seq(I, a[0]) for x in o.data)


@meth('set', 'isdisjoint')
def s_disj(I, o, a, k):
    s = seq(I, a[0])
    return not any(x in s for x in o.data)


for _n in ('format', 'join', 'strip', 'lower', 'upper', 'replace', 'rstrip', 'lstrip', 'ljust', 'rjust', 'capitalize', 'title'):
    meth('str', _n)(lambda I, o, a, k: '<str>')


@meth('str', 'startswith')
def str_sw(I, o, a, k):
    if isinstance(a[0], str) and not o.startswith('<'):
        return o.startswith(a[0])
    return Top('startswith')


@meth('str', 'endswith')
def str_ew(I, o, a, k):
    if isinstance(a[0], str) and not o.startswith('<'):
        return o.endswith(a[0])
    return Top('endswith')


@meth('str', 'split')
def str_split(I, o, a, k):
    if all(isinstance(x, str) for x in a) and not o.startswith('<'):
        return I.new_list(tuple(o.split(*a)))
    raise Unknown('str.split')


@meth('super', '__init__')
def super_init(I, o, a, k):
    self_, cls = o.data
    for b in (cls.bases if cls is not None else ()):
        if isinstance(b, ClassV):
            m = I.class_attr(b, '__init__')
            if m is not None:
                return I.call(BoundM(self_, m), a, k)
    if isinstance(self_, Ref):
        x = I.deref(self_)
        if isinstance(x, InstObj) and any(isinstance(b, ExtV) and b.name == 'builtins.list' for b in x.cls.bases):
            at = dict(x.attrs)
            at['#list'] = seq(I, a[0]) if a else ()
            I.st.set(self_.addr, InstObj(x.cls, at.items(), x.own))
    return None


@meth('super', 'format')
def super_format(I, o, a, k):
    return '<formatted>'


@ext('importlib.metadata.version')
def x_version(I, a, k):
    return '<version>'


# ---------------------------------------------------------------- process-wide state: logging and standard streams
def logger(I, name=None):
    """One logger object per name for the whole analysed process."""
    ls = I.__dict__.setdefault('_loggers', {})
    if name in (None, '', 'root'):
        name = None
    if name not in ls:
        lg = Obj('Logger', {'name': name or 'root'})
        ls[name] = lg
        I.st.set(('ea', lg.id, 'handlers'), I.new_list((Obj('Handler', {'#initial': True}),)))
        for f, v in (('level', 30), ('disabled', False), ('propagate', True), ('filters', I.new_list(()))):
            I.st.set(('ea', lg.id, f), v)
    return ls[name]


@ext('logging.getLogger', lift=False)
def x_getlogger(I, a, k):
    n = a[0] if a else k.get('name')
    n = I.rdeep(n)
    if n is not None and not isinstance(n, str):
        raise Unknown('logger name')
    return logger(I, n)


def _logger_method(name):
    @meth('Logger', name)
    def h(I, o, a, k):
        I.event('log', name=name, args=a, logger=o)
        return None


for _n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'):
    _logger_method(_n)


def _logger_state(attr, name, how):
    @meth('Logger', name)
    def h(I, o, a, k):
        key = ('ea', o.id, attr)
        v = I.rdeep(a[0]) if a else None
        I.event('ext_setattr', obj=o, name=attr, value=v)
        if how == 'set':
            I.st.set(key, v)
            return None
        cur = tuple(I.iterate(I.st.get(key)))
        if how == 'add':
            new = cur + (v,)
        else:
            new = tuple(x for x in cur if x is not v)
        # the handler list is changed in place
        from .values import ListObj
        r = I.resolve(I.st.get(key))
        if isinstance(r, Ref):
            I.st.set(r.addr, ListObj(new))
        return None


_logger_state('handlers', 'addHandler', 'add')
_logger_state('handlers', 'removeHandler', 'remove')
_logger_state('filters', 'addFilter', 'add')
_logger_state('filters', 'removeFilter', 'remove')
_logger_state('level', 'setLevel', 'set')


@ext('logging.StreamHandler', 'logging.NullHandler', 'logging.FileHandler', lift=False)
def x_handler(I, a, k):
    return Obj('Handler', {'#initial': False})


for _n in ('logging.disable', 'logging.basicConfig', 'logging.captureWarnings', 'logging.setLoggerClass', 'logging.setLogRecordFactory', 'logging.addLevelName', 'random.seed', 'np.random.seed', 'os.chdir', 'os.putenv', 'os.unsetenv',
           'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile', 'gc.disable', 'gc.enable', 'atexit.register', 'signal.signal', 'jax.clear_caches'):
    def _mk(n):
        m, _, f = n.rpartition('.')

        @ext(n, lift=False)
        def h(I, a, k, m=m, f=f, n=n):
            I.event('global', name=n, args=a)
            key = ('ea', ExtV(n), '#state')
            v = I.rdeep(a[0]) if a else None
            if n == 'logging.disable' and (v == 0 or v is None and not a or isinstance(v, ExtV) and v.name == 'logging.NOTSET'):
                v = INITIAL
            if isinstance(v, Obj) and v.kind == 'initial':
                v = INITIAL
            if n == 'gc.enable':
                key, v = ('ea', ExtV('gc.disable'), '#state'), INITIAL
            I.st.set(key, v if v is INITIAL else ('set', repr(v)))
            return INITIAL
    _mk(_n)


INITIAL = Obj('initial', {})


@ext('sys.getrecursionlimit', 'os.getcwd', lift=False)
def x_get_initial(I, a, k):
    return INITIAL


@ext('np.geterr', lift=False)
def x_geterr(I, a, k):
    return I.new_dict(tuple((n, cur_global(I, ExtV('np.err'), n)) for n in ('divide', 'over', 'under', 'invalid')))


def cur_global(I, o, n):
    return I.rdeep(I.st.get(('ea', o, n))) if I.st.has(('ea', o, n)) else INITIAL


@ext('np.seterr', lift=False)
def x_seterr(I, a, k):
    old = x_geterr(I, (), {})
    for n in ('divide', 'over', 'under', 'invalid'):
        if n in k or 'all' in k:
            I.st.set(('ea', ExtV('np.err'), n), I.rdeep(k.get(n, k.get('all'))))
    return old


@ext('np.errstate', lift=False)
def x_errstate(I, a, k):
    return ModelV('ctx', ('null', I.fresh()))


@ext('jax.config.update', lift=False)
def x_config(I, a, k):
    n = I.rdeep(a[0])
    if not isinstance(n, str):
        raise Unknown('configuration option')
    I.st.set(('ea', ExtV('jax.config'), n), I.rdeep(a[1]) if len(a) > 1 else I.rdeep(k.get('val')))
    return None


@meth('Logger', 'isEnabledFor')
def logger_enabled(I, o, a, k):
    return Top('isEnabledFor')


@meth('Logger', 'getEffectiveLevel')
def logger_level(I, o, a, k):
    return I.rdeep(I.st.get(('ea', o.id, 'level')))


@meth('cte', '__enter__')
def cte_enter(I, o, a, k):
    I.compile_time += 1


@meth('cte', '__exit__')
def cte_exit(I, o, a, k):
    I.compile_time -= 1


@meth('Handler', 'setFormatter')
def handler_fmt(I, o, a, k):
    I.event('ext_setattr', obj=o, name='formatter', value=a[0])
    I.st.set(('ea', o.id, 'formatter'), a[0])
    return None


@meth('Handler', 'setLevel')
def handler_lvl(I, o, a, k):
    I.st.set(('ea', o.id, 'level'), a[0])
    return None


@ext('jax._src.source_info_util.summarize')
def x_summarize(I, a, k):
    return '<source>'
