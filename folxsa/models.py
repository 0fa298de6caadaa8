"""Transfer functions of the libraries the analysed program uses (Python built-ins, NumPy, JAX)."""
import ast
from fractions import Fraction

from .poly import Poly, ZERO, ONE
from .values import *
from .interp import AbsRaise, Unknown, Budget, EXC_PARENTS
from . import tensor as T

EXT = {}        # canonical name -> handler(I, args, kwargs)
KIND = {}       # ModelV kind -> handler(I, data, args, kwargs)
METH = {}       # (type tag, method name) -> handler(I, obj, args, kwargs)
NOLIFT = set()


def ext(*names, lift=True):
    def deco(f):
        for n in names:
            EXT[n] = f
            if not lift:
                NOLIFT.add(n)
        return f
    return deco


def kind(*names):
    def deco(f):
        for n in names:
            KIND[n] = f
        return f
    return deco


def meth(tag, *names):
    def deco(f):
        for n in names:
            METH[(tag, n)] = f
        return f
    return deco


PREFIX = (('jax._src.numpy.', 'jnp.'), ('jax.numpy.', 'jnp.'), ('numpy.', 'np.'), ('jax.tree_util.', 'jtu.'), ('jax.flatten_util.', 'jfu.'),
          ('jax._src.lax.', 'lax.'), ('jax.lax.', 'lax.'), ('jax.extend.core.', 'core.'), ('jax._src.core.', 'core.'), ('jax.core.', 'core.'))
ALIAS = {'jax.numpy': 'jnp', 'numpy': 'np', 'jax.tree_util': 'jtu', 'jax.lax': 'lax', 'jax.core': 'core',
         'jax.flatten_util': 'jfu', 'jax.tree_map': 'jtu.tree_map', 'jax.tree.map': 'jtu.tree_map',
         'jax.tree.leaves': 'jtu.tree_leaves', 'jax.tree.flatten': 'jtu.tree_flatten',
         'jax.tree.unflatten': 'jtu.tree_unflatten', 'jax.tree.structure': 'jtu.tree_structure',
         'jax.tree.reduce': 'jtu.tree_reduce', 'jax.Array': 'jaxArray', 'jaxtyping.Array': 'jaxArray',
         'jax.util.safe_map': 'safe_map', 'jax.util.safe_zip': 'safe_zip', 'jax._src.util.safe_map': 'safe_map', 'jax._src.util.safe_zip': 'safe_zip',
         'typing.Sequence': 'typing.Sequence', 'collections.abc.Sequence': 'typing.Sequence',
         'np.concat': 'np.concatenate', 'jnp.concat': 'jnp.concatenate',
         'jnp.absolute': 'jnp.abs', 'np.absolute': 'np.abs', 'jnp.conjugate': 'jnp.conj', 'np.conjugate': 'np.conj',
         'jnp.ndarray': 'jaxArray', 'jax.custom_derivatives.custom_jvp': 'jax.custom_jvp',
         'np.amax': 'np.max', 'np.amin': 'np.min', 'jnp.amax': 'jnp.max', 'jnp.amin': 'jnp.min',
         'lax.transpose': 'lax.transpose', 'jnp.divide': 'jnp.true_divide', 'jnp.permute_dims': 'jnp.transpose'}


FAULTY = ('jnp.', 'lax.', 'jax.', 'np.')


class Models:
    def __init__(self):
        self.deps = {}
        self.jnames = set()
        self.lb = {}            # atom -> lower bound
        self.opq = {}           # name of opaque function -> spec
        self.linear_facts = {}
        self.eqsize = {}
        self.ext_override = {}
        self.jitted = True
        self.vlevels = []
        self.constant_axes = frozenset()      # labels along which the operands' index patterns do not change
        self.steplevels = []      # those of them that run one after another (loops)
        self.gather_shape = None

    # ------------------------------------------------------------------ names
    def canon(self, name):
        if name in ALIAS:
            return ALIAS[name]
        for a, b in PREFIX:
            if name.startswith(a):
                name = b + name[len(a):]
                break
        return ALIAS.get(name, name)

    def ext_value(self, I, name):
        c = CONSTS.get(name)
        if c is not None:
            return c
        if name in ('np.newaxis', 'jnp.newaxis'):
            return None
        if name in ('np.pi', 'jnp.pi', 'math.pi'):
            return Poly.atom(('v', 'pi', True))
        if name in ('np.inf', 'jnp.inf', 'math.inf'):
            return Poly.atom(('v', 'inf', True))
        return ExtV(name)

    # ------------------------------------------------------------------ sizes
    def shift(self, p):
        def f(a):
            lb = self.lb.get(a)
            if lb is None:
                if a[0] == 'n':
                    lb = 2 if not isinstance(a[1], tuple) else term_lb(a[1])
                else:
                    return None
            return Poly.atom(('sh', a)) + Poly.const(lb) if lb is not None else None
        return p.subst(f)

    def bounds(self, p):
        """(>=0, >0, <=0, <0) as far as provable."""
        p = topoly(p)
        c = p.as_const()
        if c is not None:
            return c >= 0, c > 0, c <= 0, c < 0
        for q, flip in ((self.shift(p), False),):
            k = q.t.get((), 0)
            rest = [v for m, v in q.t.items() if m]
            ok = all(a[0] == 'sh' for m in q.t for a, _ in m)
            if ok and all(v > 0 for v in rest) and k >= 0:
                return True, k > 0, False, False
            if ok and all(v < 0 for v in rest) and k <= 0:
                return False, False, True, k < 0
        return False, False, False, False

    def sign(self, I, x):
        x = topoly(x)
        if x is None:
            return None
        c = x.as_const()
        if c is not None:
            return 0 if c == 0 else (1 if c > 0 else -1)
        ge, gt, le, lt = self.bounds(x)
        if gt:
            return 1
        if lt:
            return -1
        if ge:
            return 1
        return None

    def le(self, I, a, b):
        return self.bounds(topoly(b) - topoly(a))[0]

    def lt(self, I, a, b):
        d = topoly(b) - topoly(a)
        ge, gt = self.bounds(d)[:2]
        return gt or ge and d.as_const() is None and I.st.assume.get(('eq0', canon_sign(d))) is False

    def poly_cmp(self, I, op, a, b):
        a, b = topoly(a), topoly(b)
        d = a - b
        if op in ('==', '!='):
            c = d.as_const()
            if c is not None:
                r = c == 0
            else:
                ge, gt, le, lt = self.bounds(d)
                if gt or lt:
                    r = False
                elif all(is_size_atom(x) for x in d.atoms()) or a.as_const() or b.as_const():
                    r = False       # extents that are not forced to be equal are taken to differ
                else:
                    g = I.guard(('eq0', canon_sign(d)))
                    return self.cmp_guard(I, g, op == '==')
            return r if op == '==' else not r
        if op in ('>', '<='):
            ge, gt, le, lt = self.bounds(d)
            if gt:
                r = True
            elif le:
                r = False
            else:
                return self.cmp_guard(I, I.guard(('gt', d)), op == '>')
            return r if op == '>' else not r
        return self.poly_cmp(I, '>' if op == '<' else '<=', b, a)

    def cmp_guard(self, I, g, pos):
        v = I.st.assume.get(g)
        if v is not None:
            return v if pos else not v
        # the complementary guard a<=b may be on record as not(b<a): (gt,d) and (gt,-d) exclude each other
        if g[0] == 'gt':
            h = ('gt', -g[1])
            if I.st.assume.get(h) is True:
                return not pos
        return Phi(g, True, False) if pos else Phi(g, False, True)

    def refine(self, v, g, val):
        return v

    # ------------------------------------------------------------------ operators
    def unop(self, I, op, x):
        if isinstance(x, Top):
            return x
        if isinstance(op, ast.UAdd):
            return x
        if isinstance(op, ast.USub):
            if isinstance(x, (int, float, complex, Fraction)) and not isinstance(x, bool):
                return -x
            if isinstance(x, Poly):
                return norm(-x)
            if isinstance(x, Arr):
                return EXT['lax.neg'](I, (x,), {})
        if isinstance(op, ast.Invert):
            if isinstance(x, int):
                return ~x
            if isinstance(x, FlagV):
                return FlagV(x.cls, ~x.val)
            if isinstance(x, Arr):
                from .m_np import logic1
                return logic1(I, 'not', x)
        raise Unknown(f'unary {type(op).__name__} on {type(x).__name__}')

    def binop(self, I, op, a, b):
        o = type(op).__name__
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('operand')
        if isinstance(a, FlagV) or isinstance(b, FlagV):
            cls = a.cls if isinstance(a, FlagV) else b.cls
            x = a.val if isinstance(a, FlagV) else a
            y = b.val if isinstance(b, FlagV) else b
            r = {'BitOr': lambda: x | y, 'BitAnd': lambda: x & y, 'BitXor': lambda: x ^ y}.get(o)
            if r is not None and isinstance(x, int) and isinstance(y, int):
                return FlagV(cls, r())
            raise Unknown('flag arithmetic')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (str, type(None), NT)) or isinstance(b, (str, type(None), NT)):
                return self.dunder(I, o, a, b)
            r = self.arr_binop(I, o, a, b)
            if I.trace is not None and o == 'Mult':
                from .jaxprs import after
                if isinstance(r, Arr):
                    r = r.but(id=None)
                after(I, 'mul', a, b, r)
            return r
        if is_num(a) and is_num(b):
            return self.num_binop(I, o, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and o == 'Add':
            return a + b
        if o == 'Add' and isinstance(a, (tuple, AbsList)) and isinstance(b, (tuple, AbsList)):
            raise Unknown('concatenation with a sequence of unknown length')
        if o == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (tuple, str)) and isinstance(y, int):
                    return x * y
                if isinstance(x, Ref) and isinstance(y, int):
                    it = I.iterate(x)
                    return I.new_list(tuple(it) * y)
                if isinstance(x, Ref) and isinstance(y, Poly):
                    it = I.iterate(x)
                    if len(set(it)) == 1:
                        return AbsList(it[0], y)
        if o == 'Mod' and isinstance(a, str):
            return '<formatted>'
        if o == 'Add' and isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = I.deref(a), I.deref(b)
            if isinstance(oa, ListObj) and isinstance(ob, ListObj) and o == 'Add':
                return I.new_list(oa.items + ob.items)
            if isinstance(oa, DictObj) and isinstance(ob, DictObj) and o == 'BitOr':
                from .interp import dict_update
                return I.new_dict(dict_update(oa.items, ob.items))
        if isinstance(a, ModelV) and a.kind == 'set' and isinstance(b, ModelV) and b.kind == 'set':
            x, y = list(a.data), list(b.data)
            if o == 'BitOr':
                return ModelV('set', tuple(dict.fromkeys(x + y)))
            if o == 'BitAnd':
                return ModelV('set', tuple(v for v in x if v in y))
            if o == 'Sub':
                return ModelV('set', tuple(v for v in x if v not in y))
        if o == 'BitOr' and all(isinstance(x, (ExtV, ClassV, ModelV, type(None), tuple)) for x in (a, b)):
            return ModelV('union', (a, b))
        return self.dunder(I, o, a, b)

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul', 'Mod': 'mod',
              'Pow': 'pow', 'FloorDiv': 'floordiv', 'BitOr': 'or', 'BitAnd': 'and'}

    def dunder(self, I, o, a, b):
        n = self.DUNDER.get(o)
        if n:
            for x, y, nm in ((a, b, f'__{n}__'), (b, a, f'__r{n}__')):
                cls = None
                if isinstance(x, NT):
                    cls = x.cls
                elif isinstance(x, Ref) and isinstance(I.deref(x), InstObj):
                    cls = I.deref(x).cls
                if cls is not None:
                    m = I.class_attr(cls, nm)
                    if m is not None:
                        return I.call(BoundM(x, m), (y,), {})
        if (isinstance(a, (NT, type(None), FuncV)) or isinstance(b, (NT, type(None), FuncV))) or (isinstance(a, tuple) != isinstance(b, tuple) and (is_num(a) or is_num(b))):
            T.raise_(I, 'TypeError', f'unsupported operand types for {o}')
        raise Unknown(f'{o} of {type(a).__name__} and {type(b).__name__}')

    def num_binop(self, I, o, a, b):
        if not isinstance(a, Poly) and not isinstance(b, Poly):
            if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
                a2, b2 = (float(a) if isinstance(a, Fraction) else a), (float(b) if isinstance(b, Fraction) else b)
            else:
                a2, b2 = a, b
            try:
                r = {'Add': lambda: a2 + b2, 'Sub': lambda: a2 - b2, 'Mult': lambda: a2 * b2, 'Div': lambda: a2 / b2,
                     'FloorDiv': lambda: a2 // b2, 'Mod': lambda: a2 % b2, 'Pow': lambda: a2 ** b2,
                     'BitOr': lambda: a2 | b2, 'BitAnd': lambda: a2 & b2, 'LShift': lambda: a2 << b2,
                     'RShift': lambda: a2 >> b2, 'BitXor': lambda: a2 ^ b2}[o]()
            except ZeroDivisionError:
                T.raise_(I, 'ZeroDivisionError', o)
            except TypeError:
                T.raise_(I, 'TypeError', o)
            return r
        pa, pb = topoly(a), topoly(b)
        if o == 'Add':
            return norm(pa + pb)
        if o == 'Sub':
            return norm(pa - pb)
        if o == 'Mult':
            return norm(pa * pb)
        if o == 'Pow' and pb.as_const() is not None:
            r = pa.pow(pb.as_const())
            if r is not None:
                return norm(r)
        if o in ('Div', 'FloorDiv'):
            q = T.poly_div(pa, pb)
            if q is not None and (o == 'Div' or all(c.denominator == 1 for c in q.t.values())):
                return norm(q)
            f = self.divmod_fact(pa, pb)
            if o == 'FloorDiv' and f is not None:
                return norm(f[0])
            return Poly.atom(('app', o, (pa, pb), (0, 0), True, 'ew'))
        if o == 'Mod':
            f = self.divmod_fact(pa, pb)
            if f is not None:
                return norm(f[1])
            q = T.poly_div(pa, pb)
            if q is not None and all(c.denominator == 1 for c in q.t.values()):
                return 0
            return Poly.atom(('app', o, (pa, pb), (0, 0), True, 'ew'))
        raise Unknown(f'{o} on symbolic numbers')

    def divmod_fact(self, a, b):
        return self.eqsize.get(('divmod', a, b))

    def arr_binop(self, I, o, a, b):
        name = {'Add': 'lax.add', 'Sub': 'lax.sub', 'Mult': 'lax.mul', 'Div': 'lax.div', 'Pow': 'jnp.power',
                'MatMult': 'jnp.matmul', 'Mod': 'jnp.mod', 'FloorDiv': 'jnp.floor_divide'}.get(o)
        if name:
            return EXT[name](I, (a, b), {'#op': True})
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            from .m_np import logic2
            return logic2(I, o, a, b)
        raise Unknown(f'array {o}')

    def compare(self, I, op, a, b):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            r = self.identical(I, a, b)
            return r if r is None or isinstance(r, (Top, Phi)) else (r if o == 'Is' else not r)
        if o in ('In', 'NotIn'):
            r = self.contains(I, a, b)
            if isinstance(r, Top):
                return r
            return r if o == 'In' else I.lift(lambda x: not x, r)
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('comparison')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if o in ('Eq', 'NotEq') and (a is None or b is None or isinstance(a, (str,)) or isinstance(b, (str,))):
                return o == 'NotEq'
            from .m_np import compare_arr
            return compare_arr(I, o, a, b)
        if is_num(a) and is_num(b):
            s = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[o]
            if not isinstance(a, Poly) and not isinstance(b, Poly):
                return {'==': a == b, '!=': a != b}[s] if s in ('==', '!=') else \
                    {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[s]()
            if s == '>=':
                return self.poly_cmp(I, '<=', b, a)
            return self.poly_cmp(I, s, a, b)
        if o in ('Eq', 'NotEq'):
            r = self.equal(I, a, b)
            if isinstance(r, (Top,)):
                return r
            return r if o == 'Eq' else I.lift(lambda x: not x, r)
        if isinstance(a, ModelV) and a.kind == 'set' and isinstance(b, ModelV) and b.kind == 'set':
            x, y = set(a.data), set(b.data)
            return {'LtE': x <= y, 'GtE': x >= y, 'Lt': x < y, 'Gt': x > y}[o]
        if isinstance(a, FlagV) and isinstance(b, FlagV):
            x, y = a.val, b.val
            return {'LtE': x <= y, 'GtE': x >= y, 'Lt': x < y, 'Gt': x > y}[o]
        if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, int) for x in a + b):
            return {'LtE': a <= b, 'GtE': a >= b, 'Lt': a < b, 'Gt': a > b}[o]
        raise Unknown(f'comparison {o} of {type(a).__name__} and {type(b).__name__}')

    def identical(self, I, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('identity')
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.id == b.id
        if isinstance(a, Arr) != isinstance(b, Arr):
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.addr == b.addr
        if type(a) is not type(b):
            return False
        if isinstance(a, (ExtV, FuncV, ClassV, ModelV, FlagV, Obj, str, int)):
            return a == b
        if isinstance(a, tuple) and not a and not b:
            return True
        return a is b or Top('identity')

    def equal(self, I, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('equality')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                e = self.compare(I, ast.Eq(), x, y) if not isinstance(x, tuple) else self.equal(I, x, y)
                if e is False:
                    return False
                if e is True:
                    continue
                r = e if r is True else Top('tuple equality')
            return r
        if isinstance(a, (AbsList,)) or isinstance(b, AbsList):
            return Top('sequence equality')
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr == b.addr:
                return True
            x, y = I.deref(a), I.deref(b)
            if isinstance(x, ListObj) and isinstance(y, ListObj):
                return self.equal(I, tuple(I.rdeep(v) for v in x.items), tuple(I.rdeep(v) for v in y.items))
            if isinstance(x, DictObj) and isinstance(y, DictObj) and len(x.items) == 0 == len(y.items):
                return True
            return Top('object equality')
        if isinstance(a, FlagV) and isinstance(b, int):
            return a.val == b
        if isinstance(b, FlagV) and isinstance(a, int):
            return b.val == a
        if isinstance(a, Dt) or isinstance(b, Dt):
            from .m_np import to_dt
            x, y = to_dt(a), to_dt(b)
            if x is None or y is None:
                return False
            if x.key in ('p', 'weak') or y.key in ('p', 'weak'):
                if x.kind != y.kind:
                    return False
                return True if x == y else Top('dtype equality')
            return x == y
        if type(a) is not type(b):
            return False
        if isinstance(a, NT):
            return self.equal(I, a.items, b.items) if a.cls == b.cls else False
        if isinstance(a, ModelV) and a.kind == 'set' == b.kind:
            return set(a.data) == set(b.data)
        return a == b

    def contains(self, I, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('membership')
        if isinstance(b, FlagV):
            if isinstance(a, FlagV):
                return (b.val & a.val) == a.val
            T.raise_(I, 'TypeError', 'flag membership')
        if isinstance(b, str):
            return isinstance(a, str) and a in b
        if isinstance(b, Ref):
            o = I.deref(b)
            if isinstance(o, DictObj):
                return any(type(k) is type(a) and k == a for k, _ in o.items)
            if isinstance(o, InstObj):
                m = I.class_attr(o.cls, '__contains__')
                if m is not None:
                    return I.call(BoundM(b, m), (a,), {})
        if isinstance(b, SliceV) or b is None:
            T.raise_(I, 'TypeError', 'argument is not iterable')
        if isinstance(b, Arr):
            from .m_np import cv
            c = cv(I, b)
            if c is None or not isinstance(c, tuple):
                raise Unknown('membership in an array')
            b = c
        items = I.iterate(b)
        if isinstance(items, (Top, AbsList)):
            return Top('membership')
        unknown = False
        for x in items:
            x = I.rdeep(x)
            if isinstance(x, Phi):
                unknown = True
                continue
            e = self.compare(I, ast.Eq(), a, x) if not (isinstance(a, Arr) or isinstance(x, Arr)) else \
                (isinstance(a, Arr) and isinstance(x, Arr) and a.id == x.id)
            if e is True:
                return True
            if e is not False:
                unknown = True
        return Top('membership') if unknown else False

    # ------------------------------------------------------------------ attributes
    def getattr(self, I, v, name):
        if isinstance(v, Arr):
            from .m_np import arr_attr
            if I.owning and v.own:
                from . import own
                if name == 'flags':
                    return Obj('arrflags', {})
                r = arr_attr(I, v, name)
                return own.tag(I, r, v.own if name in own.VIEW_ATTRS else frozenset()) if isinstance(r, Arr) else r
            return arr_attr(I, v, name)
        if isinstance(v, ModelV):
            k = ('fa', v.id, name)
            if I.st.has(k):
                return I.resolve(I.st.get(k))
            if v.kind == 'partial':
                if name == 'func':
                    return v.data[0]
                if name == 'args':
                    return v.data[1]
                if name == 'keywords':
                    return I.new_dict(v.data[2])
                if name == '__name__':
                    T.raise_(I, 'AttributeError', 'partial has no __name__')
            if name in ('__name__', '__qualname__'):
                return f'<{v.kind}>'
            if name in ('__doc__', '__wrapped__', '__module__'):
                return None
            if v.kind == 'super':
                self_, cls = v.data
                for b in (cls.bases if cls is not None else ()):
                    if isinstance(b, ClassV):
                        a = I.class_attr(b, name)
                        if a is not None:
                            return I.bind(self_, b, a)
                return MethV(v, name)
            return MethV(v, name)
        if isinstance(v, FlagV):
            if name == 'value':
                return v.val
            if name == 'name':
                return 'flag'
        if isinstance(v, TreeDef):
            if name == 'num_leaves':
                from .m_jax import td_leaves
                return td_leaves(v.t)
            return MethV(v, name)
        if isinstance(v, Dt):
            if name == 'type':
                return v
            if name == 'kind':
                from .m_np import np_kind
                return np_kind(v)
            if name == 'itemsize':
                n = itemsize(v)
                return n if n is not None else Top('itemsize')
            if name in ('name', '__name__'):
                from .m_np import DTNAME
                return DTNAME.get(v) or '<str>'
            return MethV(v, name)
        if isinstance(v, SliceV) and name in ('start', 'stop', 'step'):
            return {'start': v.lo, 'stop': v.hi, 'step': v.step}[name]
        if isinstance(v, AtV):
            return MethV(v, name)
        if isinstance(v, Top):
            return Top(v.why)
        if isinstance(v, tuple) or isinstance(v, str):
            if isinstance(v, tuple) and name not in ('count', 'index', '__len__', '__getitem__', '__iter__'):
                T.raise_(I, 'AttributeError', f'tuple.{name}')
            return MethV(v, name)
        if v is None:
            T.raise_(I, 'AttributeError', f'NoneType.{name}')
        if is_num(v):
            if name in ('dtype', 'shape', 'ndim', 'size', 'real', 'imag', 'astype', 'conj', 'item', 'T', 'sum', 'max', 'min'):
                if isinstance(v, Poly):     # NumPy integer scalar
                    if name == 'shape':
                        return ()
                    if name == 'ndim':
                        return 0
                    if name == 'size':
                        return 1
                    if name == 'dtype':
                        return Dt('i', 'def')
                    return MethV(v, name)
                if name == 'real' and not isinstance(v, complex):
                    return v
                if name == 'imag' and not isinstance(v, complex):
                    return 0
                T.raise_(I, 'AttributeError', f'{type(v).__name__}.{name}')
            return MethV(v, name)
        if isinstance(v, AbsList):
            return MethV(v, name)
        if isinstance(v, MethV):
            if name in ('__name__', '__qualname__'):
                return v.name
            return Top('method attribute')
        raise Unknown(f'attribute {name} of {type(v).__name__}')

    def obj_attr(self, I, v, name):
        k = ('ea', v.id, name)
        if I.st.has(k):
            return I.resolve(I.st.get(k))
        if v.get('#closed'):
            T.raise_(I, 'AttributeError', f'{v.kind}.{name}')
        return MethV(v, name)

    def getitem(self, I, v, i):
        if isinstance(v, Top):
            return Top(v.why)
        if isinstance(i, Top):
            if isinstance(v, Arr):
                raise Unknown('unknown index')
            return Top('unknown index')
        if isinstance(v, Arr):
            from .m_np import arr_getitem
            r = arr_getitem(I, v, i)
            if I.owning:
                from . import own
                r = own.indexed(I, v, i, r)
            return r
        if isinstance(v, NT):
            v = v.items
        if isinstance(v, Ref):
            o = I.deref(v)
            if isinstance(o, DictObj):
                for k, x in o.items:
                    if type(k) is type(i) and k == i or (k == i):
                        return I.rdeep(x)
                if o.factory is not None:
                    d = I.call(o.factory, (), {})
                    from .interp import dict_update
                    I.st.set(v.addr, DictObj(dict_update(o.items, [(i, d)]), o.own, o.factory))
                    return d
                if any(isinstance(k, (Top, Phi)) for k, _ in o.items) or isinstance(i, Poly):
                    return Top('dictionary lookup')
                T.raise_(I, 'KeyError', repr(i))
            if isinstance(o, ListObj):
                r = self.seq_item(I, o.items, i)
                return I.new_list(r) if isinstance(i, SliceV) else I.rdeep(r)
            if isinstance(o, InstObj):
                m = I.class_attr(o.cls, '__getitem__')
                if m is not None:
                    return I.call(BoundM(v, m), (i,), {})
                it = dict(o.attrs).get('#list')
                if it is not None:
                    return self.seq_item(I, it, i)
        if isinstance(v, (tuple, str)):
            return self.seq_item(I, v, i)
        if isinstance(v, AbsList):
            if isinstance(i, SliceV):
                raise Unknown('slice of a sequence of unknown length')
            return v.elem
        if isinstance(v, ModelV) and v.kind == 'range':
            return self.seq_item(I, v.data, i)
        if isinstance(v, (ClassV, ExtV)):
            return v        # typing subscripts
        if isinstance(v, AtV) or isinstance(v, MethV) and v.name == 'at':
            return AtV(v.arr if isinstance(v, AtV) else v.obj, i)
        if v is None or is_num(v):
            T.raise_(I, 'TypeError', f'{type(v).__name__} is not subscriptable')
        raise Unknown(f'subscript of {type(v).__name__}')

    def seq_item(self, I, s, i):
        if isinstance(i, SliceV):
            idx = []
            for x in (i.lo, i.hi, i.step):
                x = norm(x) if isinstance(x, Poly) else x
                if x is not None and not isinstance(x, int):
                    raise Unknown('slice of a sequence with symbolic bounds')
                idx.append(x)
            return s[slice(*idx)]
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, FlagV):
            i = i.val
        if isinstance(i, Arr):
            from .m_np import cv
            i = cv(I, i)
        if not isinstance(i, int):
            if isinstance(i, (Poly,)):
                return Top('symbolic index')
            T.raise_(I, 'TypeError', 'sequence index')
        if not -len(s) <= i < len(s):
            T.raise_(I, 'IndexError', f'index {i} of a sequence of length {len(s)}')
        return s[i]

    def arr_truth(self, I, v):
        from .m_np import arr_truth
        return arr_truth(I, v)

    def arr_iter(self, I, v):
        from .m_np import arr_iter
        return arr_iter(I, v)

    def arr_setitem(self, I, obj, idx, v):
        from .m_np import arr_setitem
        return arr_setitem(I, obj, idx, v)

    # ------------------------------------------------------------------ context managers
    def ctx_enter(self, I, m):
        if isinstance(m, ModelV) and m.kind == 'cte':
            I.compile_time += 1
        if isinstance(m, ModelV) and m.kind == 'ctx':
            d = m.data
            if d[0] == 'redirect':
                from .m_io import stream, SYS
                I.st.set(('ctxsave', m.id), stream(I, d[2]))
                I.st.set(('ea', SYS, d[2]), d[1])
                return d[1]
            if d[0] == 'null' and len(d) > 2:
                return d[2]
            if d[0] == 'warnings':
                from .m_py import WF
                old = I.rdeep(I.st.get(WF)) if I.st.has(WF) else None
                I.st.set(('ctxsave', m.id), old)
                I.st.set(WF, I.new_list(I.deref(old).items if isinstance(old, Ref) else ('initial',)))
        if isinstance(m, Obj) and m.kind == 'StringIO':
            return m
        return m

    def ctx_exit(self, I, m, exc=None):
        if isinstance(m, ModelV) and m.kind == 'cte':
            I.compile_time -= 1
        if isinstance(m, ModelV) and m.kind == 'ctx':
            d = m.data
            if d[0] == 'redirect':
                from .m_io import SYS
                I.st.set(('ea', SYS, d[2]), I.st.get(('ctxsave', m.id)))
            if d[0] == 'warnings':
                from .m_py import WF
                I.st.set(WF, I.st.get(('ctxsave', m.id)))
            if d[0] == 'suppress' and exc is not None:
                n = I.exc_name(exc.exc)
                for t in d[1]:
                    t = t.name if isinstance(t, ExtV) else getattr(t, 'qual', '?')
                    if t in ('builtins.Exception', 'builtins.BaseException') or t == n or n and t in I.exc_parents(n):
                        return True
        return None

    # ------------------------------------------------------------------ calls
    def call(self, I, f, args, kwargs):
        if not I.owning:
            return self.call0(I, f, args, kwargs)
        from . import own
        own.before(I, f, args, kwargs)
        return own.after(I, f, args, kwargs, self.call0(I, f, args, kwargs))

    def call0(self, I, f, args, kwargs):
        if isinstance(f, Top):
            return Top(f.why)
        if I.fault is not None and I.callstack and (isinstance(f, Obj) or isinstance(f, ExtV) and f.name.startswith(FAULTY)):
            I.fault(f)
        try:
            if isinstance(f, ExtV):
                h = I.ext_hooks.get(f.name)
                if h is not None:
                    r = h(I, args, kwargs)
                    if r is not NotImplemented:
                        return r
                h = EXT.get(f.name)
                if h is None:
                    c = f.name
                    if c in EXC_PARENTS or c.endswith(('Error', 'Exception', 'Warning')):
                        return ModelV('excinst', (c, args))
                    if c.startswith('lax.') and c.endswith('.bind') or c.startswith('lax.') and c[4:] in OPAQUE_LAX:
                        from .m_jax import lax_call
                        return self.lifted(I, lambda a, k: lax_call(I, c, a, k), args, kwargs)
                    if f.name.startswith('logging.') or f.name.startswith('warnings.'):
                        I.event('log', name=f.name, args=args)
                        return None
                    if c.startswith('lax.') and c.endswith('_p.get_bind_params'):
                        return (I.new_list(()), args[0])
                    I.unmodelled.setdefault(c, I.where())
                    return I.top(f'call of {c} is not modelled')
                if f.name in NOLIFT:
                    return h(I, args, kwargs)
                if f.name.startswith(('jnp.', 'lax.', 'jax.')):
                    return self.lifted(I, lambda a, k: self.restage(I, h(I, a, k)), args, kwargs)
                return self.lifted(I, lambda a, k: h(I, a, k), args, kwargs)
            if isinstance(f, ModelV):
                h = KIND.get(f.kind)
                if h is None:
                    return I.top(f'call of {f.kind}')
                return h(I, f, args, kwargs)
            if isinstance(f, MethV):
                return self.method(I, f, args, kwargs)
            if isinstance(f, Obj):
                m = f.get('#call')
                if m is not None:
                    return m(I, args, kwargs) if callable(m) else I.call(m, args, kwargs)
                return I.top(f'call of {f.kind}')
            if isinstance(f, Dt):
                if len(args) == 1 and is_num(args[0]):
                    return args[0]
                return EXT['jnp.asarray'](I, args, {'dtype': f})
            if f is None or is_num(f) or isinstance(f, (tuple, str, Arr)):
                T.raise_(I, 'TypeError', f'{type(f).__name__} is not callable')
            if isinstance(f, TreeDef):
                return I.top('call of treedef')
            return I.top(f'call of {type(f).__name__}')
        except Unknown as e:
            return I.top(f'{e} in {f!r}'[:160])

    def restage(self, I, r):
        """Results of jax functions are jax arrays: traced ones unless evaluated at compile time."""
        if isinstance(r, Arr) and r.stage in ('np', 'py'):
            return r.but(stage='ct' if I.compile_time or not self.jitted else 'jx')
        if isinstance(r, tuple) and any(isinstance(x, Arr) for x in r):
            return tuple(self.restage(I, x) for x in r)
        return r

    def lifted(self, I, fn, args, kwargs):
        ks = tuple(kwargs)

        def run(a, kv):
            try:
                return fn(a, dict(zip(ks, kv)))
            except Unknown as e:
                return I.top(str(e)[:160])
        return I.lift(run, args, tuple(kwargs[k] for k in ks))

    def call_star(self, I, f, args, kwargs):
        if isinstance(args, AbsList) and isinstance(f, ExtV) and f.name in ('zip', 'builtins.zip'):
            raise Unknown('zip over a sequence of unknown length')
        return I.top('call with an unknown number of arguments')

    def method(self, I, f, args, kwargs):
        o = f.obj
        if isinstance(o, ModelV) and o.kind == 'set':
            o = I.resolve(o)
            if isinstance(o, (Phi, Top)):
                return I.lift(lambda x: self.method(I, MethV(x, f.name), args, kwargs), o, deep=False) if isinstance(o, Phi) else Top('set')
        tag = tag_of(I, o)
        h = METH.get((tag, f.name))
        if h is None and tag == 'Obj':
            h = METH.get((o.kind, f.name))
        if h is None and tag in ('inst', 'exc'):
            return I.top(f'method {f.name} of an instance')
        if h is None:
            if tag == 'arr':
                n = f'jnp.{f.name}' if o.stage in ('jx', 'ct') else f'np.{f.name}'
                if n in EXT:
                    return self.lifted(I, lambda a, k: EXT[n](I, a, k), (o,) + args, kwargs)
            if tag in ('ext', 'Obj', 'phi'):
                return I.top(f'method {f.name} of {o!r}'[:100])
            I.unmodelled.setdefault(f'{tag}.{f.name}', I.where())
            return I.top(f'method {tag}.{f.name} is not modelled')
        if tag in ('arr', 'at', 'treedef'):
            return self.lifted(I, lambda a, k: h(I, o, a, k), args, kwargs)
        return h(I, o, args, kwargs)


def tag_of(I, o):
    if isinstance(o, Arr):
        return 'arr'
    if isinstance(o, AtV):
        return 'at'
    if isinstance(o, tuple):
        return 'tuple'
    if isinstance(o, NT):
        return 'nt'
    if isinstance(o, str):
        return 'str'
    if isinstance(o, Ref):
        x = I.deref(o)
        if isinstance(x, ListObj):
            return 'list'
        if isinstance(x, DictObj):
            return 'dict'
        if isinstance(x, InstObj):
            return 'instlist' if dict(x.attrs).get('#list') is not None else 'inst'
        return 'phi'
    if isinstance(o, TreeDef):
        return 'treedef'
    if isinstance(o, ModelV):
        return o.kind
    if isinstance(o, Obj):
        return 'Obj'
    if isinstance(o, ExtV):
        return 'ext'
    if isinstance(o, ClassV):
        return 'class'
    if isinstance(o, Dt):
        return 'dtype'
    if is_num(o):
        return 'num'
    return type(o).__name__


def itemsize(d):
    """Bytes per entry; None for symbolic precisions."""
    if d.kind == 'b':
        return 1
    n = {'8': 1, 'u8': 1, '16': 2, 'b16': 2, 'u16': 2, '32': 4, 'int32': 4, 'u32': 4, '64': 8, 'u64': 8}.get(d.key)
    return n if n is None or d.kind != 'c' else 2 * n


def is_size_atom(a):
    return a[0] == 'n' and not isinstance(a[1], tuple)


def canon_sign(d):
    e = -d
    return min((d, e), key=lambda p: str(p))


def term_lb(t):
    return 1 if t[0] in ('uniq',) else 0


CONSTS = {}
OPAQUE_LAX = set()
