"""C01/C02: what every rule declares, against facts derived from the library model of the operation itself."""
from .world import *
from .values import *
from . import oracle as O
from . import tensor as T
from .interp import AbsRaise, Unknown, Budget

WRAP = 'folx.wrapper.wrap_forward_laplacian'
NOLAP = ('folx.wrapper.warp_without_fwd_laplacian', 'folx.wrapper.wrap_without_fwd_laplacian')
LIFT = 'folx.wrapper.wrap_elementwise'


class Recorder:
    """Records every declaration (call of a wrapping function) while the package is loaded or a rule runs."""

    def __init__(self):
        self.recs = []          # (kind, bound arguments, resulting rule)
        self.loaded = 0         # number of records when the package had been loaded

    def hooks(self):
        h = {WRAP: self.make('wrap'), LIFT: self.make('lift')}
        for n in NOLAP:
            h[n] = self.make('nolap')
        return h

    def make(self, kind):
        def hook(I, f, args, kwargs):
            saved = I.hooks.pop(f.qual)
            try:
                vals = I.bind_args(f, args, kwargs)
                r = I.call_func(f, args, kwargs)
            finally:
                I.hooks[f.qual] = saved
            self.recs.append((kind, vals, r))
            return r
        return hook

    def find(self, rule):
        for k, v, r in self.recs:
            if type(r) is type(rule) and getattr(r, '_key', None) and r._key() == rule._key():
                return k, v
        return None


def flag_names(W, flags):
    """Names of the declared flags (bit tests against the repository's own flag type)."""
    cls = W.attr('folx.api', 'FunctionFlags')
    out = {}
    for n in ('LINEAR_IN_FIRST', 'LINEAR_IN_ONE', 'LINEAR', 'REDUCTION', 'MULTIPLICATION', 'DOT_PRODUCT', 'INDEXING', 'SCATTER', 'SUMMATION'):
        try:
            c = W.I.getattr(cls, n)
        except (AbsRaise, Unknown):
            continue
        a, b = as_int(W, flags), as_int(W, c)
        if a is not None and b is not None:
            out[n] = (a & b) == b
    return out


def as_int(W, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    for a in ('val', 'value', '_value', 'v'):
        x = getattr(v, a, None)
        if isinstance(x, int):
            return x
    d = getattr(v, 'data', None)
    if isinstance(d, tuple):
        for x in d:
            if isinstance(x, int) and not isinstance(x, bool):
                return x
    return None


# ------------------------------------------------------------------ facts about JAX operations (frozen tables, one reason each)
# derivative identically zero wherever it exists
ZERO_DERIVATIVE = {'sign', 'stop_gradient', 'eq', 'lt', 'le', 'gt', 'ge', 'ne', 'xor', 'not', 'and', 'or', 'bitwise_xor', 'bitwise_not',
                   'bitwise_and', 'bitwise_or', 'is_finite', 'isfinite', 'isnan', 'isinf', 'floor', 'ceil', 'round', 'argmax', 'argmin', 'rint', 'trunc',
                   'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_not', 'logical_and', 'logical_or', 'logical_xor',
                   'floor_divide', 'shift_left', 'shift_right_logical', 'shift_right_arithmetic', 'population_count', 'clz', 'iota', 'eq_to', 'le_to', 'lt_to',
                   'signbit', 'nextafter_const', 'zeros_like', 'full_like', 'ones_like'}
# output entry depends on the operand entries at the same position only
ELEMENTWISE = {'neg', 'negative', 'add', 'sub', 'subtract', 'mul', 'multiply', 'div', 'divide', 'true_divide', 'pow', 'power', 'integer_pow', 'sqrt', 'rsqrt', 'cbrt',
               'log', 'log1p', 'exp', 'exp2', 'expm1', 'tanh', 'logistic', 'acos', 'asin', 'atan', 'atan2', 'arccos', 'arcsin', 'arctan', 'arctan2', 'cos', 'sin',
               'tan', 'abs', 'max', 'min', 'maximum', 'minimum', 'logaddexp', 'sigmoid', 'softplus', 'silu', 'swish', 'sinh', 'cosh', 'asinh', 'acosh', 'atanh', 'erf',
               'erfc', 'erf_inv', 'lgamma', 'digamma', 'square', 'conj', 'real', 'imag', 'select_n', 'complex', 'clamp', 'nextafter', 'rem', 'complex_abs', 'sign'}
NON_ELEMENTWISE = {'reduce_sum', 'reduce_max', 'reduce_min', 'reduce_prod', 'cumsum', 'cumprod', 'cummax', 'cummin', 'cumlogsumexp', 'dot_general', 'sort', 'concatenate',
                   'reshape', 'transpose', 'rev', 'slice', 'dynamic_slice', 'gather', 'scatter', 'scatter_add', 'scatter_max', 'scatter_min', 'squeeze',
                   'broadcast_in_dim', 'slogdet', 'inv', 'cholesky'}
NOT_REARRANGING = ELEMENTWISE - {'select_n'} | {'reduce_sum', 'reduce_max', 'reduce_min', 'reduce_prod', 'cumsum', 'cumprod', 'dot_general', 'scatter_add', 'slogdet', 'inv',
                                               'cumlogsumexp', 'cummax', 'cummin'}
COMPONENTWISE = {'conj', 'real', 'imag', 'conjugate', 'neg', 'negative'}     # real-linear, acting on each number by itself
SUMS = {'reduce_sum', 'sum'}
REDUCES = {'reduce_sum', 'reduce_max', 'reduce_min', 'reduce_prod', 'sum', 'max', 'min', 'prod', 'dot_last', 'reduce_and', 'reduce_or', 'argmax', 'argmin'}


def op_name(f):
    """Name of the library operation a declared function is; None for functions of the repository."""
    while isinstance(f, ModelV) and f.kind == 'partial':
        f = f.data[0]
    if isinstance(f, MethV) and f.name == 'bind':
        f = f.obj
    if isinstance(f, ExtV):
        n = f.name
        if n.endswith('.bind'):
            n = n[:-5]
        n = n.split('.')[-1]
        return n[:-2] if n.endswith('_p') else n
    return None


def has_zero_derivative(W, fn):
    """Is the derivative of this operation identically zero?  True / False / None (unknown)."""
    n = op_name(fn)
    if n is not None:
        return True if n in ZERO_DERIVATIVE else None if n not in ELEMENTWISE | NON_ELEMENTWISE else False
    for ar in (1, 2):
        try:
            ops = [W.lapl(i, ['a', 'b'], False) for i in range(ar)]
            refs = O.mkref(W.I, lambda *a: W.I.call(fn, tuple(a), {}), ops)
        except (AbsRaise, Unknown, Budget):
            continue
        r = True
        for cond, res, t in refs:
            for x in res:
                if x is None:
                    return None
                for a in x[1:]:
                    for c in a.blocks.values():
                        if not isinstance(c, Poly):
                            return None
                        if not c.is_zero():
                            r = False
        return r
    return None


def check_declaration(W, vals, args, params, out):
    """Obligations of one declared rule at one operand mix."""
    I = W.I
    fn, in_axes, flags = vals['fn'], vals['in_axes'], flag_names(W, vals['flags'])
    name = op_name(fn)
    label = name or getattr(fn, 'qual', repr(fn)).split('.')[-1]
    call = lambda *a: I.call(fn, tuple(a), dict(params))

    def plain(o):
        return o.items[0] if isinstance(o, NT) else o

    def diffable(o):
        x = plain(o)
        return isinstance(x, Arr) and x.dt.kind in 'fc'
    static = vals.get('index_static_args')
    st = set()
    if isinstance(static, (tuple, list)):
        st = {i for i in static if isinstance(i, int)}
    elif isinstance(static, SliceV):
        d = (static.lo, static.hi, static.step)
        if not all(x is None or isinstance(x, int) for x in d):
            static = '?'
        else:
            st = set(range(len(args))[slice(*d)])
    elif static is not None:
        static = '?'
    if flags.get('INDEXING'):
        out.n += 1
        wrong = [i for i in st if i < len(args) and diffable(args[i])]
        if wrong:
            out.add('bad', 'declared', f'{label}: operand {wrong[0]} is declared an index, but it is data')
        else:
            out.ok += 1
        if static is not None and static != '?':
            # operands that are not declared indices are overwritten by the padding value when the index pattern is re-arranged
            out.n += 1
            lost = [i for i, o in enumerate(args) if i not in st and not diffable(o)]
            if lost:
                out.add('bad', 'declared', f'{label}: operand {lost[0]} selects entries, but is not declared an index')
            else:
                out.ok += 1
        if name in NOT_REARRANGING:
            out.add('bad', 'declared', f'{label} is declared a pure selection of operand entries, which it is not')

    def second_order(which):
        ops = []
        for i, o in enumerate(args):
            if i in which and i not in st and diffable(o):
                spec = [(lab[1], n) if lab is not None else 1 for ax in plain(o).axes for lab, n in ax[:1]]
                x = plain(o)
                j = dense_like(W, i, x)
                ops.append(j)
            else:
                ops.append(plain(o))
        refs = O.mkref(I, call, ops)
        res = True
        for cond, rs, t in refs:
            for x in rs:
                if x is None:
                    return None
                for c in x[3].blocks.values():
                    if not isinstance(c, Poly):
                        return None
                    if not c.is_zero():
                        res = False
        return res
    D = [i for i, o in enumerate(args) if diffable(o) and i not in st]
    todo = []
    if flags.get('LINEAR'):
        todo.append(('linear in all operands jointly', set(D)))
    elif flags.get('LINEAR_IN_ONE'):
        todo += [(f'linear in operand {i}', {i}) for i in D]
    elif flags.get('LINEAR_IN_FIRST'):
        todo += [('linear in operand 0', {0})] if 0 in D else []
    for what, which in todo:
        out.n += 1
        try:
            r = second_order(which)
        except (AbsRaise, Unknown, Budget) as e:
            r = None
        if r is None:
            out.add('und', 'declared', f'{label}: {what}')
        elif r:
            out.ok += 1
        else:
            out.add('bad', 'declared', f'{label} is declared {what}, but its second derivative there is not zero')
    if flags.get('MULTIPLICATION') and not flags.get('DOT_PRODUCT') and len(D) == 2:
        out.n += 1
        try:
            a, b = [plain(o) for o in args][:2]
            y = call(a, b)
            z = I.call(ExtV('lax.mul'), (a, b), {})
            s, m = O.diff(I, I.rdeep(y), I.rdeep(z))
        except (AbsRaise, Unknown, Budget):
            s, m = 'und', ''
        if s == 'ok':
            out.ok += 1
        else:
            out.add(s, 'declared', f'{label} is declared a product of its operands: {m}')
    if isinstance(in_axes, tuple) and in_axes == () and name is not None:
        out.n += 1
        if name in NON_ELEMENTWISE:
            out.add('bad', 'declared', f'{label} is declared elementwise, which it is not')
        elif name in ELEMENTWISE | ZERO_DERIVATIVE:
            out.ok += 1
        else:
            out.add('und', 'declared', f'{label}: elementwise?')
    for fl, ok in (('SUMMATION', SUMS), ('REDUCTION', REDUCES)):
        if flags.get(fl) and name in ELEMENTWISE | NON_ELEMENTWISE:
            out.n += 1
            if name in ok:
                out.ok += 1
            else:
                out.add('bad', 'declared', f'{label} is declared a {fl.lower()}, which it is not')


def dense_like(W, i, x):
    """A densely differentiated operand with the value x."""
    cls, jc = W.attr('folx.api', 'FwdLaplArray'), W.attr('folx.api', 'FwdJacobian')
    labs = frozenset(l for a in x.axes for l, _ in a if l is not None)
    W.m.deps[f'J{i}'] = W.m.deps[f'L{i}'] = labs
    W.m.jnames.add(f'J{i}')
    W.m.lb[('n', 'N')] = 2
    real = x.dt.kind != 'c'
    key = (0,) * len(x.axes)
    data = Arr(((((('J',)), topoly(W.I.N)),),) + x.axes, {(0,) + key: Poly.atom(('v', f'J{i}', real))}, x.dt, 'jx')
    return NT(cls, (x, NT(jc, (data, None)), Arr(x.axes, {key: Poly.atom(('v', f'L{i}', real))}, x.dt, 'jx')))


def registry(W):
    """All (operation, rule) pairs: the module-level mapping whose keys are JAX primitives, wherever it lives."""
    I = W.I
    best = []
    for mod in W.project.modules:
        if mod not in I.modframes:
            continue
        for name, v in I.frame_items(mod):
            if isinstance(v, Ref):
                o = I.deref(v)
                if isinstance(o, DictObj):
                    it = [(k, x) for k, x in o.items if isinstance(k, (ExtV, str))]
                    if sum(isinstance(k, ExtV) and k.name.endswith('_p') for k, _ in it) > max(3, len(best)):
                        best = it
    return best


def check_registry(W, rec, out02, out01):
    """Every entry: derivative-free entries belong to derivative-free operations; the wrapped function is the operation of the key."""
    for key, rule in registry(W):
        kn = key if isinstance(key, str) else key.name.split('.')[-1].removesuffix('_p')
        r = rec.find(rule)
        if r is None:
            continue
        kind, vals = r
        fn = vals.get('fn')
        fnname = op_name(fn) or getattr(fn, 'qual', '?').split('.')[-1]
        if kind == 'nolap':
            out02.n += 1
            z = kn in ZERO_DERIVATIVE and (op_name(fn) is None or op_name(fn) in ZERO_DERIVATIVE)
            if z:
                out02.ok += 1
            elif kn in ELEMENTWISE | NON_ELEMENTWISE or has_zero_derivative(W, fn) is False:
                out02.add('bad', f'registry:{kn}', f'{kn} is registered as derivative-free (via {fnname}), but its derivative is not zero')
            else:
                out02.add('und', f'registry:{kn}', f'{kn}: derivative of {fnname} unknown')
        elif kind == 'lift':
            out01.n += 1
            if kn in COMPONENTWISE and (op_name(fn) is None or op_name(fn) in COMPONENTWISE):
                out01.ok += 1
            elif kn in ELEMENTWISE | NON_ELEMENTWISE:
                out01.add('bad', f'registry:{kn}', f'{kn} is registered as a component-wise lifting of {fnname}, but is not real-linear')
            else:
                out01.add('und', f'registry:{kn}', f'{kn}: lifting of {fnname}')
