"""Abstract traced programs: variables, equations, closed programs, and the model of tracing a function."""
from .poly import Poly
from .values import *
from .interp import AbsRaise, Unknown
from . import tensor as T
from .models import EXT, ext
from .m_jax import flatten, unflatten


PROGRAM = 'the traced program'


def call_obj(kind, fn, **attrs):
    """Callable library object whose behaviour is the Python function fn(I, args, kwargs)."""
    d = {'#call': fn, '__name__': attrs.get('name', kind)}
    d.update(attrs)
    return Obj(kind, d)


def aval_of(x):
    if isinstance(x, Arr) and x.rank is not None:
        return Obj('ShapedArray', {'shape': x.shape(), 'dtype': x.dt, 'weak_type': x.dt.key == 'weak', 'ndim': x.rank, 'size': norm(T.size_of(x))})
    return Obj('ShapedArray', {'shape': (), 'dtype': Dt('f', 'p'), 'weak_type': False, 'ndim': 0, 'size': 1})


class Builder:
    """Builds abstract programs in the current store of an interpreter."""

    def __init__(self, I):
        self.I = I

    def var(self, like=None, drop=False):
        return Obj('DropVar' if drop else 'Var', {'aval': aval_of(like), 'suffix': '', 'count': 0})

    def lit(self, val, dt=Dt('f', 'p')):
        a = aval_of(None)
        return Obj('Literal', {'val': val, 'aval': Obj('ShapedArray', {'shape': (), 'dtype': dt, 'weak_type': True, 'ndim': 0, 'size': 1})})

    def prim(self, name, bind, multiple=False, bind_params=None):
        """bind(I, args, kwargs); bind_params(I, params) -> (subfuns, params)"""
        def gbp(I, args, kwargs):
            if bind_params is not None:
                return bind_params(I, args[0])
            return (I.new_list(()), args[0])
        return Obj('Primitive', {'name': name, 'multiple_results': multiple, '__name__': name,
                                 'bind': call_obj('bind', bind, name=name), 'get_bind_params': call_obj('gbp', gbp),
                                 'call_primitive': False, 'map_primitive': False})

    def eqn(self, prim, ins, outs, params=()):
        I = self.I
        return Obj('JaxprEqn', {'primitive': prim, 'invars': I.new_list(tuple(ins), PROGRAM), 'outvars': I.new_list(tuple(outs), PROGRAM),
                                'params': I.new_dict(tuple(dict(params).items()), PROGRAM), 'source_info': Obj('SourceInfo', {}), 'effects': ModelV('set', ()),
                                'ctx': Obj('ctx', {})})

    def jaxpr(self, ins, consts, outs, eqns):
        I = self.I
        return Obj('Jaxpr', {'invars': I.new_list(tuple(ins), PROGRAM), 'constvars': I.new_list(tuple(consts), PROGRAM), 'outvars': I.new_list(tuple(outs), PROGRAM),
                             'eqns': I.new_list(tuple(eqns), PROGRAM), 'effects': ModelV('set', ()), 'debug_info': None})

    def closed(self, jaxpr, consts=()):
        I = self.I
        cs = I.new_list(tuple(consts), PROGRAM)
        return Obj('ClosedJaxpr', {'jaxpr': jaxpr, 'consts': cs, 'literals': cs, 'eqns': jaxpr.get('eqns'),
                                   'in_avals': I.new_list(tuple(v.get('aval') for v in I.iterate(jaxpr.get('invars'))), PROGRAM),
                                   'out_avals': I.new_list(tuple(v.get('aval') for v in I.iterate(jaxpr.get('outvars'))), PROGRAM),
                                   'effects': ModelV('set', ())})


class Trace:
    """Records the operations applied to the traced arguments of a function."""

    def __init__(self, I):
        self.I, self.b = I, Builder(I)
        self.known, self.eqns, self.consts, self.keep, self.failed = {}, [], [], [], None

    def enter(self, x):
        v = self.b.var(x)
        self.known[id(x)] = v
        self.keep.append(x)
        return v

    def atom(self, x):
        if isinstance(x, Arr):
            v = self.known.get(id(x))
            if v is None:
                v = self.enter(x)
                self.consts.append((v, x))
            return v
        if is_num(x) and not isinstance(x, Poly):
            return self.b.lit(x)
        raise Unknown('operand of a traced operation')

    def involved(self, *xs):
        return any(id(x) in self.known for x in xs)

    def emit(self, name, ins, out, params):
        v = self.enter(out)
        self.eqns.append(self.b.eqn(ExtV(f'lax.{name}_p'), ins, [v], params))

    def mul(self, a, b, out):
        if isinstance(a, Arr) and isinstance(b, Arr) and a.rank != b.rank:
            lo, hi = (a, b) if a.rank < b.rank else (b, a)
            d = hi.rank - lo.rank
            shape = (1,) * d + tuple(lo.shape())
            new = lo
            for _ in range(d):
                new = T.expand(self.I, new, 0)
            new = new.but(stage='jx')
            self.emit('broadcast_in_dim', [self.atom(lo)], new, {'shape': shape, 'broadcast_dimensions': tuple(range(d, hi.rank)), 'sharding': None})
            a, b = (new, b) if lo is a else (a, new)
        self.emit('mul', [self.atom(a), self.atom(b)], out, {})

    def sum(self, a, axes, out):
        self.emit('reduce_sum', [self.atom(a)], out, {'axes': axes})


def trace(I, fn, args, kwargs):
    """(closed program, output leaves, output tree)"""
    leaves, tree = flatten(I, (tuple(args), I.new_dict(tuple(kwargs.items()))))
    if any(not isinstance(x, Arr) for x in leaves):
        raise Unknown('tracing with arguments other than arrays')
    fresh = [x.but(stage='jx', id=None) for x in leaves]
    tr = Trace(I)
    ins = [tr.enter(x) for x in fresh]
    ta, tk = unflatten(I, tree, fresh)
    saved, I.trace = getattr(I, 'trace', None), tr
    try:
        r = I.call(fn, tuple(ta), dict(I.deref(tk).items))
    finally:
        I.trace = saved
    if tr.failed:
        raise Unknown(tr.failed)
    outs, otree = flatten(I, r)
    ovars = []
    for o in outs:
        if not isinstance(o, Arr) or id(o) not in tr.known:
            raise Unknown('traced operation without a model of its equation')
        ovars.append(tr.known[id(o)])
    j = tr.b.jaxpr(ins, [v for v, _ in tr.consts], ovars, tr.eqns)
    return tr.b.closed(j, [x for _, x in tr.consts]), outs, otree


@ext('jax.make_jaxpr', lift=False)
def x_make_jaxpr(I, a, k):
    if set(k) - {'return_shape'}:
        raise Unknown('make_jaxpr with static arguments')
    fn, rs = a[0], k.get('return_shape', False)

    def run(I, args, kwargs):
        try:
            c, outs, tree = trace(I, fn, args, kwargs)
        except Unknown as e:
            return I.top(f'tracing: {e}')
        if rs:
            return (c, unflatten(I, tree, [aval_of(o) for o in outs]))
        return c
    return call_obj('make_jaxpr', run)


@ext('jax.eval_shape', lift=False)
def x_eval_shape(I, a, k):
    saved, I.trace = getattr(I, 'trace', None), None
    try:
        r = I.call(a[0], tuple(a[1:]), dict(k))
    finally:
        I.trace = saved
    if isinstance(r, Top):
        return r
    outs, tree = flatten(I, r)
    return unflatten(I, tree, [aval_of(o) for o in outs])


def after(I, op, a, b, out):
    """Called by the array models after a multiplication or sum while a function is being traced."""
    tr = I.trace
    if not isinstance(out, Arr) or out.rank is None:
        tr.failed = 'unknown result of a traced operation'
    elif op == 'mul' and tr.involved(a, b):
        tr.mul(a, b, out)
    elif op == 'sum' and tr.involved(a):
        tr.sum(a, b, out)
