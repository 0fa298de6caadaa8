"""A fresh abstract state of the analysed package, plus builders for abstract operands."""
import sys

from .interp import Interp, AbsRaise, Unknown, Budget
from .poly import Poly, ONE, ZERO
from .values import *
from . import models, tensor as T
from . import m_py, m_np, m_jax, jaxprs, m_io     # noqa: F401  (fill the model registries)

sys.setrecursionlimit(12000)

F = Dt('f', 'p')
C = Dt('c', 'p')
I32 = Dt('i', '32')


class World:
    def __init__(self, project, load=True, hooks=None):
        self.project = project
        self.I = I = Interp(project, models.Models())
        I.models.I = I
        self.m = I.models
        if hooks:
            I.hooks.update(hooks)
        if load:
            for name in ('folx',):
                I.load_module(name)
        if World.on_start is not None:
            World.on_start(self)

    on_start = None

    def attr(self, mod, name):
        v = self.I.module_attr(mod, name)
        if v is None:
            raise KeyError(f'{mod}.{name}')
        return v

    def n(self, name, lb=2):
        a = ('n', name)
        self.m.lb[a] = lb
        return Poly.atom(a)

    # ---- operands
    def axes(self, spec):
        """spec: sequence of axis names (str) / (name, size) / 1."""
        out = []
        for s in spec:
            if s == 1:
                out.append(((None, ONE),))
            elif isinstance(s, tuple):
                out.append(((('A', s[0]), topoly(s[1])),))
            else:
                out.append(((('A', s), self.n(s)),))
        return tuple(out)

    def plain(self, name, spec, dt=F, stage='jx'):
        """Array without derivatives."""
        ax = self.axes(spec)
        labs = frozenset(l for a in ax for l, _ in a if l is not None)
        self.m.deps[name] = labs
        return Arr(ax, {(0,) * len(ax): Poly.atom(('v', name, dt.kind != 'c'))}, dt, stage, own=self.own(name))

    def own(self, name):
        return frozenset([name]) if self.I.owning else frozenset()

    def np_plain(self, name, spec, dt=I32):
        return self.plain(name, spec, dt, 'np')

    def jac(self, name, spec, sparse, mask=None, kname=None, dt=F, k=None, n=None):
        cls = self.attr('folx.api', 'FwdJacobian')
        ax = self.axes(spec)
        labs = frozenset(l for a in ax for l, _ in a if l is not None)
        self.m.deps[name] = labs
        self.m.jnames.add(name)
        real = dt.kind != 'c'
        if sparse:
            mask = mask or 'm' + name
            k = k if k is not None else self.n(kname or 'k' + name, 1)
            t = ('M', mask)
            self.m.deps[t] = labs
            kax = ((('K', mask), topoly(k)),)
            data = Arr((kax,) + ax, {(0,) * (len(ax) + 1): Poly.atom(('S', name, t, real))}, dt, 'jx', own=self.own(name))
            idx = Arr((kax,) + ax, {(0,) * (len(ax) + 1): t}, I32, 'np', own=self.own(mask))
            return NT(cls, (data, idx))
        n = n if n is not None else self.I.N
        self.m.lb[('n', 'N')] = 2
        data = Arr(((((('J',)), topoly(n)),),) + ax, {(0,) * (len(ax) + 1): Poly.atom(('v', name, real))}, dt, 'jx', own=self.own(name))
        return NT(cls, (data, None))

    def lapl(self, i, spec, sparse, dt=F, **kw):
        """FwdLaplArray operand number i."""
        cls = self.attr('folx.api', 'FwdLaplArray')
        x = self.plain(f'x{i}', spec, dt)
        j = self.jac(f'J{i}', spec, sparse, dt=dt, **kw)
        l = self.plain(f'L{i}', spec, dt)
        return NT(cls, (x, j, l))

    def rule(self, prim):
        f = self.attr('folx.wrapped_functions', 'get_laplacian')
        if not isinstance(prim, str):
            return self.I.call(f, (prim,), {'wrap_if_missing': True})
        return self.I.call(f, (prim,), {})

    def prim(self, name):
        return ExtV(f'lax.{name}_p')

    def ref_fn(self, prim, params):
        """The operation itself, as a function of its operands."""
        NAMED = {':logaddexp': 'jnp.logaddexp', ':sigmoid': 'jax.nn.sigmoid', ':softplus': 'jax.nn.softplus', ':silu': 'jax.nn.silu',
                 ':sign': 'lax.sign', ':slogdet': 'jnp.linalg.slogdet'}
        I = self.I
        f = ExtV(NAMED[prim]) if prim.startswith(':') else ExtV(f'lax.{prim}_p.bind')
        return lambda *a: I.call(f, tuple(a), dict(params) if not prim.startswith(':') else {})
