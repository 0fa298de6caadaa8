"""Functions of small arrays whose entries are symbols of their own: derivatives are opaque partial derivatives of opaque functions,
so every entry of a Jacobian, gradient or Hessian has a name of its own."""
from .world import *
from .values import *
from .jaxprs import call_obj
from .m_jax import flatten, unflatten
from .m_np import app_poly, arr, simp_arr
from .poly import I as IMAG
from . import oracle as O, tensor as T
from .interp import AbsRaise, Unknown, Budget
from .rules import exc_name

C_ = Dt('c', 'p')
J = Poly.atom(IMAG)


def numel(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def symbols(name, sh, dt):
    return T.from_entries([Poly.atom(('v', f'{name}{i}', dt.kind != 'c')) for i in range(numel(sh))], sh, dt, 'jx')


def shape_of(a):
    return tuple(norm(s) for s in a.shape())


class Fn:
    """An opaque function of arrays of the given shapes; outs: [(name, shape)]; kind RR / RC / CC."""

    def __init__(self, I, ins, dts, outs, kind, pack=None):
        self.I, self.ins, self.dts, self.outs, self.kind, self.pack = I, ins, dts, outs, kind, pack or (lambda r: r[0] if len(r) == 1 else tuple(r))
        self.wrong = []
        self.calls = 0
        self.obj = call_obj('userfn', lambda I, a, k: self.call(a, k), name='user')

    def entry(self, name, i, xs):
        if self.kind == 'RC':
            return self.f(f'{name}{i}.re', xs, True) + J * self.f(f'{name}{i}.im', xs, True)
        return self.f(f'{name}{i}', xs, self.kind == 'RR')

    def f(self, nm, xs, real):
        return app_poly(self.I, nm, list(xs), real)

    def call(self, a, k):
        I = self.I
        self.calls += 1
        a = tuple(I.rdeep(v) for v in a)
        if any(isinstance(v, Top) for v in a):
            raise Unknown('function of unknown values')
        a = [simp_arr(I, arr(I, v)) for v in a]
        if len(a) != len(self.ins) or k:
            self.wrong.append(f'the function is called with {len(a)} positional and {len(k)} keyword arguments instead of {len(self.ins)}')
            T.raise_(I, 'TypeError', 'wrong number of arguments')
        xs = []
        for v, s in zip(a, self.ins):
            if shape_of(v) != tuple(s):
                self.wrong.append(f'the function receives an array of shape {shape_of(v)} instead of {tuple(s)}')
                T.raise_(I, 'TypeError', 'wrong argument shape')
            if not T.explicit(v):
                raise Unknown('argument is not explicit')
            xs += T.entries(v)
        if any(not isinstance(x, Poly) for x in xs):
            raise Unknown('argument entries')
        dt = a[0].dt if self.kind in ('RR', 'CC') else Dt('c', a[0].dt.key)
        res = []
        for n, s in self.outs:
            res.append(T.from_entries([self.entry(n, i, xs) for i in range(numel(s))], s, dt, 'jx'))
        return self.pack(res)

    def table(self, prim):
        """(values, first, second) partial derivatives in flat order."""
        I = self.I
        xs = [e for v in prim for e in T.entries(v)]
        names = [(n, i) for n, s in self.outs for i in range(numel(s))]
        e = [('eps', -1 - i) for i in range(len(xs))]
        v = [self.entry(n, i, xs) for n, i in names]
        g, h = [], []
        e1, e2 = new_eps2(I)
        for n, i in names:
            gr, hr = [], []
            for p in range(len(xs)):
                row = []
                for q in range(len(xs)):
                    y = list(xs)
                    y[p] = y[p] + Poly.atom(e1)
                    y[q] = y[q] + Poly.atom(e2)
                    c = self.entry(n, i, y).coef_eps(e1)[1]
                    b, d = c.coef_eps(e2)
                    row.append(d)
                gr.append(b)
                hr.append(row)
            g.append(gr)
            h.append(hr)
        return v, g, h


def new_eps2(I):
    from .m_jax import new_eps
    return new_eps(I), new_eps(I)


def same(I, got, want, shape, out, part, what, cond, dt=None):
    """Entry by entry comparison."""
    out.n += 1
    if isinstance(got, Top) or not isinstance(got, (Arr, int, float, Poly)):
        out.add('und', part, f'{what}: {got!r:.100}', cond)
        return
    a = simp_arr(I, arr(I, got))
    if a.rank is None:
        out.add('und', part, f'{what}: unknown rank', cond)
        return
    if shape_of(a) != tuple(shape):
        out.add('und' if any(not isinstance(s, int) for s in shape_of(a)) else 'bad', part, f'{what} has shape {shape_of(a)} instead of {tuple(shape)}', cond)
        return
    if len(set(want)) == 1 and not T.explicit(a) and set(a.blocks.values()) == set(want):
        out.ok += 1
        return
    if not T.explicit(a):
        out.add('und', part, f'{what}: {a!r:.100}', cond)
        return
    es = T.entries(a)
    for i, (x, y) in enumerate(zip(es, want)):
        if not isinstance(x, Poly):
            out.add('und', part, f'{what}, entry {i}: {x!r:.60}', cond)
            return
        if x.bad():
            out.add('bad', part, f'{what}, entry {i}: {x.bad()}', cond)
            return
        if not (x - y).is_zero():
            out.add('und' if O.uncertain(cond) else 'bad', part, f'{what}, entry {i} is {show(x)} instead of {show(y)}', cond)
            return
    if dt is not None and O.definite(a.dt) and O.definite(dt) and a.dt != dt:
        out.add('bad', 'dtype', f'{what} has dtype {a.dt} instead of {dt}', cond)
        return
    out.ok += 1


def show(p):
    def sh(a):
        if a[0] == 'app':
            return a[1] + ("'" + ''.join(map(str, a[3])) if any(a[3]) else '')
        if a[0] == 'conj':
            return f'conj({sh(a[1])})'
        return str(a[1]) if len(a) > 1 else 'i'
    return ' + '.join((f'{c}*' if c != 1 else '') + '*'.join(sh(a) + (f'^{e}' if e != 1 else '') for a, e in m) for m, c in list(p.t.items())[:4]) or '0'


# ------------------------------------------------------------------ helpers of folx.ad
def ad_units():
    U = {}
    ins = {'vector': [(2,)], 'number': [()], 'matrix': [(2, 2)], 'row': [(1, 2)], 'one': [(1,)], 'vector and number': [(2,), ()], 'matrix and vector': [(1, 2), (2,)],
           'three': [(), (2,), (1,)]}
    outs = {'number': [('f', ())], 'vector': [('f', (2,))], 'long vector': [('f', (3,))], 'matrix': [('f', (2, 2))], 'pair': [('f', (2,)), ('g', ())]}
    for kind in ('RR', 'RC', 'CC'):
        for i in ins:
            for o in outs:
                if o == 'pair' and i not in ('vector', 'vector and number'):
                    continue
                for op in ('vjp', 'jacrev', 'jacfwd', 'hessian') + (('vjp_rc',) if kind == 'RC' else ()):
                    if op == 'hessian' and o in ('matrix', 'long vector') and i not in ('vector',):
                        continue
                    if op in ('vjp_rc', 'vjp') and o == 'pair':
                        continue
                    U[f'{op} {kind} {i} -> {o}'] = (op, kind, ins[i], outs[o])
    return U


def split_flat(row, shapes):
    out, p = [], 0
    for s in shapes:
        out.append(row[p:p + numel(s)])
        p += numel(s)
    return out


def ad_run(project, uid):
    op, kind, ins, outs = ad_units()[uid]
    W = World(project)
    I = W.I
    I.models.strict_tangents = True
    out = O.Outcome()
    dt = C_ if kind == 'CC' else F
    odt = F if kind == 'RR' else C_
    x = [symbols(n, s, dt) for n, s in zip('xyz', ins)]
    fn = Fn(I, ins, [dt] * len(ins), outs, kind)
    v, g, h = fn.table(x)
    nin, nout = len(g[0]), len(g)
    try:
        if op in ('vjp', 'vjp_rc'):
            ct = symbols('t', outs[0][1], odt)
            ts = T.entries(ct)
            pull = I.call(W.attr('folx.ad', op), (fn.obj,) + tuple(x), {})
            res = I.call(pull, (ct,), {})
            flat = [sum((t * g[o][p] for o, t in enumerate(ts)), ZERO) for p in range(nin)]
            for cond, r in O.leaves(I, I.rdeep(res)):
                it = list(I.iterate(r)) if not isinstance(r, (Top, Arr)) else None
                if it is None or len(it) != len(ins):
                    out.n += 1
                    out.add('und' if isinstance(r, Top) else 'bad', 'tree', f'{op} returns {r!r:.80} instead of {len(ins)} cotangents', cond)
                    continue
                for i, (a, w, s) in enumerate(zip(it, split_flat(flat, ins), ins)):
                    same(I, a, w, s, out, 'vjp', f'{op}: cotangent of argument {i}', cond)
        elif op == 'jacrev':
            res = I.call(I.call(W.attr('folx.ad', op), (fn.obj,), {}), tuple(x), {})
            for cond, r in O.leaves(I, I.rdeep(res)):
                it = [r] if len(ins) == 1 else (list(I.iterate(r)) if not isinstance(r, (Top, Arr)) else None)
                if it is None or len(it) != len(ins) or len(ins) == 1 and not isinstance(r, (Arr, Top)):
                    out.n += 1
                    out.add('und' if isinstance(r, Top) else 'bad', 'tree', f'{op} returns {r!r:.80}', cond)
                    continue
                for i, (a, s) in enumerate(zip(it, ins)):
                    w = [e for row in g for e in split_flat(row, ins)[i]]
                    same(I, a, w, (nout,) + tuple(s), out, 'jac', f'{op}: Jacobian of argument {i}', cond, odt)
        elif op == 'jacfwd':
            res = I.call(I.call(W.attr('folx.ad', op), (fn.obj,), {}), tuple(x), {})
            for cond, r in O.leaves(I, I.rdeep(res)):
                it = flatten(I, r)[0]
                if len(it) != len(outs):
                    out.n += 1
                    out.add('bad', 'tree', f'{op} returns {r!r:.80}', cond)
                    continue
                o = 0
                for i, (a, (n, s)) in enumerate(zip(it, outs)):
                    w = [e for row in g[o:o + numel(s)] for e in row]
                    o += numel(s)
                    same(I, a, w, tuple(s) + (nin,), out, 'jac', f'{op}: Jacobian of result {i}', cond, odt)
        else:
            res = I.call(I.call(W.attr('folx.ad', op), (fn.obj,), {}), tuple(x), {})
            for cond, r in O.leaves(I, I.rdeep(res)):
                it = [r] if len(ins) == 1 else (list(I.iterate(r)) if not isinstance(r, (Top, Arr)) else None)
                if it is None or len(it) != len(ins):
                    out.n += 1
                    out.add('und' if isinstance(r, Top) else 'bad', 'tree', f'{op} returns {r!r:.80}', cond)
                    continue
                for i, (a, s) in enumerate(zip(it, ins)):
                    w = [e for m in h for row in split_flat(m, ins)[i] for e in row]
                    same(I, a, w, (nout,) + tuple(s) + (nin,), out, 'hess', f'{op}: second derivatives of argument {i}', cond, odt)
        if fn.wrong:
            out.n += 1
            out.add('bad', 'call', fn.wrong[0])
    except AbsRaise as e:
        out.n += 1
        out.add('bad' if fn.wrong or not I.notes else 'und', 'raise', f'raises {exc_name(e)} at {e.where}' + (f' ({fn.wrong[0]})' if fn.wrong else ''))
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {I.where()}')
    out.reach = set(I.reach)
    return out


# ------------------------------------------------------------------ Laplacian operators
def op_units():
    U = {}
    shapes = [(), (1,), (3,), (2, 2), (1, 3), (3, 1), (2, 1, 2)]
    for s in shapes:
        for c in ('LoopLaplacianOperator', 'ParallelLaplacianOperator'):
            U[f'{c} {s}'] = (c, s, None)
        for t in (0, 6):
            U[f'ForwardLaplacianOperator({t}) {s}'] = ('ForwardLaplacianOperator', s, t)
    for m in ('dense', 'sparse'):
        for n, s in (('vector', ['a']), ('matrix', ['a', 'b']), ('cube', ['a', 'b', 'c'])):
            for t in (0, 6, 0.5) if m == 'sparse' else (0, 6):
                U[f'ForwardLaplacianOperator({t}) {m} {n}'] = ('forward', (m, s), t)
    return U


def forward_of(I, W, g, x):
    """The transformation itself: value, dense gradient and Laplacian of g at the explicit array x."""
    xs = T.entries(x)
    grad, lap = [], ZERO
    val = None
    for i in range(len(xs)):
        e1, e2 = new_eps2(I)
        ys = list(xs)
        ys[i] = ys[i] + Poly.atom(e1) + Poly.atom(e2)
        y = arr(I, I.rdeep(I.call(g, (T.from_entries(ys, shape_of(x), x.dt, 'jx'),), {})))
        if y.rank != 0:
            raise Unknown('operator of a function that is not scalar')
        c = y.blocks[()]
        b, d = c.coef_eps(e1)
        val, (g1, h) = y.but(blocks={(): b.coef_eps(e2)[0]}, cval=None), d.coef_eps(e2)
        grad.append(g1)
        lap = lap + h
    jac = NT(W.attr('folx.api', 'FwdJacobian'), (T.from_entries(grad, (len(xs),), x.dt, 'jx'), None))
    return NT(W.attr('folx.api', 'FwdLaplArray'), (val, jac, T.from_entries([lap], (), x.dt, 'jx')))


def op_run(project, uid):
    cls, par, thr = op_units()[uid]
    W = World(project)
    I = W.I
    I.models.strict_tangents = True
    out = O.Outcome()
    passed = []
    try:
        if cls == 'forward':
            m, spec = par
            x = W.plain('x', spec)
            n = topoly(T.size_of(x))
            tok = W.lapl(0, [], m == 's' or m == 'sparse', n=n)

            def user(I, a, k):
                if len(a) != 1 or O.diff(I, a[0], x)[0] != 'ok':
                    out.n += 1
                    out.add('bad' if len(a) != 1 or O.diff(I, a[0], x)[0] == 'bad' else 'und', 'call', f'the function receives {a!r:.100}')
                return T.from_entries([Poly.atom(('v', 'value', True))], (), F, 'jx')
            f = call_obj('userfn', user, name='user')

            def hook(I, fn, a, k):
                passed.append((a, k))

                def t(I, a2, k2):
                    I.call(a[0], a2, k2)
                    return tok
                return call_obj('transformed', t)
        else:
            x = symbols('x', par, F)
            fn = Fn(I, [par], [F], [('f', ())], 'RR')
            f = fn.obj
            I.segmap[Poly.const(numel(par))] = ((None, ONE),) * numel(par)
            v, g, h = fn.table([x])

            def hook(I, fn_, a, k):
                passed.append((a, k))
                return call_obj('transformed', lambda I, a2, k2: forward_of(I, W, a[0], *a2))
        I.hooks['folx.interpreter.forward_laplacian'] = hook
        c = W.attr('folx.operators', 'ForwardLaplacianOperator' if cls == 'forward' else cls)
        op = I.call(c, (thr,) if thr is not None else (), {})
        res = I.call(I.call(op, (f,), {}), (x,), {})
        for cond, r in O.leaves(I, I.rdeep(res)):
            it = None if isinstance(r, (Top, Arr)) else I.iterate(r)
            if it is None or isinstance(it, (Top, AbsList)) or len(it) != 2:
                out.n += 1
                out.add('und' if isinstance(r, Top) else 'bad', 'tree', f'the operator returns {r!r:.100} instead of a pair', cond)
                continue
            if cls != 'forward':
                same(I, it[0], [sum((h[0][i][i] for i in range(len(h[0]))), ZERO)], (), out, 'lap', 'Laplacian', cond, F)
                same(I, it[1], g[0], (numel(par),), out, 'grad', 'gradient', cond, F)
                continue
            out.n += 1
            st, msg = O.diff(I, it[0], tok.items[2])
            if st == 'ok':
                out.ok += 1
            else:
                out.add(st, 'lap', f'Laplacian: {msg}', cond)
            out.n += 1
            st, msg = flat_gradient(I, it[1], tok.items[1], n)
            if st == 'ok':
                out.ok += 1
            else:
                out.add(st, 'grad', f'gradient: {msg}', cond)
        if thr is not None:
            for a, k in passed:
                out.n += 1
                t = a[1] if len(a) > 1 else k.get('sparsity_threshold', 0)
                if t == thr:
                    out.ok += 1
                else:
                    out.add('und' if not isinstance(t, (int, float)) else 'bad', 'threshold', f'the transformation runs with sparsity threshold {t!r:.40} instead of {thr}')
        if cls != 'forward' and fn.wrong:
            out.n += 1
            out.add('bad', 'call', fn.wrong[0])
    except AbsRaise as e:
        w = cls != 'forward' and fn.wrong
        out.n += 1
        out.add('bad' if w or not I.notes else 'und', 'raise', f'raises {exc_name(e)} at {e.where}' + (f' ({w[0]})' if w else ''))
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {I.where()}')
    out.reach = set(I.reach)
    return out


def flat_gradient(I, g, jac, n):
    """Stored or dense derivatives by all n inputs, in order, zeros behind."""
    if not isinstance(g, Arr) or g.rank is None:
        return 'und', f'{g!r:.80}'
    if g.rank != 1:
        return 'bad', f'shape {g.shape()} instead of ({norm(n)},)'
    if topoly(g.shape()[0]) != n:
        return 'bad', f'{g.shape()[0]} entries instead of {norm(n)}'
    want = O.jac_symbol(jac)
    seen = False
    for i, (l, s) in enumerate(g.axes[0]):
        c = g.blocks[(i,)]
        if not isinstance(c, Poly):
            return 'und', f'{g!r:.100}'
        if c.bad():
            return 'bad', c.bad()
        if c.is_zero():
            if not seen:
                return 'bad', f'zeros in front of the derivatives: {g!r:.160}'
            continue
        if seen:
            return 'bad', f'{g!r:.160}'
        seen = True
        if T.densify(c) != want:
            return 'bad', f'{c!r:.100} instead of {want!r:.60}'
        if O.jac_terms(c):
            return 'bad', f'stored entries {c!r:.60} are used as entries of the flat gradient'
        if l != ('J',):
            return 'und', f'leading axis {T.show_label(l)}'
    return ('ok', None) if seen else ('bad', 'all zero')


def units():
    return {**ad_units(), **op_units()}


def run(project, uid):
    return (op_run if uid in op_units() else ad_run)(project, uid)
