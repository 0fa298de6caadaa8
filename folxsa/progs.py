"""Abstract programs evaluated by the public transformation.

A program is a list of equations over named variables.  Every equation has a primitive of its own; its registered rule and its own execution are
recording stand-ins whose results name the operation and its operands, so the outputs of the analysed interpreter are terms that show which
operation consumed which operands.  The terms, the recorded calls and the values held by the interpreter are compared with a direct reading of
the program.  The interpreter itself is only followed abstractly."""
from .world import *
from .values import *
from .jaxprs import Builder, call_obj, aval_of
from .m_jax import flatten, unflatten
from . import oracle as O, tensor as T
from .interp import DELETED
from .rules import exc_name


class E:
    """Equation.  kind: op (registered) | pjit | named (pjit whose name is registered) | scan | raw (primitive without rule)"""

    def __init__(self, name, ins, outs, kind='op', multi=None, sub=None, params=None, plain_outs=(), fail=None, **kw):
        self.name, self.ins, self.outs, self.kind, self.sub = name, list(ins), list(outs), kind, sub
        self.multi = (len(outs) != 1 or kind in ('pjit', 'named', 'scan')) if multi is None else multi
        self.params = dict(params) if params is not None else {'axis': f'<param of {name}>'}
        self.plain_outs = plain_outs
        self.fail = fail
        self.kw = kw


class P:
    """Program: names of inputs and constants (constants end up in consts), equations, outputs."""

    def __init__(self, ins, eqns, outs, consts=()):
        self.ins, self.eqns, self.outs, self.consts = list(ins), list(eqns), list(outs), list(consts)

    def uses(self, v):
        return [i for i, e in enumerate(self.eqns) if v in e.ins]


def same_tree(I, a, b):
    a, b = I.rdeep(a), I.rdeep(b)
    oa, ob = (I.deref(v) if isinstance(v, Ref) else v for v in (a, b))
    if isinstance(oa, NT) or isinstance(ob, NT):
        return isinstance(oa, NT) and isinstance(ob, NT) and oa.cls is ob.cls and all(same_tree(I, x, y) for x, y in zip(oa.items, ob.items))
    if isinstance(oa, (tuple, ListObj)) or isinstance(ob, (tuple, ListObj)):
        if isinstance(oa, tuple) != isinstance(ob, tuple):
            return False
        x, y = (tuple(v) if isinstance(v, tuple) else tuple(v.items) for v in (oa, ob))
        return len(x) == len(y) and all(same_tree(I, p, q) for p, q in zip(x, y))
    return (oa is None) == (ob is None)


class Issue(Exception):
    pass


class Run:
    def __init__(self, project, thr=0, sparse=False, stage='jx', shapes=None):
        self.W = W = World(project)
        self.shapes = shapes or {}
        self.I = W.I
        self.b = Builder(W.I)
        self.thr = thr                # what the rules should be given
        self.sparse = sparse
        self.stage = stage
        self.bad, self.n = [], 0      # (part, message)
        self.seeded = ()              # inputs seeded by the library itself
        self.keyword = {}
        self.dense_ok = False
        self.calls = []               # calls of the transformed function
        self.vars = {}                # program -> {name: Var}
        self.FL, self.FJ = W.attr('folx.api', 'FwdLaplArray'), W.attr('folx.api', 'FwdJacobian')
        self.reg = W.attr('folx', 'register_function')

    # ---- values
    def plain(self, name, stage=None):
        return self.W.plain(name, self.shapes.get(name, ['a']), F, stage or self.stage)

    def lapl(self, name, mask=None, sparse=True):
        W = self.W
        sparse = sparse and self.sparse
        x = self.plain(name, 'jx')
        spec = self.shapes.get(name, ['a'])
        j = W.jac('J:' + name, spec, sparse, mask=mask, kname='k')
        l = W.plain('L:' + name, spec, F)
        return NT(self.FL, (x, j, l))

    def name_of(self, v):
        """('D'|'P'|'L', name), or None for a value of another origin."""
        if isinstance(v, Phi):
            a, b = self.name_of(self.I.rdeep(v.a)), self.name_of(self.I.rdeep(v.b))
            return a if a == b else None
        if isinstance(v, NT) and v.cls.name == 'FwdLaplArray':
            if self.seeded and self.atom(v.items[0]) in self.seeded:
                return ('D', self.atom(v.items[0]))
            ns = [self.atom(v.items[0]), self.atom(v.items[1].items[0]) if isinstance(v.items[1], NT) else None, self.atom(v.items[2])]
            if None in ns or ns[1] != 'J:' + ns[0] or ns[2] != 'L:' + ns[0]:
                return None
            return ('D', ns[0])
        if is_num(v):
            p = norm(topoly(v)) if not isinstance(v, complex) else v
            return ('L', str(p))
        if isinstance(v, Arr):
            n = self.atom(v)
            if n is not None:
                return ('P', n)
            if len(v.blocks) == 1:
                c = next(iter(v.blocks.values()))
                if isinstance(c, Poly) and c.as_const() is not None:
                    return ('L', str(norm(c)))
        return None

    def atom(self, a):
        if not isinstance(a, Arr) or len(a.blocks) != 1:
            return None
        c = next(iter(a.blocks.values()))
        if not isinstance(c, Poly) or len(c.t) != 1:
            return None
        (m, k), = c.t.items()
        if k != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0][0] not in ('v', 'S'):
            return None
        n = m[0][0][1]
        if isinstance(n, tuple) and n[0] == 'at' and isinstance(n[1], str) and len(n) == 4:
            return '[]' + n[1]
        return n

    def issue(self, part, msg):
        if (part, msg) not in self.bad:
            self.bad.append((part, msg))

    # ---- building
    def build(self, p):
        I, b = self.I, self.b
        vs = self.vars.setdefault(id(p), {})
        self.progs = getattr(self, 'progs', {})
        self.progs[id(p)] = p
        like = self.plain('like')

        def var(n, drop=False):
            if isinstance(n, tuple):
                return b.lit(n[1])
            if n == '_':
                return b.var(like, drop=True)
            if n not in vs:
                vs[n] = b.var(like)
            return vs[n]
        consts = [var(c) for c in p.consts]
        ins = [var(i) for i in p.ins]
        eqns = []
        for k, e in enumerate(p.eqns):
            eqns.append(b.eqn(self.prim(p, k, e), [var(x) for x in e.ins], [var(x) for x in e.outs], self.params(e)))
        return b.jaxpr(ins, consts, [var(o) for o in p.outs], eqns)

    def params(self, e):
        if e.kind in ('pjit', 'named'):
            return {'name': e.kw.get('fname', e.name), 'jaxpr': self.b.closed(self.build(e.sub), [self.plain('const ' + c, self.cstage(e)) for c in e.sub.consts]), 'inline': False}
        if e.kind == 'scan':
            n = e.kw
            return {'jaxpr': self.b.closed(self.build(e.sub), [self.plain('const ' + c) for c in e.sub.consts]), 'num_consts': n['num_consts'], 'num_carry': n['num_carry'],
                    'length': n.get('length', self.W.n('len')), 'reverse': n.get('reverse', False), 'unroll': n.get('unroll', 1), 'linear': (False,) * len(e.ins), '_split_transpose': False}
        return e.params

    def cstage(self, e):
        return 'np'

    def prim(self, p, k, e):
        I = self.I
        if e.kind == 'raw':
            return ExtV(e.kw['prim'])
        name = {'pjit': 'pjit', 'named': 'pjit', 'scan': 'scan', 'custom_jvp': 'custom_jvp_call'}.get(e.kind, e.name)
        subfuns = tuple(Obj('subfun', {'n': i}) for i in range(e.kw.get('subfuns', 0)))

        def bind(I, args, kwargs):
            args = I.rdeep(args)
            if args[:len(subfuns)] != subfuns:
                self.issue('params', f'{e.name}: executed without its inner functions')
            if e.kind == 'custom_jvp':
                return I.new_list((I.call(ExtV('lax.opaque_op_p.bind'), tuple(args[len(subfuns):]), {}),))
            return self.executed(p, k, e, args[len(subfuns):], kwargs)
        prim = self.b.prim(name, bind, e.multi, (lambda I, params: (I.new_list(subfuns), params)) if subfuns else None)
        e.kw['primobj'] = prim
        e.kw['subfunobjs'] = subfuns

        def rule(I, args, kwargs):
            return self.ruled(p, k, e, args, kwargs)
        if e.kind in ('op', 'named'):
            self.W.I.call(self.reg, (prim if e.kind == 'op' else e.kw.get('fname', e.name), call_obj('rule', rule, name=e.name)), {})
        return prim

    # ---- recording stand-ins
    def results(self, e, tag, ops, diff, mask=None):
        outs = []
        for i in range(len(e.outs)):
            nm = f'{e.name}.{tag}{i}({",".join(ops)})'
            if 'shape' in e.kw:
                self.shapes = {**self.shapes, nm: e.kw['shape']}
            outs.append(self.lapl(nm, mask, not e.kw.get('dense')) if diff and i not in e.plain_outs else self.plain(nm, None if diff or self.stage == 'jx' else ('ct' if self.I.compile_time else self.stage)))
        if not e.multi or (e.kw.get('bare') and diff):
            return outs[0]
        return self.I.new_list(tuple(outs)) if e.kw.get('result', 'list') == 'list' else tuple(outs)

    def operands(self, e, args):
        ops = []
        for v in args:
            v = self.I.rdeep(v)
            n = self.name_of(v)
            if n is None:
                self.issue('operands', f'{e.name} is given a value of another origin: {v!r:.120}')
                ops.append('?')
                continue
            if n[0] == 'D' and isinstance(v, NT):
                m = v.items[1].items[1]
                if isinstance(m, Arr) and m.stage == 'jx':
                    self.issue('stage', f'{e.name} is given a traced index pattern')
            ops.append(f'{n[0]}:{n[1]}')
        return ops

    def note(self, p, k, e, mode, ops):
        I = self.I
        I.event('prog', prog=id(p), eqn=k, name=e.name, mode=mode, ops=tuple(ops), ct=I.compile_time, traced=self.stage == 'jx')
        self.live(p, k, e)

    def executed(self, p, k, e, args, kwargs):
        I = self.I
        ops = self.operands(e, args)
        self.note(p, k, e, 'primitive', ops)
        want = e.kw.get('built') or e.params
        if e.kind == 'op':
            self.same_params(e, kwargs, want)
        if e.fail and e.fail(self, 'primitive'):
            raise AbsRaise(ModelV('excinst', ('builtins.' + e.kw.get('exc', 'ZeroDivisionError'), e.name)), I.where(), True)
        return self.results(e, 'p', ops, False)

    def ruled(self, p, k, e, args, kwargs):
        I = self.I
        names = ['args', 'kwargs', 'sparsity_threshold']
        d = dict(zip(names, args))
        d.update(kwargs)
        ops_in = I.rdeep(d.get('args'))
        if isinstance(ops_in, Top):
            self.issue('und', f'operands of the rule of {e.name}: {ops_in!r:.100}')
            self.note(p, k, e, 'rule', ['?'])
            return I.top('operands')
        vals = I.iterate(ops_in)
        for v in vals:
            if is_num(I.rdeep(v)):
                self.issue('operands', f'the rule of {e.name} is given a Python number instead of an array')
        sub = e.kw.get('subfunobjs', ())
        if tuple(vals[:len(sub)]) != tuple(sub):
            self.issue('params', f'rule of {e.name} is called without the inner functions of the equation')
        ops = self.operands(e, vals[len(sub):])
        self.note(p, k, e, 'rule', ops)
        if 'kwargs' not in d:
            self.issue('params', f'rule of {e.name} is called without parameters')
        elif e.kind == 'op':
            kk = I.rdeep(d['kwargs'])
            o = I.deref(kk) if isinstance(kk, Ref) else None
            self.same_params(e, dict(o.items) if o is not None else None, e.params)
        self.threshold(e.name, d.get('sparsity_threshold', 'nothing'))
        if e.fail and e.fail(self, 'rule'):
            raise AbsRaise(ModelV('excinst', ('builtins.' + e.kw.get('exc', 'ZeroDivisionError'), e.name)), I.where(), True)
        mask = None
        for i, v in enumerate(vals[len(sub):]):
            v = I.rdeep(v)
            if isinstance(v, NT) and v.cls.name == 'FwdLaplArray' and self.sparse and e.kw.get('mask_of', i) == i:
                t = v.items[1].items[1]
                c = next(iter(t.blocks.values())) if isinstance(t, Arr) else None
                if isinstance(c, tuple) and c[0] == 'M':
                    mask = c[1]
                    break
        if e.kw.get('newmask'):
            mask = None
        return self.results(e, 'r', ops, True, mask)

    def same_params(self, e, got, want):
        if got is None or {k: self.I.rdeep(v) for k, v in got.items()} != want:
            self.issue('params', f'{e.name} is evaluated with parameters {sorted(got) if got is not None else None} instead of {sorted(want)}')

    def threshold(self, name, t):
        t = self.I.rdeep(t)
        if isinstance(t, Top) or isinstance(t, Phi):
            self.issue('und', f'threshold of {name}: {t!r:.80}')
        elif t == 'nothing' or not is_num(t) or norm(topoly(t)) != norm(topoly(self.thr)):
            self.issue('threshold', f'{name} is evaluated with sparsity threshold {t!r} instead of {norm(topoly(self.thr))!r}')

    # ---- values held by the interpreter
    def live(self, p, k, e):
        I = self.I
        seen = set()
        vs = self.vars[id(p)]
        inv = {id(v): n for n, v in vs.items()}
        s = I.st
        while s is not None:
            for addr, o in list(s.d.items()):
                if addr in seen:
                    continue
                seen.add(addr)
                if not isinstance(o, DictObj):
                    continue
                for key, val in o.items:
                    if not (isinstance(key, Obj) and id(key) in inv):
                        continue
                    val = I.rdeep(val)
                    if not (isinstance(val, Arr) or isinstance(val, NT)):
                        continue
                    n = inv[id(key)]
                    self.held = True
                    if n in p.ins or n in p.consts or n in p.outs:
                        continue
                    made = [i for i, q in enumerate(p.eqns) if n in q.outs]
                    u = p.uses(n)
                    if not u and made and made[0] < k:
                        self.issue('live', f'the value of {n}, which is never used, is retained when {e.name} is evaluated')
                    elif u and max(u) < k:
                        self.issue('live', f'the value of {n}, last used by {p.eqns[max(u)].name}, is still held when {e.name} is evaluated')
            s = s.parent

    # ---- reference reading of a program
    def reference(self, p, env, trace=None):
        """env: names -> (kind, token); returns tokens of the outputs."""
        env = dict(env)
        trace = [] if trace is None else trace

        def get(n):
            return ('L', str(norm(topoly(n[1])))) if isinstance(n, tuple) else env[n]
        for k, e in enumerate(p.eqns):
            vals = [get(n) for n in e.ins]
            ops = [f'{a}:{b}' for a, b in vals]
            diff = any(a == 'D' for a, _ in vals)
            if not diff:
                trace.append((id(p), k, 'primitive', tuple(ops)))
                outs = [('P', f'{e.name}.p{i}({",".join(ops)})') for i in range(len(e.outs))]
            elif e.kind in ('op', 'named'):
                trace.append((id(p), k, 'rule', tuple(ops)))
                outs = [('P' if i in e.plain_outs else 'D', f'{e.name}.r{i}({",".join(ops)})') for i in range(len(e.outs))]
            elif e.kind == 'pjit':
                sub = dict(zip(e.sub.ins, vals))
                sub.update({c: ('P', 'const ' + c) for c in e.sub.consts})
                outs, trace = self.reference(e.sub, sub, trace)
            elif e.kind == 'scan':
                nc, nk = e.kw['num_consts'], e.kw['num_carry']
                alts = []
                for first in (True, False):
                    sub = {n: (v if i < nc else (v if first else (v[0], '<' + v[1])) if i < nc + nk else ('P', ('[]' if first else '@') + v[1]))
                           for i, (n, v) in enumerate(zip(e.sub.ins, vals))}
                    o, t = self.reference(e.sub, sub)
                    alts.append(t)
                trace.append(('scan', tuple(tuple(t) for t in alts)))
                outs = [(a, ('end:' if i < nk else 'stk:') + b) if a != 'L' else (a, b) for i, (a, b) in enumerate(o)]
            else:
                outs = [('?', '?')] * len(e.outs)
            for n, o in zip(e.outs, outs):
                if n != '_':
                    env[n] = o
        return [get(o) for o in p.outs], trace

    # ---- evaluation
    def fn_obj(self, p, check=None, otree=None):
        """The function the user hands in: its arguments are compared with what was passed."""
        def f(I, args, kwargs):
            self.calls.append((args, dict(kwargs)))
            if check:
                check(I, args, kwargs)
            outs = tuple(self.plain(f'out{i}', 'jx') for i, _ in enumerate(p.outs))
            return otree(I, outs) if otree else outs
        return call_obj('userfn', f, name='f')

    def trace_hook(self, p, keyword=()):
        """keyword: names of program inputs that enter as keyword arguments of the function (constants unless they are traced)."""
        def make(I, a, k):
            rs = I.rdeep(k.get('return_shape', False))
            user = a[0]

            def run(I, args, kwargs):
                n = len(self.calls)
                r = I.call(user, args, kwargs)
                if len(self.calls) == n:
                    self.issue('und', 'the function is not called while it is traced')
                leaves, tree = flatten(I, r)
                nk = len(flatten(I, I.new_dict(tuple(kwargs.items())))[0])
                if nk:
                    q = P(p.ins + sorted(keyword), p.eqns, p.outs, p.consts)
                else:
                    q = P(p.ins, p.eqns, p.outs, list(p.consts) + sorted(keyword))
                self.top = q
                closed = self.b.closed(self.build(q), [self.plain('const ' + c if c not in keyword else c, 'np') for c in q.consts])
                if rs is True:
                    return (closed, unflatten(I, tree, [aval_of(o) for o in leaves]))
                return closed
            return call_obj('make_jaxpr', run)
        self.I.ext_hooks['jax.make_jaxpr'] = make

    # ---- loops
    def scan_eqns(self):
        out = []

        def rec(p):
            for e in p.eqns:
                if e.kind == 'scan':
                    out.append(e)
                if e.sub is not None:
                    rec(e.sub)
        for p in list(self.progs.values()):
            rec(p)
        return list({id(e): e for e in out}.values())

    def scan_hook(self):
        I = self.I
        self.loops = []

        def rename(v, pre, stage=None):
            """The same leaf under a new name (prefix), as a traced value."""
            if not isinstance(v, Arr):
                return v
            out = {}
            for c, e in v.blocks.items():
                if isinstance(e, Poly) and e.as_const() is None:
                    def r(at):
                        if at[0] in ('v', 'S') and isinstance(at[1], str):
                            n = at[1]
                            n = n[:2] + pre + n[2:] if n[:2] in ('J:', 'L:') else pre + n
                            self.W.m.deps.setdefault(n, self.W.m.deps.get(at[1], frozenset()))
                            if at[1] in self.W.m.jnames:
                                self.W.m.jnames.add(n)
                            return (at[0], n) + at[2:]
                        return at
                    e = e.subst(lambda at: Poly.atom(r(at)))
                out[c] = e
            return v.but(blocks=out, stage=stage or 'jx', id=None, cval=None)

        def traced(v):
            return v.but(stage='jx', id=None, cval=None) if isinstance(v, Arr) else v

        def is_index(v):
            return isinstance(v, Arr) and any(not isinstance(c, Poly) or v.cval is not None or v.dt.kind == 'i' for c in v.blocks.values())

        def once(f, init, xs, length, reverse, unroll):
            fi, ti = flatten(I, init)
            fx, tx = flatten(I, xs)
            if any(isinstance(v, Top) for v in fi + fx):
                return I.top('scan over unknown values')
            es = [e for e in self.scan_eqns() if (norm(topoly(e.kw.get('length', self.W.n('len'))))) == (norm(topoly(length)) if length is not None and is_num(length) else None)]
            if length is None and fx:
                length = fx[0].shape()[0]
                es = [e for e in self.scan_eqns() if norm(topoly(e.kw.get('length', self.W.n('len')))) == norm(topoly(length))]
            if not es:
                self.issue('loop', f'the loop runs {length!r} steps, which no loop of the program does')
                return I.top('scan')
            e = es[0]
            self.loops.append(e.name)
            if bool(reverse) != bool(e.kw.get('reverse', False)):
                self.issue('loop', f'{e.name}: the loop runs {"backwards" if reverse else "forwards"}')
            if unroll != e.kw.get('unroll', 1):
                self.issue('loop', f'{e.name}: the loop is unrolled {unroll!r} times instead of {e.kw.get("unroll", 1)}')
            for x in fx:
                if not isinstance(x, Arr) or x.rank is None or x.rank == 0 or norm(topoly(x.shape()[0])) != norm(topoly(length)):
                    T.raise_(I, 'ValueError', 'scan got a value whose leading axis differs from the length')
            cin = unflatten(I, ti, [traced(v) if is_index(v) else rename(v, '<') for v in fi])
            xin = unflatten(I, tx, [rename(I.getitem(x, 0), '@') if not self.atom(x) else self.xslice(x) for x in fx])
            saved = I.compile_time
            I.compile_time = False
            try:
                r = I.call(f, (cin, xin), {})
            finally:
                I.compile_time = saved

            def finish(r):
                if isinstance(r, Top):
                    return r
                r = I.iterate(r)
                if len(r) != 2:
                    T.raise_(I, 'TypeError', 'scan body must return (carry, y)')
                fo, to = flatten(I, r[0])
                if len(fo) != len(fi) or not same_tree(I, I.rdeep(r[0]), I.rdeep(init)):
                    T.raise_(I, 'TypeError', 'scan body returns a carry of another structure')
                for a, b in zip(fi, fo):
                    if isinstance(a, Arr) and isinstance(b, Arr) and a.rank is not None and b.rank is not None:
                        if a.rank != b.rank or any((topoly(m) - topoly(n)).as_const() not in (0, None) for m, n in zip(a.shape(), b.shape())):
                            T.raise_(I, 'TypeError', 'scan body returns a carry of another shape')
                fy, ty = flatten(I, r[1])
                n = topoly(length)
                ax = ((('A', 'steps'), n),)
                ys = [self.stack(rename(y, 'stk:') if not is_index(y) else traced(y), ax) for y in fy]
                cs = [traced(c) if is_index(c) else rename(c, 'end:') for c in fo]
                return (unflatten(I, to, cs), unflatten(I, ty, ys))
            return I.lift(finish, I.rdeep(r))

        def hook(I, d):
            return I.lift(lambda init, xs, ln, rv, un: once(d['f'], init, xs, ln, rv, un), I.rdeep(d.get('init')), I.rdeep(d.get('xs')), I.rdeep(d.get('length')),
                          I.rdeep(d.get('reverse', False)), I.rdeep(d.get('unroll', 1)))
        I.ext_hooks['#scan'] = hook

    def xslice(self, x):
        n = self.atom(x)
        r = x.but(axes=x.axes[1:], blocks={(0,) * (x.rank - 1): Poly.atom(('v', '@' + n, True))}, stage='jx', id=None, cval=None)
        self.W.m.deps['@' + n] = frozenset(l for a in r.axes for l, _ in a if l is not None)
        return r

    def stack(self, y, ax):
        if not isinstance(y, Arr) or y.rank is None:
            return y
        return y.but(axes=(ax,) + tuple(y.axes), blocks={(0,) + k: v for k, v in y.blocks.items()}, id=None, cval=None)

    def transform(self, fn, thr, **kw):
        return self.I.call(self.W.attr('folx', 'forward_laplacian'), (fn, thr), dict(kw))

    def evaluate(self, p, kinds, thr, check=None, fn=None, tree=None, keyword=None, jit=False, otree=None):
        """kinds: per program input 'D' or 'P'.  tree: arrangement of the inputs as positional arguments.  Returns the abstract result."""
        keyword = self.keyword = dict(keyword or {})
        self.trace_hook(p, [n for n, v in keyword.items() if v == 'array'])
        self.scan_hook()
        args = []
        for n, t in zip(p.ins, kinds):
            args.append(self.lapl(n) if t == 'D' else self.plain(n))
        self.arg_tree = tree
        given = tuple(args) if tree is None else tree(self.I, *args)
        kw = {n: (self.plain(n) if v == 'array' else v) for n, v in keyword.items()}
        f = self.transform(fn or self.fn_obj(p, check, otree), thr, **({} if jit else {'disable_jit': True}))
        return self.I.call(f, given, kw)

    def compare(self, p, kinds, res, otree=None):
        I = self.I
        p = getattr(self, 'top', p)
        env = {n: ('P' if t == 'P' else 'D', n) for n, t in zip(p.ins, kinds + 'P' * len(p.ins))}
        env.update({c: ('P', 'const ' + c if c not in self.keyword else c) for c in p.consts})
        want, trace = self.reference(p, env)
        for cond, r in O.leaves(I, I.rdeep(res)):
            self.n += 1
            r = I.rdeep(r)
            if isinstance(r, Top):
                self.issue('und', f'result {r!r:.100}')
                continue
            if otree is None:
                vals = I.iterate(r) if not isinstance(r, NT) else [r]
            else:
                vals = self.leaves_like(r, otree(I, tuple(range(len(want)))))
                if vals is None:
                    self.issue('tree', f'the result is arranged differently from the result of the function: {r!r:.200}')
                    continue
            got = [self.name_of(I.rdeep(v)) for v in vals]
            if got != want:
                if len(got) != len(want):
                    self.issue('output', f'{len(got)} outputs instead of {len(want)}')
                for i, (g, w) in enumerate(zip(got, want)):
                    if g != w:
                        self.issue('output', f'output {i} is {g and g[0] + ":" + g[1]} instead of {w[0]}:{w[1]}')
        self.check_trace(trace)

    def check_loops(self, got, want):
        """Traces with loops: the body may be followed any number of times on the initial values, and at least once on the traced ones."""
        def match(i, items):
            for it in items:
                if it[0] != 'scan':
                    if i >= len(got) or got[i] != it:
                        return None
                    i += 1
                    continue
                first, traced = it[1]
                seen = not traced
                while True:
                    j = match(i, traced)
                    if j is not None and j > i:
                        i, seen = j, True
                        continue
                    j = match(i, first)
                    if j is None or j == i:
                        break
                    i = j
                if not seen:
                    return None
            return i
        if match(0, want) == len(got):
            return
        name = lambda t: self.progs[t[0]].eqns[t[1]].name
        ok = set(flat_trace(want))
        found = False
        for t in got:
            if t not in ok:
                found = True
                same = [w for w in ok if w[:2] == t[:2]]
                if not same:
                    self.issue('order', f'{name(t)} is evaluated although the program does not reach it')
                elif t[2] not in {w[2] for w in same}:
                    self.issue('rule', f'{name(t)} is evaluated by its {t[2]}')
                else:
                    self.issue('operands', f'{name(t)} is given {t[3]} instead of {" or ".join(str(w[3]) for w in same)}')
        if not found:
            self.issue('order', f'evaluated: {", ".join(name(t) for t in got)}; which is not how the program with its loops reads')

    def leaves_like(self, r, shape):
        """Leaves of r in the order of the integers in shape; None if r is arranged differently."""
        I, out = self.I, {}

        def rec(v, t):
            v = I.rdeep(v)
            if isinstance(t, int):
                out[t] = v
                return True
            o = I.deref(v) if isinstance(v, Ref) else v
            to = I.deref(t) if isinstance(t, Ref) else t
            if isinstance(to, DictObj):
                return isinstance(o, DictObj) and dict(o.items).keys() == dict(to.items).keys() and all(rec(dict(o.items)[k], x) for k, x in to.items)
            if isinstance(to, ListObj):
                return isinstance(o, ListObj) and len(o.items) == len(to.items) and all(rec(x, y) for x, y in zip(o.items, to.items))
            if isinstance(to, tuple):
                return isinstance(o, tuple) and len(o) == len(to) and all(rec(x, y) for x, y in zip(o, to))
            return v == t
        if not rec(r, shape):
            return None
        return [out[i] for i in sorted(out)]

    def check_trace(self, want):
        I = self.I
        got = []
        for e in I.events:
            if e['kind'] == 'prog' and not any(g[0] == 'raises' and v for g, v in e['assume'].items()):
                t = (e['prog'], e['eqn'], e['mode'], e['ops'])
                if not (got and got[-1] == t and self.progs[t[0]].eqns[t[1]].fail):
                    got.append(t)
        self.n += 1
        if any(t[0] == 'scan' for t in want):
            self.check_loops(got, want)
        elif got != want:
            name = lambda t: self.progs[t[0]].eqns[t[1]].name
            show = lambda l: ', '.join(f'{name(t)}[{t[2]}]' for t in l)
            if [(t[0], t[1]) for t in got] != [(t[0], t[1]) for t in want]:
                self.issue('order', f'evaluated: {show(got)}; the program reads: {show(want)}')
            else:
                for g, w in zip(got, want):
                    if g[2] != w[2]:
                        self.issue('rule', f'{name(g)} is evaluated by its {g[2]} instead of its {w[2]}')
                    elif g[3] != w[3]:
                        self.issue('operands', f'{name(g)} is given {g[3]} instead of {w[3]}')
        alt = {}
        for t in flat_trace(want):
            alt.setdefault((t[0], t[1]), set()).add(t[3])
        for e in I.events:
            if e['kind'] == 'prog' and any(g[0] == 'raises' and v for g, v in e['assume'].items()) and e['ops'] not in alt.get((e['prog'], e['eqn']), ()):
                self.issue('fallback', f'the alternative evaluation of {e["name"]} is given other operands: {e["ops"]}')


def flat_trace(items):
    for it in items:
        if it[0] == 'scan':
            for t in it[1]:
                yield from flat_trace(t)
        else:
            yield it


def outcome(run, parts=None):
    o = O.Outcome()
    o.n = max(run.n, 1)
    for part, msg in run.bad:
        if part == 'und':
            o.add('und', 'unknown', msg)
        elif parts is None or part in parts:
            o.add('bad', part, msg)
    o.ok = o.n if not o.bad and not o.und else max(0, o.n - len(o.bad) - len(o.und))
    o.reach = set(run.I.reach)
    return o


LOOKALIKES = ['_special', '__special', 'special_', 'Special', 'SPECIAL', 'special1', 'specia', 'pecial', 'jit_special', 'jit(special)', 'special.fn', ' special', '', '<lambda>', 'fn', 'wrapped',
              '_logaddexp', 'logaddexp2', 'hard_sigmoid', 'log_sigmoid', 'Sigmoid', '_softplus', 'softplus_', 'silu1', 'hard_silu', 'scan', 'pjit', 'custom_jvp_call', 'f1', 'exp', 'add', 'dot_general', 'slogdet_', '_slogdet', 'det']


# ------------------------------------------------------------------ the programs
def programs():
    """name -> (program, kinds of inputs)"""
    U = {}

    def add(name, p, kinds):
        U[name] = (p, kinds)
    add('single', P(['x'], [E('f', ['x'], ['y'])], ['y']), 'D')
    add('chain', P(['x'], [E('f', ['x'], ['y']), E('g', ['y'], ['z']), E('h', ['z'], ['w'])], ['w']), 'D')
    add('reuse', P(['x'], [E('f', ['x'], ['y']), E('g', ['y', 'x'], ['z']), E('h', ['y', 'z'], ['w'])], ['w']), 'D')
    add('twice in one equation', P(['x'], [E('f', ['x'], ['y']), E('g', ['y', 'y'], ['z'])], ['z']), 'D')
    add('twice, then again', P(['x'], [E('f', ['x'], ['y']), E('g', ['y', 'y'], ['z']), E('h', ['z', 'y'], ['w']), E('k', ['w'], ['v'])], ['v']), 'D')
    add('input used late', P(['x', 'u'], [E('f', ['u'], ['y']), E('g', ['y'], ['z']), E('h', ['z', 'x'], ['w'])], ['w']), 'DD')
    add('operand order', P(['x', 'u'], [E('f', ['u', 'x'], ['y']), E('g', ['x', 'y', 'u'], ['z'])], ['z', 'y']), 'DD')
    add('mixed operands', P(['x', 'p'], [E('f', ['p', 'x'], ['y']), E('g', ['p'], ['q']), E('h', ['q', 'y'], ['z'])], ['z']), 'DP')
    add('plain only', P(['x', 'p'], [E('f', ['p'], ['q']), E('g', ['q', 'p'], ['r']), E('h', ['r', 'x'], ['z'])], ['z', 'r']), 'DP')
    add('literals', P(['x'], [E('f', ['x', ('lit', 2)], ['y']), E('g', [('lit', 3), ('lit', 3)], ['q']), E('h', ['q', 'y'], ['z'])], ['z']), 'D')
    add('literal output', P(['x'], [E('f', ['x'], ['y'])], ['y', ('lit', 5)]), 'D')
    add('constants', P(['x'], [E('f', ['c', 'x'], ['y']), E('g', ['d', 'c'], ['q']), E('h', ['q', 'y'], ['z'])], ['z'], consts=['c', 'd']), 'D')
    add('constants and inputs', P(['x', 'u'], [E('f', ['d', 'u'], ['y']), E('g', ['c', 'x'], ['z'])], ['y', 'z', 'd'], consts=['c', 'd']), 'DD')
    add('multiple results', P(['x'], [E('f', ['x'], ['a', 'b']), E('g', ['b'], ['c']), E('h', ['a', 'c'], ['d'])], ['d']), 'D')
    add('results in order', P(['x'], [E('f', ['x'], ['a', 'b', 'c'])], ['c', 'a', 'b']), 'D')
    add('one result of many', P(['x'], [E('f', ['x'], ['a'], multi=True), E('g', ['a'], ['b'])], ['b']), 'D')
    add('dropped result', P(['x'], [E('f', ['x'], ['_', 'b']), E('g', ['b'], ['c'])], ['c']), 'D')
    add('unused result', P(['x'], [E('f', ['x'], ['a', 'b']), E('g', ['b'], ['c']), E('h', ['c'], ['d'])], ['d']), 'D')
    add('unused equation', P(['x'], [E('f', ['x'], ['a']), E('g', ['x'], ['b']), E('h', ['b'], ['c'])], ['c']), 'D')
    add('plain result of a rule', P(['x'], [E('f', ['x'], ['a', 'b'], plain_outs=(0,)), E('g', ['a'], ['c']), E('h', ['c', 'b'], ['d'])], ['d']), 'D')
    add('output used again', P(['x'], [E('f', ['x'], ['y']), E('g', ['y'], ['z']), E('h', ['z', 'y'], ['w'])], ['y', 'w']), 'D')
    add('output twice', P(['x'], [E('f', ['x'], ['y'])], ['y', 'y']), 'D')
    add('input is output', P(['x', 'p'], [E('f', ['x'], ['y'])], ['x', 'y', 'p']), 'DP')
    add('nothing to do', P(['x'], [], ['x']), 'D')
    add('unused input', P(['x', 'u', 'w'], [E('f', ['w'], ['y'])], ['y']), 'DDD')
    inner = lambda: P(['a', 'b'], [E('f1', ['b', 'a'], ['c']), E('f2', ['c', 'k'], ['d'])], ['d', 'c'], consts=['k'])
    add('nested call', P(['x', 'u'], [E('f', ['x'], ['y']), E('call', ['y', 'u'], ['p', 'q'], kind='pjit', sub=inner()), E('g', ['q', 'p'], ['z'])], ['z']), 'DD')
    add('nested call, mixed', P(['x', 'p'], [E('call', ['x', 'p'], ['r', 's'], kind='pjit', sub=inner()), E('g', ['s'], ['z'])], ['z', 'r']), 'DP')
    add('nested call, plain', P(['x', 'p'], [E('call', ['p', 'p'], ['r', 's'], kind='pjit', sub=inner()), E('g', ['s', 'x'], ['z'])], ['z']), 'DP')
    add('nested twice', P(['x'], [E('call', ['x'], ['y'], kind='pjit', sub=P(['a'], [E('in', ['a'], ['b'], kind='pjit', sub=P(['s'], [E('f1', ['s'], ['t'])], ['t'])), E('f2', ['b'], ['c'])], ['c'])), E('g', ['y'], ['z'])], ['z']), 'D')
    add('nested, one result', P(['x'], [E('call', ['x'], ['y'], kind='pjit', sub=P(['a'], [E('f1', ['a'], ['b'])], ['b']))], ['y']), 'D')
    add('named function', P(['x', 'u'], [E('special', ['u', 'x'], ['y', 'z'], kind='named', sub=inner()), E('g', ['z', 'y'], ['w'])], ['w']), 'DD')
    add('named function, plain', P(['x', 'p'], [E('special', ['p', 'p'], ['y', 'z'], kind='named', sub=inner()), E('g', ['z', 'y', 'x'], ['w'])], ['w']), 'DP')
    add('named function, tuple', P(['x', 'u'], [E('special', ['u', 'x'], ['y', 'z'], kind='named', sub=inner(), result='tuple'), E('g', ['z', 'y'], ['w'])], ['w']), 'DD')
    add('named function, one result', P(['x'], [E('special', ['x'], ['y'], kind='named', bare=True, sub=P(['a'], [], ['a'])), E('g', ['y'], ['w'])], ['w']), 'D')
    # names that merely resemble a registered name do not select its rule
    for n in LOOKALIKES:
        add(f'function named {n!r}', P(['x', 'u'], [E('special', ['x'], ['v'], kind='named', bare=True, sub=P(['a'], [], ['a'])), E('call', ['u', 'v'], ['y', 'z'], kind='pjit', fname=n, sub=inner()),
                                                    E('g', ['z', 'y'], ['w'])], ['w']), 'DD')
    add('inner functions', P(['x'], [E('f', ['x'], ['y'], subfuns=2), E('g', ['y'], ['z'])], ['z']), 'D')
    add('inner functions, plain', P(['x', 'p'], [E('f', ['p'], ['y'], subfuns=1), E('g', ['y', 'x'], ['z'])], ['z']), 'DP')
    return U
