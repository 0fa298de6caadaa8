"""Memory estimation: compute_memory is followed on abstract programs with concrete shapes and dtypes; the number it returns is compared with a direct
reading of the program (peak over the equations of the bytes of the live tensors plus the peak of the nested program)."""
from .world import *
from .values import *
from .jaxprs import Builder, call_obj, aval_of
from .m_jax import flatten
from .m_np import arr
from .models import itemsize
from . import oracle as O, tensor as T
from .interp import AbsRaise, Unknown, Budget
from .rules import exc_name

F32, F64, I32_, B8, C64, F16 = Dt('f', '32'), Dt('f', '64'), Dt('i', '32'), Dt('b', 'b'), Dt('c', '32'), Dt('f', '16')
DTS = [F32, F64, F32, I32_, C64, F32, F16, B8]
SHAPES = [(3, 2), (5,), (7,), (2, 2, 3), (11,), (4, 2), (13,), (3, 5), (), (6,)]


class Q:
    """Equation: kind op | noise (prints while it is executed) | pjit | scan."""

    def __init__(self, name, ins, outs, kind='op', sub=None, multi=None, like=None, **kw):
        self.name, self.ins, self.outs, self.kind, self.sub, self.kw = name, list(ins), list(outs), kind, sub, kw
        self.multi = (len(outs) != 1 or kind in ('pjit', 'scan')) if multi is None else multi
        self.like = like or {}          # result -> variable with the same shape and dtype


class G:
    def __init__(self, ins, eqns, outs, consts=()):
        self.ins, self.eqns, self.outs, self.consts = list(ins), list(eqns), list(outs), list(consts)

    def names(self):
        r = [v for v in self.ins + self.consts]
        for e in self.eqns:
            r += e.outs
            if e.sub is not None:
                r += e.sub.names()
        return r


def graphs():
    U = {}
    U['single'] = G(['x'], [Q('f', ['x'], ['y'])], ['y'])
    U['chain'] = G(['x'], [Q('f', ['x'], ['y']), Q('g', ['y'], ['z']), Q('h', ['z'], ['w'])], ['w'])
    U['long chain'] = G(['x'], [Q('f', ['x'], ['a']), Q('g', ['a'], ['b']), Q('h', ['b'], ['c']), Q('k', ['c'], ['d']), Q('l', ['d'], ['e'])], ['e'])
    U['reuse'] = G(['x'], [Q('f', ['x'], ['y']), Q('g', ['y', 'x'], ['z']), Q('h', ['y', 'z'], ['w']), Q('k', ['w'], ['v'])], ['v'])
    U['twice in one equation'] = G(['x'], [Q('f', ['x'], ['y']), Q('g', ['y', 'y'], ['z']), Q('h', ['z'], ['w'])], ['w'])
    U['twice, then again'] = G(['x'], [Q('f', ['x'], ['y']), Q('g', ['y', 'y'], ['z']), Q('h', ['z', 'y', 'z'], ['w']), Q('k', ['w'], ['v'])], ['v'])
    U['input used last'] = G(['x', 'u'], [Q('f', ['u'], ['y']), Q('g', ['y'], ['z']), Q('h', ['z', 'x'], ['w']), Q('k', ['w'], ['v'])], ['v'])
    U['input used first'] = G(['x', 'u'], [Q('f', ['u', 'x'], ['y']), Q('g', ['y'], ['z']), Q('h', ['z'], ['w'])], ['w'])
    U['unused input'] = G(['x', 'u'], [Q('f', ['x'], ['y']), Q('g', ['y'], ['z'])], ['z'])
    U['constants'] = G(['x'], [Q('f', ['c', 'x'], ['y']), Q('g', ['d', 'y'], ['z']), Q('h', ['z'], ['w'])], ['w'], ['c', 'd'])
    U['literals'] = G(['x'], [Q('f', ['x', ('lit', 2)], ['y']), Q('g', ['y', ('lit', 3)], ['z'])], ['z', ('lit', 4)])
    U['literal first'] = G(['x'], [Q('f', [('lit', 2), 'x'], ['y']), Q('g', [('lit', 3), 'y', ('lit', 2)], ['z']), Q('h', ['z', 'x', 'z'], ['w']), Q('k', ['w'], ['v'])], ['v'])
    U['repeated operand first'] = G(['x'], [Q('f', ['x'], ['y']), Q('g', ['x'], ['z']), Q('h', ['y', 'y', 'z'], ['w']), Q('k', ['w', 'x', 'w'], ['v']), Q('l', ['v'], ['o'])], ['o'])
    U['operands freed in other order'] = G(['x'], [Q('f', ['x'], ['a', 'b', 'c']), Q('g', ['c', 'a'], ['d']), Q('h', ['b', 'd', 'b'], ['e']), Q('k', ['e'], ['o'])], ['o'])
    U['output used again'] = G(['x'], [Q('f', ['x'], ['y']), Q('g', ['y'], ['z']), Q('h', ['z'], ['w'])], ['y', 'w'])
    U['output twice'] = G(['x'], [Q('f', ['x'], ['y']), Q('g', ['y'], ['z']), Q('h', ['z'], ['w'])], ['y', 'w', 'y'])
    U['input is output'] = G(['x', 'u'], [Q('f', ['x'], ['y']), Q('g', ['y'], ['z'])], ['x', 'z'])
    U['several results'] = G(['x'], [Q('f', ['x'], ['a', 'b']), Q('g', ['b'], ['c']), Q('h', ['a', 'c'], ['d'])], ['d'])
    U['results of different length of life'] = G(['x'], [Q('f', ['x'], ['a', 'b', 'c']), Q('g', ['c'], ['d']), Q('h', ['d', 'a'], ['e']), Q('k', ['e', 'b'], ['o'])], ['o'])
    U['one result in a list'] = G(['x'], [Q('f', ['x'], ['a'], multi=True), Q('g', ['a'], ['b'])], ['b'])
    U['inner functions'] = G(['x'], [Q('f', ['x'], ['a'], subfuns=2), Q('g', ['a'], ['b'])], ['b'])
    U['diamond'] = G(['x'], [Q('f', ['x'], ['a']), Q('g', ['a'], ['b']), Q('h', ['a'], ['c']), Q('k', ['b', 'c'], ['d']), Q('l', ['d'], ['e'])], ['e'])
    inner = lambda p='': G([p + 'i', p + 'j'], [Q(p + 'f1', [p + 'j', p + 'i'], [p + 'k']), Q(p + 'f2', [p + 'k'], [p + 'l']), Q(p + 'f3', [p + 'l', p + 'j'], [p + 'm'])], [p + 'm', p + 'k'])
    U['call'] = G(['x', 'u'], [Q('f', ['x'], ['y']), Q('call', ['y', 'u'], ['p', 'q'], 'pjit', inner()), Q('g', ['q', 'p'], ['z'])], ['z'])
    U['call, operand used again'] = G(['x', 'u'], [Q('f', ['x'], ['y']), Q('call', ['y', 'u'], ['p', 'q'], 'pjit', inner()), Q('g', ['q', 'p', 'y'], ['z']), Q('h', ['z'], ['w'])], ['w'])
    U['call, same operand twice'] = G(['x'], [Q('f', ['x'], ['y']), Q('call', ['y', 'y'], ['p', 'q'], 'pjit', inner()), Q('g', ['q', 'p'], ['z'])], ['z'])
    U['call with constants'] = G(['x'], [Q('f', ['x'], ['y']), Q('call', ['y'], ['p'], 'pjit', G(['i'], [Q('f1', ['i', 'n'], ['k']), Q('f2', ['k'], ['l'])], ['l'], ['n'])), Q('g', ['p'], ['z'])], ['z'])
    U['call of a literal'] = G(['x'], [Q('f', ['x'], ['y']), Q('call', ['y', ('lit', 2)], ['p'], 'pjit', G(['i', 'j'], [Q('f1', ['i', 'j'], ['k']), Q('f2', ['k'], ['l'])], ['l'])), Q('g', ['p'], ['z'])], ['z'])
    U['two calls'] = G(['x', 'u'], [Q('c1', ['x', 'u'], ['p', 'q'], 'pjit', inner()), Q('c2', ['q', 'p'], ['r', 's'], 'pjit', inner('2')), Q('g', ['r', 's'], ['z'])], ['z'])
    U['call in a call'] = G(['x'], [Q('c1', ['x'], ['y'], 'pjit', G(['a'], [Q('f1', ['a'], ['b']), Q('c2', ['b'], ['c'], 'pjit', G(['s'], [Q('f3', ['s'], ['t']), Q('f4', ['t'], ['u'])], ['u'])), Q('f5', ['c'], ['d'])], ['d'])),
                                   Q('g', ['y'], ['z'])], ['z'])
    body = lambda: G(['ic', 'is', 'ix'], [Q('f1', ['ic', 'is'], ['k']), Q('f2', ['k', 'ix'], ['so'], like={'so': 'is'}), Q('f3', ['k'], ['yo'])], ['so', 'yo'])
    scan = lambda n, **k: Q('scan', ['c', 's', 'X'], ['S', 'Y'], 'scan', body(), num_consts=1, num_carry=1, length=n, **k)
    for n in (1, 3, 4):
        U[f'loop of {n}'] = G(['x', 'c', 's'], [Q('f', ['x'], ['X'], lead=n), scan(n), Q('g', ['S', 'Y'], ['z'])], ['z'])
    U['loop over an input'] = G(['X', 'c', 's'], [scan(3), Q('g', ['S', 'Y'], ['z'])], ['z'])
    U['loop, carry only'] = G(['x'], [Q('f', ['x'], ['s']), Q('scan', ['s'], ['S'], 'scan', G(['is'], [Q('f1', ['is'], ['k']), Q('f2', ['k'], ['so'], like={'so': 'is'})], ['so']), num_consts=0, num_carry=1, length=3),
                                      Q('g', ['S'], ['z'])], ['z'])
    U['loop, results only'] = G(['x', 'c', 'd'], [Q('f', ['x'], ['X'], lead=4), Q('scan', ['c', 'd', 'X'], ['Y', 'Z'], 'scan', G(['ic', 'id', 'ix'], [Q('f1', ['ic', 'ix'], ['k']), Q('f2', ['k', 'id'], ['yo'])], ['yo', 'k']),
                                                                                num_consts=2, num_carry=0, length=4), Q('g', ['Z', 'Y'], ['z'])], ['z'])
    U['loop, two carries'] = G(['x', 'r', 's'], [Q('scan', ['r', 's', 'X'], ['R', 'S', 'Y', 'Z'], 'scan', G(['ir', 'is', 'ix'], [Q('f1', ['ir', 'ix'], ['so'], like={'so': 'is'}), Q('f2', ['so', 'ir'], ['ro'], like={'ro': 'ir'}),
                                                                                Q('f3', ['so'], ['yo', 'zo'])], ['ro', 'so', 'yo', 'zo']), num_consts=0, num_carry=2, length=3), Q('g', ['R', 'S', 'Y', 'Z'], ['z'])], ['z'])
    U['loop, two carries'].eqns.insert(0, Q('f', ['x'], ['X'], lead=3))
    U['loop, two inputs'] = G(['x', 's'], [Q('f', ['x'], ['X', 'V'], lead=3), Q('scan', ['s', 'X', 'V'], ['S', 'Y'], 'scan', G(['is', 'ix', 'iv'], [Q('f1', ['is', 'iv'], ['k']), Q('f2', ['k', 'ix'], ['so'], like={'so': 'is'}),
                                                                                Q('f3', ['k', 'so'], ['yo'])], ['so', 'yo']), num_consts=0, num_carry=1, length=3), Q('g', ['S', 'Y'], ['z'])], ['z'])
    U['loop in a call'] = G(['X', 'c', 's'], [Q('call', ['X', 'c', 's'], ['p'], 'pjit', G(['X', 'c', 's'], [scan(3), Q('g', ['S', 'Y'], ['z'])], ['z'])), Q('h', ['p'], ['o'])], ['o'])
    U['call in a loop'] = G(['x', 's'], [Q('f', ['x'], ['X'], lead=3), Q('scan', ['s', 'X'], ['S', 'Y'], 'scan', G(['is', 'ix'], [Q('c', ['ix', 'is'], ['so', 'yo'], 'pjit',
                            G(['a', 'b'], [Q('f1', ['a', 'b'], ['k']), Q('f2', ['k'], ['o1'], like={'o1': 'b'}), Q('f3', ['o1', 'k'], ['o2'])], ['o1', 'o2']))], ['so', 'yo']), num_consts=0, num_carry=1, length=3),
                            Q('g', ['S', 'Y'], ['z'])], ['z'])
    return U


class Sim:
    """Shapes of all variables, and the direct reading of a program."""

    def __init__(self, g, salt, big):
        self.salt, self.big = salt, big
        self.order = {n: i for i, n in enumerate(dict.fromkeys(g.names()))}

    def sig(self, name, e=None):
        i = self.order.get(name, 0) * 7 + self.salt * 3
        sh = SHAPES[(i + i // 10) % len(SHAPES)]
        dt = DTS[(i * 5 + self.salt) % len(DTS)]
        if name == self.big:
            sh, dt = sh + (17,) if self.salt % 2 else (16,) + sh[1:], (F64 if dt.kind == 'f' else dt)
        if e is not None and e.kw.get('lead'):
            sh = (e.kw['lead'],) + sh
        return sh, dt

    def bytes(self, s):
        n = 1
        for d in s[0]:
            n *= d
        return n * itemsize(s[1])

    def shapes(self, g, env):
        """env: signatures of the inputs and constants; returns those of all variables of this program (sub-programs under the equation)."""
        env = dict(env)
        for c in g.consts:
            env.setdefault(c, self.sig(c))
        for e in g.eqns:
            sigs = [((), F32) if isinstance(v, tuple) else env[v] for v in e.ins]
            if e.kind == 'pjit':
                sub = self.shapes(e.sub, dict(zip(e.sub.ins, sigs)))
                env[('sub', e.name)] = sub
                res = [sub[o] for o in e.sub.outs]
            elif e.kind == 'scan':
                nk = e.kw['num_consts'] + e.kw['num_carry']
                sub = self.shapes(e.sub, dict(zip(e.sub.ins, sigs[:nk] + [(s[0][1:], s[1]) for s in sigs[nk:]])))
                env[('sub', e.name)] = sub
                res = [sub[o] for o in e.sub.outs]
                res = res[:e.kw['num_carry']] + [((e.kw['length'],) + s[0], s[1]) for s in res[e.kw['num_carry']:]]
            else:
                res = [env[e.like[o]] if o in e.like else self.sig(o, e) for o in e.outs]
            for o, s in zip(e.outs, res):
                env[o] = s
        return env

    def peak(self, g, env):
        live = set(g.ins) | set(g.consts)
        keep = live | {o for o in g.outs if not isinstance(o, tuple)}
        best = 0
        for k, e in enumerate(g.eqns):
            live |= {o for o in e.outs if o in keep or any(o in q.ins for q in g.eqns[k + 1:])}
            m = sum(self.bytes(env[v]) for v in live)
            if e.sub is not None:
                m += self.peak(e.sub, env[('sub', e.name)])
            best = max(best, m)
            live -= {v for v in e.ins if not isinstance(v, tuple) and v not in keep and not any(v in q.ins for q in g.eqns[k + 1:])}
        return best


NOISE = ['noise 12', '77', 'more noise', '']


def cases():
    """name -> (graph name, salt, big variable, call arrangement)"""
    U = {}
    gs = graphs()
    for n, g in gs.items():
        names = list(dict.fromkeys(g.names()))
        for salt in (0, 1):
            U[f'{n}, sizes {salt}'] = (n, salt, None, 'plain')
        for j, v in enumerate(names):
            U[f'{n}, large {v}'] = (n, 2 + j % 3, v, 'plain')
    for n in ('chain', 'call', 'loop of 3', 'twice in one equation'):
        U[f'{n}, largest tensors printed'] = (n, 1, None, 'top')
        U[f'{n}, operations print'] = (n, 0, None, 'noise')
        U[f'{n}, operations print several lines'] = (n, 0, None, 'noises')
        U[f'{n}, operations print, largest tensors printed'] = (n, 0, None, 'noise+top')
    for arr_ in ('static first', 'static last', 'static middle', 'static number', 'static number zero', 'static negative', 'two static', 'static pair', 'static equals an argument', 'keyword', 'keywords', 'list', 'dictionary', 'nested', 'static and keyword', 'unused keyword'):
        for n in ('input used last', 'unused input'):
            U[f'{n}, {arr_}'] = (n, 1, None, arr_)
    return U


def units():
    return list(cases())


def run(project, uid, fail=None):
    """fail: name of an equation whose operation raises (used by the check of process-wide state)."""
    gname, salt, big, how = cases()[uid]
    W = World(project)
    I = W.I
    out = O.Outcome()
    box = estimate(W, out, graphs()[gname], salt, big, how, fail)
    if box is not None and fail is None:
        I.rdeep(box)
    out.reach = set(I.reach)
    return out


def estimate(W, out, g, salt, big, how, fail=None):
    I = W.I
    b = Builder(I)
    S = Sim(g, salt, big)
    env = S.shapes(g, {v: S.sig(v) for v in g.ins})
    noisy = [e for e in g.eqns if e.kind == 'op'][0].name if 'noise' in how else None
    lines = [] if noisy is None else NOISE[:1] if not how.startswith('noises') else NOISE
    count = [0]

    def plain(name, s):
        return W.plain(name, [(f'{name}.{i}', d) if d != 1 else 1 for i, d in enumerate(s[0])], s[1])

    def prim(e):
        subs = tuple(Obj('subfun', {'n': i}) for i in range(e.kw.get('subfuns', 0)))

        def bind(I, args, kwargs):
            args = I.rdeep(args)
            if args[:len(subs)] != subs:
                T.raise_(I, 'TypeError', f'{e.name} is executed without its inner functions')
            args = args[len(subs):]
            if len(args) != len(e.ins):
                T.raise_(I, 'TypeError', f'{e.name} is given {len(args)} operands instead of {len(e.ins)}')
            count[0] += 1
            if e.name == noisy:
                for l in lines:
                    I.call(ExtV('builtins.print'), (l,), {})
            if e.name == fail:
                raise AbsRaise(ModelV('excinst', ('builtins.ZeroDivisionError', e.name)), I.where(), True)
            rs = tuple(plain(f'{o}#{count[0]}', sigs[id(e)][i]) for i, o in enumerate(e.outs))
            return I.new_list(rs) if e.multi else rs[0]
        return b.prim({'pjit': 'pjit', 'scan': 'scan'}.get(e.kind, e.name), bind, e.multi, (lambda I, p: (I.new_list(subs), p)) if subs else None)
    sigs = {}

    def build(g, env, depth=''):
        vs = {}

        def var(n):
            if isinstance(n, tuple):
                return b.lit(plain(f'lit{n[1]}', ((), F32)).but(stage='np'), F32)
            if n not in vs:
                vs[n] = b.var(plain(f'{depth}{n}', env[n]))
            return vs[n]
        consts, ins, eqns = [var(c) for c in g.consts], [var(i) for i in g.ins], []
        for e in g.eqns:
            sigs[id(e)] = [env[o] for o in e.outs]
            p = {}
            if e.sub is not None:
                sub = b.closed(build(e.sub, env[('sub', e.name)], depth + e.name + '/'), [plain('const ' + c, env[('sub', e.name)][c]) for c in e.sub.consts])
                p = {'name': e.name, 'jaxpr': sub, 'inline': False} if e.kind == 'pjit' else {
                    'jaxpr': sub, 'num_consts': e.kw['num_consts'], 'num_carry': e.kw['num_carry'], 'length': e.kw['length'], 'reverse': False, 'unroll': 1, 'linear': (False,) * len(e.ins), '_split_transpose': False}
            q = prim(e)
            eqns.append(b.eqn(q, [var(x) for x in e.ins], [var(x) for x in e.outs], p))
        return b.jaxpr(ins, consts, [var(o) for o in g.outs], eqns)
    given = {v: plain(v, env[v]) for v in g.ins}
    static = Obj('static', {})
    args, kw, sn, pos, skw = arrange(I, how, given, static)
    wrong = []

    def user(I, a, k):
        got = I.rdeep(tuple(a))
        if len(got) != len(args) or any(not same_arg(I, x, y) for x, y in zip(got, args)) or set(k) != set(kw) or any(not same_arg(I, k[n], kw[n]) for n in kw):
            wrong.append('the function is traced with other arguments')
        return given[g.ins[0]]

    def make(I, a, k):
        st = I.rdeep(k.get('static_argnums', a[1] if len(a) > 1 else ()))
        st = () if st is None else (st,) if isinstance(st, int) else tuple(I.iterate(st))
        fn = a[0]

        def traced(I, a, k):
            I.call(fn, tuple(a), dict(k))
            idx = {i % len(a) for i in st}
            dyn = tuple(x for i, x in enumerate(a) if i not in idx)
            leaves = flatten(I, (dyn, I.new_dict(tuple(k.items()))))[0]
            ins, used = [], []
            for l in leaves:
                n = next((n for n, v in given.items() if v is l and n not in used), None)
                if n is None and isinstance(l, Obj):
                    T.raise_(I, 'TypeError', 'an argument that is not an array is traced')
                if n is None:
                    raise Unknown('traced argument of another origin')
                ins.append(n)
                used.append(n)
            rest = [n for n in g.ins if n not in ins]
            q = G(ins, g.eqns, g.outs, rest + g.consts)
            j = build(q, env)
            return b.closed(j, [given[n] if n in given else plain('const ' + n, env[n]) for n in q.consts])
        return call_obj('make_jaxpr', traced)
    I.ext_hooks['jax.make_jaxpr'] = make
    want = S.peak(g, env)
    try:
        f = W.attr('folx.experimental.memory', 'compute_memory')
        ka = dict(kw)
        if sn is not None:
            ka['static_argnums'] = sn
        if 'top' in how:
            ka['print_top_tensors'] = True
        r = I.call(f, (call_obj('userfn', user, name='user'),) + tuple(args), ka)
        out.n += 1
        if wrong:
            out.add('bad', 'arguments', wrong[0])
        else:
            out.ok += 1
        for cond, v in O.leaves(I, I.rdeep(r)):
            out.n += 1
            if isinstance(v, Poly):
                v = norm(v)
            if isinstance(v, bool) or not isinstance(v, int):
                out.add('und' if isinstance(v, (Top, Poly)) else 'bad', 'result', f'the estimate is {v!r:.80}', cond)
            elif v != want:
                out.add('und' if O.uncertain(cond) or I.notes else 'bad', 'estimate', f'the estimate is {v} bytes, the peak is {want}', cond)
            else:
                out.ok += 1
        out.n += 1
        io = [e for e in I.events if e['kind'] == 'io']
        if any(e['text'] is None or e['target'] is not REAL for e in io):
            out.add('und', 'output', 'printed text')
        else:
            text = ''.join(e['text'] for e in io)
            got = text.splitlines()
            if 'top' in how:
                miss = [l for l in lines if l and l not in got]
                if miss:
                    out.add('bad', 'output', f'{miss[0]!r} is printed while estimating and does not reach standard output')
                elif not got:
                    out.add('bad', 'output', 'the largest tensors are asked for and not printed')
                else:
                    out.ok += 1
            elif got != lines:
                out.add('bad', 'output', f'printed: {got!r:.100}, the operations print {lines!r:.100}')
            else:
                out.ok += 1
        return r
    except AbsRaise as e:
        out.n += 1
        if fail is None:
            out.add('und' if I.notes else 'bad', 'raise', f'raises {exc_name(e)} at {e.where}')
    except (Unknown, Budget) as e:
        out.n += 1
        out.add('und', 'unknown', f'{type(e).__name__} {e} at {I.where()}')


from .m_io import REAL        # noqa: E402


def same_arg(I, x, y):
    if isinstance(x, Ref) or isinstance(x, tuple):
        a, ta = flatten(I, x)
        b, tb = flatten(I, y)
        return ta == tb and len(a) == len(b) and all(p is q for p, q in zip(a, b))
    return x is y


def arrange(I, how, given, static):
    """(positional arguments, keyword arguments, static_argnums, ...)"""
    v = list(given.values())
    n = list(given)
    d = {
        'static first': ([static] + v, {}, (0,)),
        'static last': (v + [static], {}, (len(v),)),
        'static middle': (v[:1] + [static] + v[1:], {}, (1,)),
        'static number': (v[:1] + [static] + v[1:], {}, 1),
        'static number zero': ([static] + v, {}, 0),
        'static negative': (v + [static], {}, -1),
        'two static': ([static] + v + [static], {}, (0, len(v) + 1)),
        'static pair': ([static] + v[:1] + [static] + v[1:], {}, (2, 0)),
        'static equals an argument': ([7] + v, {}, (0,)),
        'keyword': (v[:1], dict(zip(n[1:], v[1:])), None),
        'keywords': ([], dict(zip(n, v)), None),
        'unused keyword': (v[:1], dict(zip(n[1:], v[1:])), ()),
        'list': ([I.new_list(tuple(v))], {}, None),
        'dictionary': ([I.new_dict(tuple(zip(n, v)))], {}, None),
        'nested': ([(v[0], I.new_dict(tuple(zip(n[1:], v[1:]))))], {}, None),
        'static and keyword': ([static] + v[:1], dict(zip(n[1:], v[1:])), (0,)),
    }
    a, k, s = d.get(how, (v, {}, None))
    return a, k, s, None, None
